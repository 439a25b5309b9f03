#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from what is built."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

CONN = ("TLC explores Conn with an environment (MCConn: every order of frames, service answers, failures, time and shutdown within small "
        "bounds, safety and liveness); every recorded event of real connections, run over scripted transports in virtual time, must be a "
        "behaviour of Conn (ConnTrace). Trusted: the harness's scripted transport and services, tokio's paused clock, TLC. ")
WIRE = ("SpopWire is an executable specification of the format; TLC enumerates frames, values and byte strings from it (WireMC) and judges every "
        "write and read of the real framer (WireTrace). Bounded by what is enumerated and sampled. Trusted: JSON translation in the harness, TLC. ")
T = "TLA+ specification, TLC model checking, trace validation of the real code"
CLAIMS = {
    "C01": (WIRE, T), "C02": (WIRE, T), "C03": (WIRE, T), "C06": (WIRE, T),
    "C04": ("FramingMC explores every way of cutting short streams; recorded transports of framer, codec and buffered codec are judged by FramingTrace.", T),
    "C05": (WIRE + CONN, T),
    "C07": ("MCNegotiate enumerates all handshakes of a small universe, which are replayed; " + CONN, T),
    **{c: (CONN, T) for c in ("C08", "C09", "C11", "C12", "C21")},
    "C10": (CONN + "One finding on record: requests aborted by FIN|ABORT are delivered.", T),
    "C13": (CONN, T), "C14": (CONN, T),
    "C15": ("ReassemblyMC explores concurrent submissions and shows them linearizable; recorded sequential and multi-threaded histories of the real table and of the frame handler must be linearizable behaviours of Reassembly.", T),
    "C16": ("AckerMC explores every history of an acknowledger; all short histories are replayed into the real one and judged by DispatchTrace.", T),
    "C17": ("DispatchMC explores submissions and consumers; recorded histories of the real dispatcher, sequential and concurrent, are judged by DispatchTrace.", T),
    "C18": ("DispatchMC proves (liveness) that waiting consumers are woken; recorded polls with counting wakers are judged by DispatchTrace.", T),
    "C19": ("HdrsBin specifies the layout; enumerated and random lists are encoded and decoded by the real code and judged.", T),
    "C20": ("Agent's liveness (AgentMC) and recorded runs of a real agent on loopback sockets, with failing accepts.", T),
    "C23": ("Api specifies what each constructor and conversion makes of its input; ApiMC explores every short way of building a message or an agent, which are replayed; boundary and random values of every other are run through the real code and judged by ApiTrace.", T),
    "C22": ("HeldMC explores every short script of fragments, repeated: a keeper that keeps what Reassembly keeps is empty after each round; bytes allocated by real tables, dispatchers, connections and agents after many rounds, measured with a counting allocator, are judged by HeldTrace.", T),
}
WAIT = "not built yet"


def main():
    from vp import registry
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in registry.PROPS:
            note, tech = CLAIMS[p]
            checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                           "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                           "technique": tech, "level": "model_checking", "level_note": note.strip()})
        else:
            na.append({"property": p, "reason": WAIT})
    m = {"version": 1, "setup_cmd": "cd harness && CARGO_TARGET_DIR=target CARGO_NET_OFFLINE=true cargo build -q --offline",
         "checks": checks, "not_applicable": na,
         "notes": "Specifications in spec/ (TLA+, TLC), harness in harness/ (Rust, path dependencies on /repo), drivers in vp/. No hooks in /repo are needed."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


main()
