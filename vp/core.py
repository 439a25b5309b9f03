"""Common machinery of the checks: building the harness, running TLC, driving the real code and
turning rejected traces into VIOLATION lines."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Tlc:
    """What one TLC run said."""

    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = re.findall(r"(?:Invariant|property|Temporal properties?) ?(\S*) (?:is|was|were) violated", out)

    def tuples(self, tag):
        """The arguments of every printed <<"tag", ...>>."""
        return [[int(x) if re.fullmatch(r"-?\d+", x) else x.strip('"') for x in re.split(r",\s*", m)]
                for m in re.findall(r'^<<"%s",\s*(.*?)>>$' % tag, self.out, re.M)]

    def jsons(self):
        """Every printed ToJson(...) value."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                res.append(json.loads(json.loads(line)))
        return res

    def actions(self):
        """Distinct successor states found per action, with -coverage."""
        res = {}
        for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", self.out, re.M):
            res[m.group(1)] = max(res.get(m.group(1), 0), int(m.group(3)))
        return res


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.level = level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.states = self.transitions = self.traces = self.violations = self.known = 0
        self.models, self.judged, self.samples, self.notes = [], [], [], []
        self.assumptions = []
        self.reported = 0
        self.evdir = os.path.join(ROOT, "evidence")
        os.makedirs(self.evdir, exist_ok=True)
        self.replays = os.path.join(self.evdir, "replays")
        self.findings, self.knew = [], set()
        path = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(path):
            self.findings = [f for f in json.load(open(path))["known"] if f["property"] == prop]
        self.n = 0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def build(self):
        h = hashlib.sha256()
        for top in (os.path.join(REPO, "spop"), os.path.join(REPO, "spoa"), os.path.join(HARNESS, "src")):
            for d, ds, fs in os.walk(top):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
        stamp = os.path.join(HARNESS, "target", "sources.sha256")
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_NET_OFFLINE="true")
        if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
            subprocess.run(["cargo", "clean", "-q", "-p", "haproxy-spop", "-p", "haproxy-spoa", "-p", "spopcheck"],
                           cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "-q", "--offline"], cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
        open(stamp, "w").write(h.hexdigest())
        self.bin = os.path.join(HARNESS, "target", "debug", "spopcheck")
        self.log("harness built from", REPO)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, timeout=600, extra=(), heap="10g"):
        """cfg: text of a configuration, or the name of a file in spec/."""
        self.n += 1
        if "\n" in cfg:
            path = os.path.join(self.tmp, "%s_%d.cfg" % (module, self.n))
            open(path, "w").write(cfg)
        else:
            path = os.path.join(SPEC, cfg)
        meta = os.path.join(self.tmp, "meta%d" % self.n)
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.tmp, "-Xss256m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", path, *extra, module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC did not finish %s within %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return Tlc(r.stdout + r.stderr, r.returncode)

    def model(self, module, cfg, what, expect_actions=(), **kw):
        """Model check a design; a violated theorem there is an error of the machinery."""
        extra = list(kw.pop("extra", ()))
        if expect_actions:
            extra += ["-coverage", "1"]
        r = self.tlc(module, cfg, extra=extra, **kw)
        if not r.ok:
            raise ToolError("model checking %s failed:\n%s" % (module, clip(r.out)))
        acts = r.actions() if expect_actions else {}
        for a in expect_actions:
            if not acts.get(a):
                raise ToolError("vacuous model: action %s of %s is never taken" % (a, module))
        self.states += r.states
        self.transitions += r.transitions
        self.models.append({"module": module, "what": what, "states": r.states, "transitions": r.transitions,
                            **({"actions": {a: acts[a] for a in expect_actions}} if acts else {})})
        self.log("model %s (%s): %d states, %d transitions" % (module, what, r.states, r.transitions))
        return r

    def model_breaks(self, module, cfg, what, invariant, **kw):
        """A design known to be wrong: TLC has to find the violation, or the theorem says nothing."""
        r = self.tlc(module, cfg, **kw)
        if r.ok or ("Invariant %s is violated" % invariant) not in r.out and not (invariant == "" and "violated" in r.out):
            raise ToolError("%s (%s) should violate %s:\n%s" % (module, what, invariant, clip(r.out)))
        self.models.append({"module": module, "what": what, "violates": invariant or "liveness"})
        self.log("model %s (%s): violated, as it has to be" % (module, what))

    # ---------------------------------------------------------------- driving the real code
    def run(self, mode, cases, env=None, jobs=8, limit=600):
        """Run the cases through the harness, in order; a case that kills or hangs the process
        gives a record {"op": "crash"/"hang"} and the rest goes on in a new process, but after
        three hangs in a row of cases the others of that row are given up with the same record."""
        jobs = max(1, min(jobs, (len(cases) + 3) // 4))
        parts = [list(range(k, len(cases), jobs)) for k in range(jobs)]
        out = [None] * len(cases)
        procs = []
        for k, part in enumerate(parts):
            procs.append(self._spawn(mode, [cases[i] for i in part], "%d_%d" % (self.n, k), env))
        self.n += 1
        deadline = time.time() + limit
        for k, part in enumerate(parts):
            proc, outf, errf = procs[k]
            pos = hangs = 0
            while True:
                try:
                    rc = proc.wait(timeout=max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    for q, _, _ in procs:
                        q.kill()
                    proc.kill()
                    stuck = [r for r in out if r and r.get("op") == "hang"]
                    if not stuck:
                        raise ToolError("the harness did not finish in %d s (mode %s)" % (limit, mode))
                    # it hangs so often that there is no end to it: what was seen is enough
                    return [r if r else stuck[0] for r in out]
                recs = [json.loads(l) for l in open(outf) if l.endswith("\n")]
                for r in recs:
                    out[part[pos]] = r
                    pos += 1
                if rc == 0 and pos == len(part):
                    break
                if pos >= len(part):
                    raise ToolError("harness: exit %d after the last case: %s" % (rc, open(errf).read()[-500:]))
                err = open(errf).read()[-500:]
                out[part[pos]] = {"op": "hang" if rc == 77 else "crash", "rc": rc, "stderr": err, "case": cases[part[pos]]}
                if "bad case" in err:
                    raise ToolError("harness: " + err)
                hangs += rc == 77
                pos += 1
                if hangs >= 3:      # the verdict is in: no need to wait for every other case
                    for i in part[pos:]:
                        out[i] = out[part[pos - 1]]
                    break
                if pos >= len(part):
                    break
                proc, outf, errf = self._spawn(mode, [cases[i] for i in part[pos:]], "%d_%d_%d" % (self.n, k, pos), env)
        return out

    def _spawn(self, mode, cases, tag, env):
        inf, outf, errf = (os.path.join(self.tmp, "%s_%s.%s" % (mode, tag, x)) for x in ("in", "out", "err"))
        with open(inf, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        p = subprocess.Popen([self.bin, mode], stdin=open(inf), stdout=open(outf, "w"), stderr=open(errf, "w"),
                             cwd=self.tmp, env=dict(os.environ, **(env or {})))
        return p, outf, errf

    # ---------------------------------------------------------------- judging
    def write(self, records, name):
        path = os.path.join(self.tmp, name)
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return path

    def judge_each(self, module, records, what, cfg=None, cases=None, **kw):
        """Records judged one by one: the module prints <<"REJECT", i>> for the bad ones."""
        if not records:
            return []
        self.n += 1
        path = self.write(records, "judge%d.ndjson" % self.n)
        r = self.tlc(module, cfg or module + ".cfg", env={"TRACE": path}, **kw)
        if not r.ok or r.tuples("INCOMPLETE"):
            raise ToolError("judging with %s failed:\n%s" % (module, clip(r.out)))
        if r.states <= len(records):
            raise ToolError("%s judged %d of %d records" % (module, r.states, len(records)))
        at = {t[0] - 1: t[1] for t in r.tuples("REJECT") if len(t) > 1}
        bad = sorted(t[0] - 1 for t in r.tuples("REJECT"))
        self._account(what, module, records, r)
        for i in bad:
            self.violation(what, module, records[i], cases[i] if cases else None, reach=at.get(i))
        return bad

    def judge_traces(self, module, traces, what, cfg=None, cases=None, known=None, **kw):
        """Traces judged as behaviours: the module prints <<"ACCEPT", tr>> for those it has.
        known: (finding id, configuration that describes the recorded finding)."""
        if not traces:
            return []
        # no behaviour of any specification ends with the death of the process, or in a loop
        dead = [i for i, t in enumerate(traces) if t.get("op") in ("panic", "crash", "hang")]
        for i in dead:
            self.violation(what, module, traces[i], cases[i] if cases else None)
        live = [i for i in range(len(traces)) if i not in set(dead)]
        if dead:
            sub = self.judge_traces(module, [traces[i] for i in live], what, cfg, [cases[i] for i in live] if cases else None, known, **kw)
            return sorted(dead + [live[i] for i in sub])
        self.n += 1
        path = self.write(traces, "judge%d.ndjson" % self.n)
        r = self.tlc(module, cfg or module + ".cfg", env={"TRACE": path}, **kw)
        if not r.ok:
            raise ToolError("judging with %s failed:\n%s" % (module, clip(r.out)))
        good = {t[0] - 1 for t in r.tuples("ACCEPT")}
        bad = [i for i in range(len(traces)) if i not in good]
        self._account(what, module, traces, r)
        reach = {}
        if bad and known:      # which of them are explained by a finding on record
            fid, kcfg = known
            if any(f["id"] == fid for f in self.findings):
                path = self.write([traces[i] for i in bad], "known%d.ndjson" % self.n)
                d = self.tlc(module, kcfg, env={"TRACE": path}, **kw)
                explained = {t[0] - 1 for t in d.tuples("ACCEPT")}
                self.known += len(explained)
                self.knew.add(fid)
                bad = [i for k, i in enumerate(bad) if k not in explained]
        if bad:      # how far did the specification get with them
            some = bad[:5]
            path = self.write([traces[i] for i in some], "diag%d.ndjson" % self.n)
            d = self.tlc(module, cfg or module + ".cfg", env={"TRACE": path, "DIAG": "1"}, **kw)
            for t in d.tuples("AT"):
                reach[some[t[0] - 1]] = max(reach.get(some[t[0] - 1], 0), t[1])
        for i in bad:
            self.violation(what, module, traces[i], cases[i] if cases else None, reach=reach.get(i))
        return bad

    def _account(self, what, module, records, r):
        self.states += r.states
        self.transitions += r.transitions
        self.traces += len(records)
        self.judged.append({"what": what, "module": module, "records": len(records),
                            "distinct": len({json.dumps(x, sort_keys=True) for x in records}),
                            "states": r.states, "transitions": r.transitions})
        if len(self.samples) < 4:
            self.samples.append({"what": what, "record": shorten(self.rng.choice(records))})
        self.log("%s: %d records against %s (%d states)" % (what, len(records), module, r.states))

    def violation(self, what, module, record, case=None, reach=None):
        self.violations += 1
        if self.reported >= 5:
            return
        self.reported += 1
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s_%d.json" % (self.prop, self.reported))
        json.dump({"property": self.prop, "what": what, "module": module, "case": case, "record": record,
                   "stopped_at": reach, "seed": self.seed}, open(path, "w"), indent=1)
        self.log("rejected by %s (%s)%s: %s" % (module, what, "" if reach is None else " at event %s" % reach,
                                               json.dumps(shorten(record))[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def must_reject(self, module, records, what, cfg=None, traces=False, **kw):
        """Binding self-test: corrupted records the specification has to refuse."""
        if not records:
            raise ToolError("no corrupted records for " + what)
        self.n += 1
        path = self.write(records, "self%d.ndjson" % self.n)
        r = self.tlc(module, cfg or module + ".cfg", env={"TRACE": path}, **kw)
        if not r.ok:
            raise ToolError("self-test of %s failed:\n%s" % (module, clip(r.out)))
        if traces:
            passed = sorted({t[0] - 1 for t in r.tuples("ACCEPT")})
        else:
            passed = sorted(set(range(len(records))) - {t[0] - 1 for t in r.tuples("REJECT")})
        if passed:
            raise ToolError("%s accepts a corrupted record (%s): %s" % (module, what, json.dumps(records[passed[0]])[:3000]))
        self.notes.append("%d corrupted records refused by %s (%s)" % (len(records), module, what))

    # ---------------------------------------------------------------- the end
    def finish(self):
        for f in self.findings:
            if f["id"] in self.knew:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]), flush=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples,
                         "models": self.models, "judged": self.judged, "self_tests": self.notes,
                         **({"known_finding_hits": self.known} if self.known else {})},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": self.violations,
        }
        json.dump(ev, open(os.path.join(self.evdir, self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        self.log("%d states, %d transitions, %d traces, %d violations" % (self.states, self.transitions, self.traces, self.violations))
        return 1 if self.violations else 0


def clip(out):
    """The end of TLC's output without what it printed for us."""
    lines = [l[:600] for l in out.splitlines() if not l.startswith('"') and not l.startswith("<<")]
    errs = [i for i, l in enumerate(lines) if l.startswith("Error")]
    return "\n".join(lines[errs[0]:][:60] if errs else lines[-40:])


def shorten(x, n=40):
    if isinstance(x, list):
        if len(x) > n:
            return [shorten(y, n) for y in x[:n]] + ["... %d more" % (len(x) - n)]
        return [shorten(y, n) for y in x]
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    return x


def main(props):
    if len(sys.argv) != 2 or sys.argv[1] not in props:
        sys.exit("usage: check.py " + "|".join(sorted(props)))
    prop = sys.argv[1]
    c = Check(prop)
    try:
        c.build()
        props[prop](c)
        rc = c.finish()
    except ToolError as e:
        print("ERROR in the machinery of %s: %s" % (prop, e), flush=True)
        # a violation already reported stands
        rc = 1 if c.violations else 2
        if c.violations:
            c.finish()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)
