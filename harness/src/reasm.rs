//! Reassembly tables, sequentially and from several threads.
use std::{
    collections::BTreeSet,
    sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst},
};

use haproxy_spop::{Action, AsyncHandler, Error, Message, Reassembly};
use serde_json::{json, Value};

use crate::jsn;

fn nums(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}

fn out<T>(r: Result<Option<Vec<T>>, Error>, f: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok(None) => json!({"r": "none", "items": []}),
        Ok(Some(v)) => json!({"r": "some", "items": v.iter().map(f).collect::<Vec<_>>()}),
        Err(e) => json!({"r": format!("{e:?}"), "items": []}),
    }
}

fn submit(t: &Reassembly<u64>, op: &Value) -> Value {
    out(
        t.reassemble(op["frag"].as_bool().unwrap(), jsn::un_limbs(&op["sid"]), jsn::un_limbs(&op["fid"]), nums(&op["items"])),
        |&n| json!(n),
    )
}

/// {"op":"table","ops":[{frag,sid,fid,items,on} | {clone,on}]}: the tables are numbered, the first is 0
fn table(case: &Value) -> Value {
    let mut ts = vec![Reassembly::<u64>::default()];
    let mut res = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let on = op["on"].as_u64().unwrap_or(0) as usize;
        if op["clone"].is_u64() {
            let copy = ts[on].clone();
            let to = jsn::usz(&op["clone"]);
            if to == ts.len() {
                ts.push(copy);
            } else {
                ts[to] = copy;
            }
            res.push(json!({"r": "none", "items": []}));
        } else {
            res.push(submit(&ts[on], op));
        }
    }
    json!({"op": "table", "ops": case["ops"], "res": res})
}

/// {"op":"frames","kind":"msg"|"act","frames":[F..]}
fn frames(case: &Value) -> Value {
    let mut res = Vec::new();
    let mut msgs = Reassembly::<Message>::default();
    let mut acts = Reassembly::<Action>::default();
    for f in case["frames"].as_array().unwrap() {
        let f = jsn::un_frame(f);
        res.push(match case["kind"].as_str().unwrap() {
            "msg" => out(futures::executor::block_on(msgs.handle_frame(f)), jsn::message),
            _ => out(futures::executor::block_on(acts.handle_frame(f)), jsn::action),
        });
    }
    json!({"op": "frames", "kind": case["kind"], "frames": case["frames"], "res": res})
}

/// Lets all threads go at (nearly) the same time.
pub struct Gate {
    n: usize,
    at: AtomicUsize,
}
impl Gate {
    pub fn new(n: usize) -> Gate {
        Gate { n, at: AtomicUsize::new(0) }
    }
    pub fn pass(&self, round: usize) {
        self.at.fetch_add(1, SeqCst);
        let mut spins = 0u32;
        while self.at.load(SeqCst) < self.n * (round + 1) {
            spins += 1;
            if spins % 2000 == 0 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
}

/// Orders events by their tickets; neighbours of the same kind are put in a fixed order, which
/// changes nothing about what precedes what.
pub fn history(mut evs: Vec<(u64, Value)>) -> Vec<Value> {
    evs.sort_by_key(|e| e.0);
    let mut h: Vec<Value> = evs.into_iter().map(|e| e.1).collect();
    let mut i = 0;
    while i < h.len() {
        let mut j = i;
        while j < h.len() && h[j]["e"] == h[i]["e"] {
            j += 1;
        }
        h[i..j].sort_by_key(|e| (e["th"].as_u64(), e["i"].as_u64()));
        i = j;
    }
    h
}

/// {"op":"threads","rounds":n,"threads":[[op..]..],"drain":[op..]}: the distinct histories of n rounds
fn threads(case: &Value) -> Value {
    let rounds = jsn::usz(&case["rounds"]);
    let plan = case["threads"].as_array().unwrap();
    let tables: Vec<_> = (0..rounds).map(|_| Reassembly::<u64>::default()).collect();
    let gate = Gate::new(plan.len());
    let ticket = AtomicU64::new(0);
    let mut per: Vec<Vec<(u64, Value)>> = vec![Vec::new(); rounds];
    let logs: Vec<Vec<Vec<(u64, Value)>>> = std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .iter()
            .enumerate()
            .map(|(th, ops)| {
                let (tables, gate, ticket) = (&tables, &gate, &ticket);
                let ops = ops.as_array().unwrap();
                // prepared outside the timed part
                let flat: Vec<_> = ops
                    .iter()
                    .map(|o| (o["frag"].as_bool().unwrap(), jsn::un_limbs(&o["sid"]), jsn::un_limbs(&o["fid"]), nums(&o["items"])))
                    .collect();
                s.spawn(move || {
                    let mut log = Vec::with_capacity(rounds);
                    for (round, t) in tables.iter().enumerate() {
                        let mut todo = flat.clone();
                        todo.reverse();
                        let mut marks = Vec::with_capacity(flat.len());
                        gate.pass(round);
                        while let Some((frag, sid, fid, items)) = todo.pop() {
                            let a = ticket.fetch_add(1, SeqCst);
                            let r = t.reassemble(frag, sid, fid, items);
                            let b = ticket.fetch_add(1, SeqCst);
                            marks.push((a, b, r));
                        }
                        let mut evs = Vec::new();
                        for (i, (a, b, r)) in marks.into_iter().enumerate() {
                            evs.push((a, json!({"e": "inv", "th": th, "i": i})));
                            evs.push((b, json!({"e": "res", "th": th, "i": i, "res": out(r, |&n| json!(n))})));
                        }
                        log.push(evs);
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for log in logs {
        for (round, evs) in log.into_iter().enumerate() {
            per[round].extend(evs);
        }
    }
    let mut seen = BTreeSet::new();
    for (round, evs) in per.into_iter().enumerate() {
        let mut h = history(evs);
        // what is left is taken out in the end
        for (i, op) in case["drain"].as_array().unwrap().iter().enumerate() {
            h.push(json!({"e": "inv", "th": plan.len(), "i": i}));
            h.push(json!({"e": "res", "th": plan.len(), "i": i, "res": submit(&tables[round], op)}));
        }
        seen.insert(Value::Array(h).to_string());
    }
    let hs: Vec<Value> = seen.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    json!({"op": "threads", "rounds": rounds, "histories": hs})
}

pub fn run(case: &Value) -> Value {
    match case["op"].as_str().unwrap() {
        "table" => table(case),
        "frames" => frames(case),
        _ => threads(case),
    }
}
