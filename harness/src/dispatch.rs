//! The dispatcher with its streams of work items and messages.
use std::{
    collections::BTreeSet,
    pin::Pin,
    sync::atomic::{AtomicU64, Ordering::SeqCst},
    sync::Arc,
    task::{Context, Poll},
    time::Duration,
};

use futures::{Stream, StreamExt};
use haproxy_spoa::runtime::{Acker, Dispatcher, Processor};
use haproxy_spop::{AgentAck, Message, Scope};
use serde_json::{json, Value};
use tokio::sync::{mpsc::unbounded_channel, oneshot};

use crate::{
    acker, jsn,
    reasm::{history, Gate},
    wake::Counter,
};

type Msgs = Pin<Box<dyn Stream<Item = Message> + Send>>;

struct Work {
    acker: Option<Acker>,
    msgs: Option<Msgs>,
    wake: Counter,
}

/// {"op":"dispatch","ops":[..]}, see spec/DispatchTrace.tla
fn sequential(case: &Value) -> Value {
    let (tx, rx) = unbounded_channel();
    let mut disp = Some(Dispatcher::new(tx));
    let mut work = Some(Processor(rx));
    let next_wake = Counter::new();
    let mut items: Vec<Work> = Vec::new();
    let mut acked: Vec<(Option<oneshot::Receiver<AgentAck>>, Counter)> = Vec::new();
    let mut res = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let mut counts = vec![next_wake.count()];
        counts.extend(items.iter().map(|i| i.wake.count()));
        let acks: Vec<_> = acked.iter().map(|a| a.1.count()).collect();
        let i = op["i"].as_u64().unwrap_or(0) as usize;
        let mut r = match op["o"].as_str().unwrap() {
            "submit" => match &disp {
                None => json!({"r": "gone"}),
                Some(d) => match d.recieve_messages(jsn::un_notify(&op["n"])) {
                    Ok(None) => json!({"r": "none"}),
                    Ok(Some(rx)) => {
                        acked.push((Some(rx), Counter::new()));
                        json!({"r": "new"})
                    }
                    Err(_) => json!({"r": "err"}),
                },
            },
            "next" => match work.as_mut() {
                None => json!({"r": "gone"}),
                Some(p) => {
                    let w = next_wake.waker();
                    match Pin::new(p).poll_next(&mut Context::from_waker(&w)) {
                        Poll::Pending => json!({"r": "pend"}),
                        Poll::Ready(None) => json!({"r": "end"}),
                        Poll::Ready(Some((a, m))) => {
                            items.push(Work { acker: Some(a), msgs: Some(Box::pin(m)), wake: Counter::new() });
                            json!({"r": "item"})
                        }
                    }
                }
            },
            "msg" => match items.get_mut(i) {
                Some(Work { msgs: Some(m), wake, .. }) => {
                    let w = wake.waker();
                    match m.as_mut().poll_next(&mut Context::from_waker(&w)) {
                        Poll::Pending => json!({"r": "pend"}),
                        Poll::Ready(None) => json!({"r": "end"}),
                        Poll::Ready(Some(m)) => json!({"r": "msg", "m": jsn::message(&m)}),
                    }
                }
                _ => json!({"r": "gone"}),
            },
            "msgdrop" => {
                if let Some(w) = items.get_mut(i) {
                    w.msgs = None;
                }
                json!({"r": "ok"})
            }
            "acked" => match acked.get_mut(i) {
                Some((rx, c)) => acker::poll(rx, c),
                None => json!({"r": "gone"}),
            },
            "rxdrop" => {
                if let Some(a) = acked.get_mut(i) {
                    a.0 = None;
                }
                json!({"r": "ok"})
            }
            "close" => {
                work = None;
                json!({"r": "ok"})
            }
            "down" => {
                disp = None;
                json!({"r": "ok"})
            }
            o => match items.get_mut(i) {
                Some(w) => acker::apply(&mut w.acker, o, &op["act"]),
                None => json!({"r": "gone"}),
            },
        };
        r["next"] = json!(next_wake.count() > counts[0]);
        r["msgs"] = counts[1..].iter().enumerate().filter(|(k, n)| items[*k].wake.count() > **n).map(|(k, _)| k).collect();
        r["acks"] = acks.iter().enumerate().filter(|(k, n)| acked[*k].1.count() > **n).map(|(k, _)| k).collect();
        res.push(r);
    }
    json!({"op": "dispatch", "ops": case["ops"], "res": res})
}

/// {"op":"crowd","rounds":n,"threads":[[notify..]..],"live":bool}: the distinct histories of n rounds;
/// with "live" consumers run all the while, otherwise everything is looked at in the end.
fn crowd(case: &Value) -> Value {
    let rounds = jsn::usz(&case["rounds"]);
    let live = case["live"] == true;
    let plan: Vec<Vec<_>> = case["threads"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(jsn::un_notify).collect()).collect();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let mut seen = BTreeSet::new();
    let gate = Gate::new(plan.len());
    let ticket = AtomicU64::new(0);
    struct Round {
        disp: std::sync::Mutex<Option<Arc<Dispatcher>>>,
    }
    let mut works = Vec::new();
    let all: Vec<Round> = (0..rounds)
        .map(|_| {
            let (tx, rx) = unbounded_channel();
            works.push(Processor(rx));
            Round { disp: std::sync::Mutex::new(Some(Arc::new(Dispatcher::new(tx)))) }
        })
        .collect();
    let consume = |mut work: Processor| async move {
        let mut tasks = Vec::new();
        while let Some((mut acker, mut msgs)) = work.next().await {
            let k = tasks.len() as u32;
            tasks.push(tokio::spawn(async move {
                let mut got = Vec::new();
                while let Some(m) = msgs.next().await {
                    got.push(jsn::message(&m));
                }
                acker.set_var(Scope::Request, "k", k);
                let _ = acker.complete();
                got
            }));
        }
        let mut items = Vec::new();
        for t in tasks {
            items.push(t.await.unwrap());
        }
        items
    };
    let mut handles = Vec::new();
    let mut later = Vec::new();
    for w in works {
        if live {
            handles.push(rt.spawn(consume(w)));
        } else {
            later.push(w);
        }
    }
    type Ev = (u64, Value, Option<oneshot::Receiver<AgentAck>>);
    let logs: Vec<Vec<Vec<Ev>>> = std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .iter()
            .enumerate()
            .map(|(th, ops)| {
                let (all, gate, ticket) = (&all, &gate, &ticket);
                s.spawn(move || {
                    let mut log = Vec::new();
                    for (round, r) in all.iter().enumerate() {
                        let d = r.disp.lock().unwrap().as_ref().unwrap().clone();
                        let mut todo = ops.clone();
                        todo.reverse();
                        let mut marks = Vec::with_capacity(ops.len());
                        gate.pass(2 * round);
                        while let Some(n) = todo.pop() {
                            let a = ticket.fetch_add(1, SeqCst);
                            let res = d.recieve_messages(n);
                            let b = ticket.fetch_add(1, SeqCst);
                            marks.push((a, b, res));
                        }
                        drop(d);
                        gate.pass(2 * round + 1);
                        if th == 0 {
                            *r.disp.lock().unwrap() = None;
                        }
                        let mut evs: Vec<Ev> = Vec::new();
                        for (i, (a, b, res)) in marks.into_iter().enumerate() {
                            evs.push((a, json!({"e": "inv", "th": th, "i": i}), None));
                            let (name, rx) = match res {
                                Ok(None) => ("none", None),
                                Ok(Some(rx)) => ("new", Some(rx)),
                                Err(_) => ("err", None),
                            };
                            evs.push((b, json!({"e": "res", "th": th, "i": i, "res": name}), rx));
                        }
                        log.push(evs);
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut per: Vec<Vec<Ev>> = (0..rounds).map(|_| Vec::new()).collect();
    for log in logs {
        for (round, evs) in log.into_iter().enumerate() {
            per[round].extend(evs);
        }
    }
    let mut later = later.into_iter();
    let mut handles = handles.into_iter();
    let mut stuck = 0;
    for evs in per {
        let h = if live { handles.next().unwrap() } else { rt.spawn(consume(later.next().unwrap())) };
        let patience = if stuck > 3 { 50 } else { 5000 };
        let items = rt.block_on(async { tokio::time::timeout(Duration::from_millis(patience), h).await });
        let fin = match items {
            Ok(Ok(items)) => json!({"e": "items", "items": items}),
            Ok(Err(_)) => json!({"e": "panic"}),
            Err(_) => {
                stuck += 1;
                json!({"e": "stuck"})
            }
        };
        let mut plain = Vec::new();
        for (t, mut ev, rx) in evs {
            if let Some(mut rx) = rx {
                // which work item does this receiver belong to
                ev["ack"] = match rx.try_recv() {
                    Ok(a) => json!([jsn::ack(&a)]),
                    Err(_) => json!([]),
                };
            }
            plain.push((t, ev));
        }
        let mut h = history(plain);
        h.push(fin);
        seen.insert(Value::Array(h).to_string());
    }
    rt.shutdown_background();
    let hs: Vec<Value> = seen.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    json!({"op": "crowd", "rounds": rounds, "histories": hs})
}

pub fn run(case: &Value) -> Value {
    match case["op"].as_str().unwrap() {
        "dispatch" => sequential(case),
        _ => crowd(case),
    }
}
