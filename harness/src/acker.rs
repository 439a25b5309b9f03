//! One acknowledger: {"op":"acker","sid":..,"fid":..,"ops":["set"|"unset"|"complete"|"abort"|"drop"|"unwind"|"rxdrop"|"poll"...]}.
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};

use haproxy_spoa::runtime::Acker;
use haproxy_spop::{Action, AgentAck};
use serde_json::{json, Value};
use tokio::sync::oneshot;

use crate::{jsn, wake::Counter};

/// What polling an ACK receiver says.
pub fn poll(rx: &mut Option<oneshot::Receiver<AgentAck>>, c: &Counter) -> Value {
    let Some(r) = rx.as_mut() else { return json!({"r": "gone"}) };
    let w = c.waker();
    match Pin::new(r).poll(&mut Context::from_waker(&w)) {
        Poll::Pending => json!({"r": "pend"}),
        Poll::Ready(Ok(a)) => {
            *rx = None;
            json!({"r": "ack", "ack": jsn::ack(&a)})
        }
        Poll::Ready(Err(_)) => {
            *rx = None;
            json!({"r": "closed"})
        }
    }
}

pub fn apply(acker: &mut Option<Acker>, op: &str, act: &Value) -> Value {
    let res = |r: Result<(), haproxy_spoa::Error>| match r {
        Ok(()) => "ok".to_string(),
        Err(haproxy_spoa::Error::Closed) => "closed".to_string(),
        Err(e) => format!("{e:?}"),
    };
    if op == "drop" {
        *acker = None;
        return json!({"r": "ok"});
    }
    if op == "unwind" {
        // dropped by a panic
        let a = acker.take();
        let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _held = a;
            panic!("told to")
        }));
        assert!(end.is_err());
        return json!({"r": "ok"});
    }
    let Some(a) = acker.as_mut() else { return json!({"r": "gone"}) };
    match op {
        "complete" => json!({"r": res(a.complete())}),
        "abort" => json!({"r": res(a.abort())}),
        _ => {
            match jsn::un_actions(&json!([act])).remove(0) {
                Action::SetVar { scope, name, value } => a.set_var(scope, name, value),
                Action::UnsetVar { scope, name } => a.unset_var(scope, name),
            }
            json!({"r": "ok"})
        }
    }
}

pub fn run(case: &Value) -> Value {
    let (a, rx) = Acker::new(jsn::un_limbs(&case["sid"]), jsn::un_limbs(&case["fid"]));
    let (mut a, mut rx) = (Some(a), Some(rx));
    let wake = Counter::new();
    let mut out = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let before = wake.count();
        let mut r = match op["o"].as_str().unwrap() {
            "rxdrop" => {
                rx = None;
                json!({"r": "ok"})
            }
            "poll" => poll(&mut rx, &wake),
            "all" => op["acts"].as_array().unwrap().iter().map(|x| apply(&mut a, "set", x)).last().unwrap(),
            o => apply(&mut a, o, &op["act"]),
        };
        r["woken"] = json!(wake.count() > before);
        out.push(r);
    }
    json!({"op": "acker", "sid": case["sid"], "fid": case["fid"], "ops": case["ops"], "res": out})
}
