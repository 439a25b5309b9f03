//! Binary header lists: {"op":"hdrs","b":[..]} and, for very long ones, {"op":"many","n":..}.
use haproxy_spoa::req::hdrs_bin;
use serde_json::{json, Value};

use crate::jsn;

pub fn run(case: &Value) -> Value {
    if case["op"] == "many" {
        let n = jsn::usz(&case["n"]);
        let mut b = Vec::new();
        for i in 0..n {
            let name = format!("x{i}");
            b.push(name.len() as u8);
            b.extend_from_slice(name.as_bytes());
            b.extend_from_slice(&[1, b'v']);
        }
        b.extend_from_slice(&[0, 0]);
        return match hdrs_bin(&b[..]) {
            Ok(h) => json!({"op": "many", "n": n, "res": "ok", "got": h.len()}),
            Err(_) => json!({"op": "many", "n": n, "res": "err", "got": 0}),
        };
    }
    let b = jsn::un_bytes(&case["b"]);
    // in one piece, or as a buffer of two pieces
    let r = match case["cut"].as_u64() {
        Some(k) => {
            use bytes::Buf;
            let (x, y) = b.split_at(k as usize);
            hdrs_bin(x.chain(y))
        }
        None => hdrs_bin(&b[..]),
    };
    let (res, hdrs) = match &r {
        Ok(h) => ("ok", h.iter().map(|(k, v)| json!({"n": jsn::bytes(k.as_str().as_bytes()), "v": jsn::bytes(v.as_bytes())})).collect()),
        Err(_) => ("err", Vec::new()),
    };
    json!({"op": "hdrs", "b": case["b"], "res": res, "hdrs": hdrs})
}
