//! JSON <-> library values, in the shape of spec/SpopWire.tla.
use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, HaproxyNotify,
    Message, Scope, Typed, Version,
};
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn limbs(n: u64) -> Value {
    json!([n & 0xffff, (n >> 16) & 0xffff, (n >> 32) & 0xffff, n >> 48])
}
pub fn un_limbs(v: &Value) -> u64 {
    v.as_array()
        .unwrap()
        .iter()
        .rev()
        .fold(0, |acc, x| (acc << 16) | x.as_u64().unwrap())
}
pub fn w32(n: u32) -> Value {
    json!([n & 0xffff, n >> 16])
}
pub fn un_w32(v: &Value) -> u32 {
    un_limbs(v) as u32
}
pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|&x| Value::from(x)).collect())
}
pub fn un_bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}
pub fn un_str(v: &Value) -> String {
    String::from_utf8(un_bytes(v)).expect("input strings are valid UTF-8")
}
pub fn usz(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

pub fn typed(x: &Typed) -> Value {
    let (k, v) = match x {
        Typed::Null => ("null", json!([])),
        Typed::Boolean(b) => ("bool", json!([*b as u8])),
        Typed::Int32(n) => ("i32", limbs(*n as i64 as u64)),
        Typed::Uint32(n) => ("u32", limbs(*n as u64)),
        Typed::Int64(n) => ("i64", limbs(*n as u64)),
        Typed::Uint64(n) => ("u64", limbs(*n)),
        Typed::Ipv4(a) => ("ip4", bytes(&a.octets())),
        Typed::Ipv6(a) => ("ip6", bytes(&a.octets())),
        Typed::String(s) => ("str", bytes(s.as_bytes())),
        Typed::Binary(b) => ("bin", bytes(b)),
    };
    json!({"k": k, "v": v})
}
pub fn un_typed(x: &Value) -> Typed {
    let v = &x["v"];
    match x["k"].as_str().unwrap() {
        "null" => ().into(),
        "bool" => (v[0] == 1).into(),
        "i32" => Typed::from(un_limbs(v) as i64 as i32),
        "u32" => Typed::from(un_limbs(v) as u32),
        "i64" => Typed::from(un_limbs(v) as i64),
        "u64" => Typed::from(un_limbs(v)),
        "ip4" => Ipv4Addr::from(<[u8; 4]>::try_from(un_bytes(v)).unwrap()).into(),
        "ip6" => Ipv6Addr::from(<[u8; 16]>::try_from(un_bytes(v)).unwrap()).into(),
        "str" => Typed::from(un_str(v)),
        "bin" => Typed::from(un_bytes(v)),
        k => panic!("bad kind {k}"),
    }
}

fn scope(s: Scope) -> u8 {
    match s {
        Scope::Process => 0,
        Scope::Session => 1,
        Scope::Transaction => 2,
        Scope::Request => 3,
        Scope::Response => 4,
    }
}
pub fn un_scope(v: &Value) -> Scope {
    [
        Scope::Process,
        Scope::Session,
        Scope::Transaction,
        Scope::Request,
        Scope::Response,
    ][usz(v)]
}

pub fn action(a: &Action) -> Value {
    match a {
        Action::SetVar { scope: s, name, value } => {
            json!({"a": "set", "scope": scope(*s), "name": bytes(name.as_bytes()), "v": typed(value)})
        }
        Action::UnsetVar { scope: s, name } => {
            json!({"a": "unset", "scope": scope(*s), "name": bytes(name.as_bytes()), "v": typed(&Typed::Null)})
        }
    }
}
pub fn un_action(v: &Value) -> Action {
    let s = un_scope(&v["scope"]);
    match v["a"].as_str().unwrap() {
        "set" => Action::set_var(s, un_str(&v["name"]), un_typed(&v["v"])),
        _ => Action::unset_var(s, un_str(&v["name"])),
    }
}
pub fn actions(a: &[Action]) -> Value {
    Value::Array(a.iter().map(action).collect())
}
pub fn un_actions(v: &Value) -> Vec<Action> {
    v.as_array().unwrap().iter().map(un_action).collect()
}

pub fn message(m: &Message) -> Value {
    json!({"name": bytes(m.name.as_bytes()),
           "args": m.args.iter().map(|(n, v)| json!({"n": bytes(n.as_bytes()), "v": typed(v)})).collect::<Vec<_>>()})
}
pub fn un_message(v: &Value) -> Message {
    let args = v["args"].as_array().unwrap();
    let half = args.len() / 2;
    let kv = |a: &Value| (un_str(&a["n"]), un_typed(&a["v"]));
    // both construction paths of the API
    if args.len() % 2 == 0 {
        Message::new(un_str(&v["name"]), args.iter().map(kv))
    } else {
        let (n, x) = kv(&args[half]);
        Message::builder(un_str(&v["name"]))
            .args(args[..half].iter().map(kv))
            .arg(n, x)
            .args(args[half + 1..].iter().map(kv))
            .build()
    }
}
pub fn messages(m: &[Message]) -> Value {
    Value::Array(m.iter().map(message).collect())
}
pub fn un_messages(v: &Value) -> Vec<Message> {
    v.as_array().unwrap().iter().map(un_message).collect()
}

fn cap(c: &Capability) -> &'static str {
    match c {
        Capability::Fragmentation => "fragmentation",
        Capability::Pipelining => "pipelining",
        Capability::Async => "async",
    }
}
pub fn un_cap(v: &Value) -> Capability {
    match v.as_str().unwrap() {
        "fragmentation" => Capability::Fragmentation,
        "pipelining" => Capability::Pipelining,
        "async" => Capability::Async,
        c => panic!("bad capability {c}"),
    }
}
fn caps(c: &[Capability]) -> Value {
    Value::Array(c.iter().map(|c| Value::from(cap(c))).collect())
}
fn un_caps(v: &Value) -> Vec<Capability> {
    v.as_array().unwrap().iter().map(un_cap).collect()
}
pub fn un_version(v: &Value) -> Version {
    Version::new(usz(&v[0]) as u8, usz(&v[1]) as u8)
}
fn version(v: &Version) -> Value {
    json!([v.major, v.minor])
}

pub fn frame(f: &Frame) -> Value {
    match f {
        Frame::Unset => json!({"t": "unset"}),
        Frame::HaproxyHello(h) => json!({
            "t": "hhello",
            "versions": h.supported_versions.iter().map(version).collect::<Vec<_>>(),
            "mfs": w32(h.max_frame_size),
            "caps": caps(&h.capabilities),
            "hc": h.healthcheck.iter().collect::<Vec<_>>(),
            "eid": h.engine_id.iter().map(|s| bytes(s.as_bytes())).collect::<Vec<_>>(),
        }),
        Frame::AgentHello(h) => json!({
            "t": "ahello", "version": version(&h.version), "mfs": w32(h.max_frame_size), "caps": caps(&h.capabilities),
        }),
        Frame::HaproxyNotify(n) => json!({
            "t": "notify", "frag": n.fragmented, "sid": limbs(n.stream_id), "fid": limbs(n.frame_id),
            "msgs": messages(&n.messages),
        }),
        Frame::AgentAck(a) => ack(a),
        Frame::HaproxyDisconnect(d) => {
            json!({"t": "hdisc", "code": w32(d.status_code), "msg": bytes(d.message.as_bytes())})
        }
        Frame::AgentDisconnect(d) => {
            json!({"t": "adisc", "code": w32(d.status_code), "msg": bytes(d.message.as_bytes())})
        }
    }
}
pub fn ack(a: &AgentAck) -> Value {
    json!({"t": "ack", "frag": a.fragmented, "abort": a.aborted, "sid": limbs(a.stream_id),
           "fid": limbs(a.frame_id), "acts": actions(&a.actions)})
}
pub fn un_notify(v: &Value) -> HaproxyNotify {
    HaproxyNotify {
        fragmented: v["frag"].as_bool().unwrap(),
        stream_id: un_limbs(&v["sid"]),
        frame_id: un_limbs(&v["fid"]),
        messages: un_messages(&v["msgs"]),
    }
}
pub fn un_frame(v: &Value) -> Frame {
    match v["t"].as_str().unwrap() {
        "unset" => Frame::Unset,
        "hhello" => Frame::HaproxyHello(HaproxyHello {
            supported_versions: v["versions"].as_array().unwrap().iter().map(un_version).collect(),
            max_frame_size: un_w32(&v["mfs"]),
            capabilities: un_caps(&v["caps"]),
            healthcheck: v["hc"].as_array().unwrap().first().map(|b| b.as_bool().unwrap()),
            engine_id: v["eid"].as_array().unwrap().first().map(un_str),
        }),
        "ahello" => Frame::AgentHello(AgentHello {
            version: un_version(&v["version"]),
            max_frame_size: un_w32(&v["mfs"]),
            capabilities: un_caps(&v["caps"]),
        }),
        "notify" => {
            let n = un_notify(v);
            if n.fragmented {
                Frame::HaproxyNotify(n)
            } else {
                // the convenience constructor must build the same frame
                Frame::notify(n.stream_id, n.frame_id, n.messages)
            }
        }
        "ack" => {
            let (frag, abort) = (v["frag"].as_bool().unwrap(), v["abort"].as_bool().unwrap());
            let (sid, fid, acts) = (un_limbs(&v["sid"]), un_limbs(&v["fid"]), un_actions(&v["acts"]));
            if !frag && !abort {
                Frame::ack(sid, fid, acts)
            } else {
                let mut a = AgentAck::new(sid, fid);
                a.fragmented = frag;
                a.aborted = abort;
                a.actions = acts;
                Frame::AgentAck(a)
            }
        }
        "hdisc" => Frame::HaproxyDisconnect(disc(v)),
        "adisc" => Frame::AgentDisconnect(disc(v)),
        t => panic!("bad frame type {t}"),
    }
}
fn disc(v: &Value) -> Disconnect {
    Disconnect {
        status_code: un_w32(&v["code"]),
        message: un_str(&v["msg"]),
    }
}
