//! Constructors and conversions of the public interface.
use std::convert::{TryFrom, TryInto};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::time::Duration;

use bytes::{Buf, Bytes, BytesMut};
use haproxy_spoa::{runtime::Builder, Error as Failure};
use haproxy_spop::{
    varint, Action, AgentAck, Capability, Disconnect, Error, Frame, HaproxyNotify, Message, Scope, Typed, Version,
};
use serde_json::{json, Value};
use tokio_util::sync::CancellationToken;

use crate::{
    conn,
    io::{Log, ScriptIo},
    jsn,
};

/// A typed value from a value of some Rust type.
fn make(from: &str, x: &Value) -> Typed {
    let v = &x["v"];
    let ip4 = || Ipv4Addr::from(<[u8; 4]>::try_from(jsn::un_bytes(v)).unwrap());
    let ip6 = || Ipv6Addr::from(<[u8; 16]>::try_from(jsn::un_bytes(v)).unwrap());
    match from {
        "str" => Typed::from(&jsn::un_str(v)[..]),
        "slice" => Typed::from(&jsn::un_bytes(v)[..]),
        "box" => Typed::from(jsn::un_bytes(v).into_boxed_slice()),
        "bytes" => Typed::from(Bytes::from(jsn::un_bytes(v))),
        "bytesmut" => Typed::from(BytesMut::from(&jsn::un_bytes(v)[..])),
        "ipaddr" if jsn::un_bytes(v).len() == 4 => Typed::from(IpAddr::V4(ip4())),
        "ipaddr" => Typed::from(IpAddr::V6(ip6())),
        _ => jsn::un_typed(x),
    }
}

/// What a typed value can be turned into: for each type, nothing or the value of it.
fn backs(x: &Typed) -> Value {
    macro_rules! to {
        ($t:ty) => {
            match <Typed as TryInto<$t>>::try_into(x.clone()) {
                Ok(v) => json!([jsn::typed(&Typed::from(v))["v"]]),
                Err(_) => json!([]),
            }
        };
    }
    json!({
        "null": to!(()), "bool": to!(bool), "i32": to!(i32), "u32": to!(u32), "i64": to!(i64), "u64": to!(u64),
        "ip4": to!(Ipv4Addr), "ip6": to!(Ipv6Addr), "str": to!(String), "bin": to!(Bytes),
    })
}

fn code(n: u32) -> Option<Error> {
    Error::try_from(n).ok()
}

fn message(case: &Value) -> Message {
    let name = jsn::un_str(&case["name"]);
    let kv = |a: &Value| (jsn::un_str(&a["n"]), jsn::un_typed(&a["v"]));
    let steps = case["steps"].as_array().unwrap();
    if case["new"] == true {
        return Message::new(name, steps.iter().flat_map(|s| s.as_array().unwrap().iter().map(kv)));
    }
    let mut b = Message::builder(name);
    for s in steps {
        let s = s.as_array().unwrap();
        b = if s.len() == 1 {
            let (n, v) = kv(&s[0]);
            b.arg(n, v)
        } else {
            b.args(s.iter().map(kv))
        };
    }
    b.build()
}

fn kinds(f: &Frame) -> Vec<&'static str> {
    let mut k = Vec::new();
    for (is, n) in [
        (f.is_unset(), "unset"),
        (f.is_haproxy_hello(), "hhello"),
        (f.is_haproxy_disconnect(), "hdisc"),
        (f.is_haproxy_notify(), "notify"),
        (f.is_agent_hello(), "ahello"),
        (f.is_agent_disconnect(), "adisc"),
        (f.is_agent_ack(), "ack"),
    ] {
        if is {
            k.push(n);
        }
    }
    k
}

fn unwraps(f: &Frame) -> Vec<Value> {
    let f = || f.clone();
    let mut k = Vec::new();
    if f().try_unwrap_unset().is_ok() {
        k.push(jsn::frame(&Frame::Unset));
    }
    k.extend(f().try_unwrap_haproxy_hello().ok().map(|x| jsn::frame(&x.into())));
    k.extend(f().try_unwrap_haproxy_notify().ok().map(|x| jsn::frame(&x.into())));
    k.extend(f().try_unwrap_agent_hello().ok().map(|x| jsn::frame(&x.into())));
    k.extend(f().try_unwrap_agent_ack().ok().map(|x| jsn::frame(&x.into())));
    k.extend(f().try_unwrap_haproxy_disconnect().ok().map(|x| jsn::frame(&Frame::HaproxyDisconnect(x))));
    k.extend(f().try_unwrap_agent_disconnect().ok().map(|x| jsn::frame(&Frame::AgentDisconnect(x))));
    k
}

fn frame(case: &Value) -> Value {
    let (sid, fid) = (jsn::un_limbs(&case["sid"]), jsn::un_limbs(&case["fid"]));
    let status = || code(jsn::un_w32(&case["code"])).expect("a status");
    let f = match case["make"].as_str().unwrap() {
        "notify" => Frame::notify(sid, fid, jsn::un_messages(&case["msgs"])),
        "ack" => Frame::ack(sid, fid, jsn::un_actions(&case["acts"])),
        "acknew" => Frame::from(AgentAck::new(sid, fid)),
        "hdisc" => Frame::haproxy_disconnect(status(), jsn::un_str(&case["msg"])),
        "adisc" => Frame::agent_disconnect(status(), jsn::un_str(&case["msg"])),
        "disc" => Frame::AgentDisconnect(Disconnect::new(status(), jsn::un_str(&case["msg"]))),
        _ => jsn::un_frame(&case["frame"]),
    };
    let meta = f.metadata().map(|m| {
        json!({"final": m.is_final(), "frag": m.fragmented(), "abort": m.aborted(), "flags": m.flags.bits(),
               "sid": jsn::limbs(m.stream_id), "fid": jsn::limbs(m.frame_id), "size": m.size()})
    });
    json!({"frame": jsn::frame(&f), "kinds": kinds(&f), "unwraps": unwraps(&f), "type": f.frame_type() as u8,
           "meta": meta.into_iter().collect::<Vec<_>>()})
}

/// [["status", code] | ["closed"] | ["io", text] | ["ctx", text], ...]: the outermost first
fn failure(layers: &[Value]) -> Failure {
    let l = &layers[0];
    match l[0].as_str().unwrap() {
        "status" => Failure::Status(code(jsn::un_w32(&l[1])).expect("a status")),
        "closed" => Failure::Closed,
        "io" => Failure::Io(std::io::Error::new(std::io::ErrorKind::Other, jsn::un_str(&l[1]))),
        _ => {
            let context = Box::new(jsn::un_str(&l[1]));
            // a status as such, or wrapped as an error of the agent
            if layers.len() == 2 && layers[1][0] == "status" && l[2] == true {
                Failure::Context { source: Box::new(code(jsn::un_w32(&layers[1][1])).unwrap()), context }
            } else {
                Failure::Context { source: Box::new(failure(&layers[1..])), context }
            }
        }
    }
}

struct NoMaker;
impl tower::Service<usize> for NoMaker {
    type Response = NoService;
    type Error = conn::Failed;
    type Future = std::future::Ready<Result<NoService, conn::Failed>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), conn::Failed>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: usize) -> Self::Future {
        std::future::ready(Ok(NoService))
    }
}
struct NoService;
impl tower::Service<Vec<Message>> for NoService {
    type Response = Vec<Action>;
    type Error = conn::Failed;
    type Future = std::future::Ready<Result<Vec<Action>, conn::Failed>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), conn::Failed>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: Vec<Message>) -> Self::Future {
        std::future::ready(Ok(Vec::new()))
    }
}

/// What a builder makes of its settings.
fn builder(steps: &Value) -> Value {
    let mut b = Builder::new();
    for s in steps.as_array().unwrap() {
        let x = &s[1];
        b = match s[0].as_str().unwrap() {
            "version" => b.version(jsn::un_version(x)),
            "cap" => b.capability(jsn::un_cap(x)),
            "caps" => b.capabilities(x.as_array().unwrap().iter().map(jsn::un_cap)),
            "fragmentation" => b.fragmentation(),
            "pipelining" => b.pipelining(),
            "async" => b.asynchronous(),
            "mfs" => b.max_frame_size(jsn::un_limbs(x) as usize),
            _ => b.max_process_time(Duration::from_millis(jsn::un_limbs(x))),
        };
    }
    let rt = b.make_service(NoMaker, 1usize);
    json!({"versions": rt.supported_versions.iter().map(|v| json!([v.major, v.minor])).collect::<Vec<_>>(),
           "caps": rt.capabilities.iter().map(|c| c.to_string()).collect::<Vec<_>>(),
           "mfs": jsn::limbs(rt.max_frame_size as u64),
           "maxt": jsn::limbs(rt.max_process_time.as_millis() as u64)})
}

/// Connection::disconnect on a transport of its own.
async fn bye(case: &Value) -> Value {
    let log = Log::new();
    let tok = CancellationToken::new();
    let io = ScriptIo::new(0, log.clone(), case, Some(tok.clone()));
    let rt = Builder::new().max_frame_size(jsn::usz(&case["max"])).make_service(NoMaker, 1usize);
    let mut c = haproxy_spoa::Connection::new(rt, io, tok);
    let status = code(jsn::un_w32(&case["code"])).expect("a status");
    let r = c.disconnect(status, jsn::un_str(&case["msg"])).await;
    let evs = log.events.lock().unwrap().clone();
    let mut b = Vec::new();
    let mut flushed = 0;
    for e in &evs {
        match e["e"].as_str().unwrap() {
            "wr" => b.extend(e["b"].as_array().unwrap().iter().cloned()),
            "flush" => flushed = b.len(),
            _ => {}
        }
    }
    json!({"r": if r.is_ok() { "ok" } else { "err" }, "b": b, "flushed": flushed})
}

pub async fn run(case: &Value) -> Value {
    let out = match case["op"].as_str().unwrap() {
        "typed" => {
            let x = make(case["from"].as_str().unwrap(), &case["x"]);
            json!({"got": jsn::typed(&x), "backs": backs(&x), "same": x == jsn::un_typed(&case["x"])})
        }
        "message" => json!({"got": jsn::message(&message(case))}),
        "action" => json!({"got": jsn::action(&jsn::un_action(&case["x"]))}),
        "frame" => frame(case),
        "notifymeta" => {
            let n: HaproxyNotify = jsn::un_notify(&case["frame"]);
            let m = n.metadata();
            json!({"final": m.is_final(), "sid": jsn::limbs(m.stream_id), "fid": jsn::limbs(m.frame_id)})
        }
        "status" => {
            let n = jsn::un_w32(&case["n"]);
            match code(n) {
                Some(e) => json!({"known": true, "back": jsn::w32(e.into()), "name": format!("{e:?}"),
                                  "disc": jsn::w32(Disconnect::new(e, "x").status_code)}),
                None => json!({"known": false}),
            }
        }
        "scope" => {
            let n = jsn::usz(&case["n"]) as u8;
            match Scope::try_from(n) {
                Ok(s) => json!({"known": true, "back": u8::from(s), "name": format!("{s:?}")}),
                Err(_) => json!({"known": false}),
            }
        }
        "version" => {
            let t = jsn::un_str(&case["s"]);
            match t.parse::<Version>() {
                Ok(v) => json!({"ok": true, "v": [v.major, v.minor], "back": jsn::bytes(v.to_string().as_bytes())}),
                Err(_) => json!({"ok": false}),
            }
        }
        "order" => {
            let (a, b) = (jsn::un_version(&case["a"]), jsn::un_version(&case["b"]));
            json!({"cmp": format!("{:?}", a.cmp(&b)), "eq": a == b, "lt": a < b, "max": format!("{}", a.max(b))})
        }
        "cap" => {
            let t = jsn::un_str(&case["s"]);
            match t.parse::<Capability>() {
                Ok(c) => json!({"ok": true, "name": format!("{c:?}"), "back": jsn::bytes(c.to_string().as_bytes())}),
                Err(_) => json!({"ok": false}),
            }
        }
        "failure" => {
            let f = failure(case["layers"].as_array().unwrap());
            let text = f.to_string();
            let status: Vec<u32> = f.status().into_iter().map(|s| s.into()).collect();
            let d = Disconnect::from(f);
            json!({"status": status, "code": jsn::w32(d.status_code), "msg": jsn::bytes(d.message.as_bytes()), "text": jsn::bytes(text.as_bytes())})
        }
        "builder" => builder(&case["steps"]),
        "varint" => {
            let n = jsn::un_limbs(&case["n"]);
            let mut b = Vec::new();
            let k = varint::put(&mut b, n);
            let mut room = [0u8; 16];
            let left = {
                let mut r = &mut room[..];
                varint::put(&mut r, n);
                r.len()
            };
            let mut s = &b[..];
            let got = varint::get(&mut s);
            json!({"b": jsn::bytes(&b), "put": k, "size": varint::size_of(n), "inplace": jsn::bytes(&room[..16 - left]),
                   "got": got.iter().map(|n| jsn::limbs(*n)).collect::<Vec<_>>(), "left": s.len()})
        }
        "getvar" => {
            let b = jsn::un_bytes(&case["b"]);
            let cut = jsn::usz(&case["cut"]).min(b.len());
            let (x, y) = b.split_at(cut);
            let mut s = x.chain(y);
            let got = varint::get(&mut s);
            json!({"got": got.iter().map(|n| jsn::limbs(*n)).collect::<Vec<_>>(), "left": s.remaining()})
        }
        "bye" => bye(case).await,
        o => panic!("bad case {o}"),
    };
    let mut rec = case.clone();
    rec["out"] = out;
    rec
}
