//! What is kept of finished work: the bytes that are allocated after many rounds of it.
//!   {"op":"held","what":"table"|"dispatch"|"conn","script":[{sid,fid,frag}],"rounds":n,"windows":w}
//!   {"op":"held","what":"agent"|"ends","kinds":[..],"rounds":n,"windows":w}
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::{
        atomic::{AtomicI64, Ordering::Relaxed},
        Arc,
    },
    time::Duration,
};

use futures::StreamExt;
use haproxy_spoa::{
    runtime::{Builder, Dispatcher, Processor},
    Agent, Connection,
};
use haproxy_spop::{Action, Frame, Framer, HaproxyHello, HaproxyNotify, Message, Reassembly, Scope, Version};
use serde_json::{json, Value};
use tokio::{io::AsyncWriteExt, net::TcpStream, sync::mpsc::unbounded_channel, time::sleep};
use tokio_util::sync::CancellationToken;
use tower::service_fn;

use crate::conn::Failed;

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

struct Step {
    sid: u64,
    fid: u64,
    frag: bool,
}
fn script(case: &Value) -> Vec<Step> {
    let steps = case["script"].as_array().unwrap();
    steps.iter().map(|s| Step { sid: s["sid"].as_u64().unwrap(), fid: s["fid"].as_u64().unwrap(), frag: s["frag"] == true }).collect()
}
/// Every round has identifiers, names and values of its own.
fn message(kind: &str, round: u64) -> Message {
    Message::builder(format!("{kind}-{round:012}")).arg(format!("a{round:012}"), format!("v{round:012}")).build()
}
fn notify(s: &Step, round: u64) -> HaproxyNotify {
    HaproxyNotify { fragmented: s.frag, stream_id: round * 100 + s.sid, frame_id: s.fid, messages: vec![message("m", round)] }
}
fn answer(m: Vec<Message>) -> Vec<Action> {
    let name = m.first().map(|m| m.name.clone()).unwrap_or_default();
    vec![Action::set_var(Scope::Request, name.clone(), format!("is {name}")), Action::unset_var(Scope::Session, name)]
}
fn hello(healthcheck: Option<bool>, engine: u64) -> Frame {
    Frame::HaproxyHello(HaproxyHello {
        supported_versions: vec![Version::V2_0],
        max_frame_size: 16384,
        capabilities: vec![haproxy_spop::Capability::Fragmentation],
        healthcheck,
        engine_id: Some(format!("engine-{engine:012}")),
    })
}

/// What the next services to be made do: 0 they work, 1 making them fails, 2 it never ends.
static MAKING: AtomicI64 = AtomicI64::new(0);

macro_rules! runtime {
    () => {
        runtime!(Builder::new())
    };
    ($builder:expr) => {
        $builder.fragmentation().make_service(
            service_fn(|_: usize| async {
                match MAKING.load(Relaxed) {
                    0 => {}
                    1 => return Err(Failed("no service".into())),
                    _ => std::future::pending().await,
                }
                let own = vec![1u8; 64]; // a service has a weight
                Ok::<_, Failed>(service_fn(move |m: Vec<Message>| {
                    let own = own.clone();
                    async move {
                        let name = m.first().map(|m| m.name.clone()).unwrap_or_default();
                        match name.split('-').next().unwrap() {
                            "panic" => panic!("told to"),
                            "fail" => Err(Failed(format!("no {name}"))),
                            "never" => std::future::pending().await,
                            "big" => Ok(vec![Action::set_var(Scope::Request, name, "x".repeat(40_000))]),
                            _ => Ok(answer(m)),
                        }
                        .inspect(|_| assert!(own[0] == 1))
                    }
                }))
            }),
            0usize,
        )
    };
}

/// Runs the rounds and notes what is allocated after each window of them.
struct Watch {
    rounds: u64,
    windows: u64,
    live: Vec<i64>,
}
impl Watch {
    fn new(case: &Value) -> Watch {
        Watch { rounds: case["rounds"].as_u64().unwrap(), windows: case["windows"].as_u64().unwrap(), live: Vec::with_capacity(64) }
    }
    fn note(&mut self) {
        let now = LIVE.load(Relaxed);
        self.live.push(now);
    }
    fn record(self, case: &Value) -> Value {
        let first = self.live[0];
        let mut r = case.clone();
        r["grown"] = json!(self.live.iter().map(|x| (x - first).clamp(-1 << 30, 1 << 30)).collect::<Vec<_>>());
        r
    }
}

fn table(case: &Value) -> Value {
    let (steps, mut w) = (script(case), Watch::new(case));
    let t = Reassembly::<u64>::default();
    for window in 0..w.windows {
        for i in 0..w.rounds {
            let round = window * w.rounds + i;
            for s in &steps {
                let _ = t.reassemble(s.frag, round * 100 + s.sid, s.fid, vec![round, 7]);
            }
        }
        w.note();
    }
    w.record(case)
}

fn dispatch(case: &Value) -> Value {
    let (steps, mut w) = (script(case), Watch::new(case));
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let how = case["how"].as_str().unwrap_or("");
    futures::executor::block_on(async {
        for window in 0..w.windows {
            for i in 0..w.rounds {
                let round = window * w.rounds + i;
                let mut acks = Vec::new();
                for s in &steps {
                    let ack = d.recieve_messages(notify(s, round)).unwrap_or(None);
                    if ack.is_some() && how == "early" {
                        // nobody wants to know
                        drop(p.next().await);
                    } else {
                        acks.extend(ack);
                    }
                }
                if how == "unheard" {
                    for ack in acks.drain(..) {
                        drop(ack);
                        if let Some((mut acker, msgs)) = p.next().await {
                            acker.set_var(Scope::Request, format!("n{round:012}"), msgs.count().await as u64);
                            let _ = match round % 3 {
                                0 => acker.abort(),
                                1 => acker.complete(),
                                _ => Ok(()),
                            };
                        }
                    }
                }
                for ack in acks {
                    if let Some((mut acker, msgs)) = p.next().await {
                        let n = msgs.count().await;
                        acker.set_var(Scope::Request, format!("n{round:012}"), n as u64);
                        acker.unset_var(Scope::Request, format!("n{round:012}"));
                        let _ = if round % 4 == 3 { acker.abort() } else { acker.complete() };
                    }
                    let _ = ack.await;
                }
            }
            w.note();
        }
    });
    w.record(case)
}

async fn conn(case: &Value) -> Value {
    let (steps, mut w) = (script(case), Watch::new(case));
    let (mut us, them) = tokio::io::duplex(1 << 16);
    let mut c = Connection::new(runtime!(), them, CancellationToken::new());
    let serve = async move {
        let _ = c.serve().await;
    };
    let rounds = async move {
        let f = Framer::new(16384);
        let _ = f.write_frame(&mut us, hello(None, 0)).await;
        let mut lost = f.read_frame(&mut us).await.is_err();
        for window in 0..w.windows {
            for i in 0..w.rounds {
                for s in &steps {
                    lost |= f.write_frame(&mut us, Frame::HaproxyNotify(notify(s, window * w.rounds + i))).await.is_err();
                }
                for _ in steps.iter().filter(|s| !s.frag) {
                    lost |= f.read_frame(&mut us).await.is_err();
                }
            }
            w.note();
        }
        let mut r = w.record(case);
        r["lost"] = json!(lost);
        r
    };
    tokio::select! { _ = serve => unreachable!("the client is there"), r = rounds => r }
}

async fn client(addr: std::net::SocketAddr, kind: &str, round: u64) -> bool {
    let f = Framer::new(16384);
    let Ok(mut s) = TcpStream::connect(addr).await else { return false };
    let mut ok = true;
    if kind != "mute" && kind != "bad" {
        ok &= f.write_frame(&mut s, hello((kind == "check").then_some(true), round)).await.is_ok();
        ok &= f.read_frame(&mut s).await.is_ok();
    }
    let n = |frag, name: &str| Frame::HaproxyNotify(HaproxyNotify { fragmented: frag, stream_id: round, frame_id: 1 + round, messages: vec![message(name, round)] });
    match kind {
        "ok" | "bye" | "half" => {
            ok &= f.write_frame(&mut s, n(false, "m")).await.is_ok();
            ok &= f.read_frame(&mut s).await.is_ok();
        }
        "fail" | "panic" => ok &= f.write_frame(&mut s, n(false, kind)).await.is_ok(),
        "frag" => ok &= f.write_frame(&mut s, n(true, "m")).await.is_ok(),
        "part" => ok &= s.write_all(&[0, 0, 0, 20, 3, 0]).await.is_ok(),
        "bad" => ok &= s.write_all(&[0, 0, 0, 2, 9, 9]).await.is_ok(),
        _ => {}
    }
    match kind {
        "bye" => ok &= f.write_frame(&mut s, Frame::haproxy_disconnect(haproxy_spop::Error::Normal, "bye")).await.is_ok(),
        "half" => ok &= s.shutdown().await.is_ok(),
        "reset" => {
            #[allow(deprecated)]
            let _ = s.set_linger(Some(Duration::ZERO));
        }
        _ => {}
    }
    if matches!(kind, "bye" | "half" | "bad" | "fail" | "panic" | "check") {
        // whatever it still has to say, until it closes
        while f.read_frame(&mut s).await.is_ok() {}
    }
    ok
}

async fn agent(case: &Value) -> Value {
    let mut w = Watch::new(case);
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    listener.set_nonblocking(true).unwrap();
    let addr = listener.local_addr().unwrap();
    let agent = Agent::new(runtime!(), listener).unwrap();
    let agent = Arc::new(agent);
    let server = tokio::spawn({
        let agent = agent.clone();
        async move { agent.serve().await.is_ok() }
    });
    let kinds: Vec<String> = case["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().into()).collect();
    let mut lost = false;
    let mut round = 0;
    for _ in 0..w.windows {
        for _ in 0..w.rounds {
            for k in &kinds {
                round += 1;
                lost |= !tokio::time::timeout(Duration::from_secs(8), client(addr, k, round)).await.unwrap_or(false);
            }
            if lost {
                break;
            }
        }
        sleep(Duration::from_millis(150)).await;
        w.note();
    }
    server.abort();
    let mut r = w.record(case);
    r["lost"] = json!(lost);
    r
}

/// One connection over a pipe in memory, that ends in the way of its kind.
macro_rules! end {
    ($rt:expr, $root:expr, $kind:expr, $round:expr) => {{
        let (kind, round): (&str, u64) = ($kind, $round);
        MAKING.store(["mkfail", "mkgone", "mkcancel"].iter().position(|k| *k == kind).map_or(0, |k| 1 + k as i64), Relaxed);
        let (mut us, them) = tokio::io::duplex(1 << 16);
        let tok = $root.child_token();
        let mut c = Connection::new($rt.clone(), them, tok.clone());
        let task = tokio::spawn(async move { c.serve().await.is_ok() });
        let f = Framer::new(1 << 20);
        let n = |frag, name: &str| Frame::HaproxyNotify(HaproxyNotify { fragmented: frag, stream_id: round, frame_id: 1 + round, messages: vec![message(name, round)] });
        let mut say = Vec::new();
        let mut hi = hello((kind == "check").then_some(true), round);
        if let (Frame::HaproxyHello(h), "nover") = (&mut hi, kind) {
            h.supported_versions = vec![Version::new(1, 9)];
        }
        if !matches!(kind, "mute" | "first" | "junk" | "cancelmute") {
            say.push(hi.clone());
        }
        match kind {
            "ok" | "bye" => say.extend([n(false, "m"), n(true, "m"), n(false, "m")]),
            "frag" | "cancelfrag" => say.extend([n(true, "m"), n(true, "m")]),
            "first" | "late" => say.push(n(false, "m")),
            "again" => say.push(hi),
            "ack" => say.push(Frame::ack(1, 1, answer(vec![message("m", round)]))),
            "fail" | "panic" | "never" | "big" => say.push(n(false, kind)),
            "failopen" => say.extend([Frame::HaproxyNotify(HaproxyNotify { fragmented: true, stream_id: 7, frame_id: 7, messages: vec![message("m", round)] }), n(false, "fail")]),
            "cancelcall" | "killed" | "nevergone" => say.push(n(false, "never")),
            _ => {}
        }
        if matches!(kind, "bye" | "mkfail") {
            say.push(Frame::haproxy_disconnect(haproxy_spop::Error::Normal, "bye"));
        }
        for frame in say {
            let _ = f.write_frame(&mut us, frame).await;
        }
        match kind {
            "junk" => drop(us.write_all(&[0, 0, 0, 3, 9, 9, 9]).await),
            "bad" => drop(us.write_all(&[0, 0, 0, 8, 3, 0, 0, 0, 1, 1, 1, 200]).await),
            "long" => drop(us.write_all(&[0, 9, 9, 9]).await),
            "part" => drop(us.write_all(&[0, 0, 0, 99, 3, 0, 0]).await),
            _ => {}
        }
        if kind != "late" {
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
        }
        match kind {
            "cancelmute" | "cancelidle" | "cancelfrag" | "cancelcall" | "mkcancel" => tok.cancel(),
            "killed" => task.abort(),
            "half" => drop(us.shutdown().await),
            _ => {}
        }
        let ends = matches!(kind, "check" | "first" | "again" | "ack" | "fail" | "panic" | "never" | "big" | "failopen" | "cancelcall" | "junk" | "bad" | "long" | "nover" | "bye" | "mkfail" | "half" | "killed");
        if ends {
            while f.read_frame(&mut us).await.is_ok() {}
        }
        drop(us);
        if matches!(kind, "mkgone" | "mkcancel" | "nevergone") {
            task.abort();
        }
        let _ = task.await;
    }};
}

async fn ends(case: &Value) -> Value {
    let mut w = Watch::new(case);
    let rt = runtime!(Builder::new().max_frame_size(20_000).max_process_time(Duration::from_millis(10)));
    let root = CancellationToken::new();
    let kinds: Vec<String> = case["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().into()).collect();
    let mut round = 0;
    for _ in 0..w.windows {
        for _ in 0..w.rounds {
            for k in &kinds {
                round += 1;
                end!(rt, root, k.as_str(), round);
            }
        }
        w.note();
    }
    MAKING.store(0, Relaxed);
    w.record(case)
}

pub fn run(case: &Value) -> Value {
    let rt = || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match case["what"].as_str().unwrap() {
        "table" => table(case),
        "dispatch" => dispatch(case),
        "conn" => rt().block_on(conn(case)),
        "ends" => tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(ends(case)),
        _ => rt().block_on(agent(case)),
    }
}
