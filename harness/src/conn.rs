//! Whole connections of the real agent over scripted transports, with scripted services.
use std::{
    cell::Cell,
    collections::HashMap,
    fmt,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
    time::Duration,
};

use haproxy_spoa::{runtime::Builder, Connection, Runtime};
use haproxy_spop::{Action, Message};
use serde_json::{json, Value};
use tokio::time::{sleep, Sleep};
use tokio_util::sync::CancellationToken;
use tower::Service;

use crate::{
    io::{Log, ScriptIo, Shared},
    jsn,
};

thread_local! { static CURRENT: Cell<usize> = const { Cell::new(usize::MAX) }; }

/// Polls a future with the connection it belongs to noted down.
pub struct Tagged<F> {
    pub id: usize,
    pub fut: Pin<Box<F>>,
}
impl<F: Future> Future for Tagged<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let old = CURRENT.replace(self.id);
        let r = self.fut.as_mut().poll(cx);
        CURRENT.set(old);
        r
    }
}

#[derive(Debug)]
pub struct Failed(pub String);
impl fmt::Display for Failed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Failed {}

/// One connection's script and what is shared with it.
pub struct Plan {
    pub script: Value,
    pub shared: Arc<Mutex<Shared>>,
    pub tok: CancellationToken,
}
#[derive(Clone)]
pub struct World {
    pub log: Log,
    pub plans: Arc<HashMap<usize, Plan>>,
}

fn cancel(w: &World, id: usize, step: &Value, when: &str) {
    if step["cancel"] == when {
        w.log.put(id, json!({"e": "cancel"}));
        w.plans[&id].tok.cancel();
    }
}

/// A scripted wait: {"pend": n} polls, {"delay": ms}, "never".
#[derive(Default)]
struct Wait {
    init: bool,
    pend: usize,
    sleep: Option<Pin<Box<Sleep>>>,
    never: bool,
}
impl Wait {
    fn poll(&mut self, step: &Value, cx: &mut Context<'_>) -> Poll<()> {
        if !self.init {
            self.init = true;
            self.pend = step["pend"].as_u64().unwrap_or(0) as usize;
            self.sleep = step["delay"].as_u64().map(|ms| Box::pin(sleep(Duration::from_millis(ms))));
            self.never = step["r"] == "never";
        }
        if self.never {
            return Poll::Pending;
        }
        if self.pend > 0 {
            self.pend -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.sleep.as_mut() {
            Some(s) => s.as_mut().poll(cx),
            None => Poll::Ready(()),
        }
    }
}

pub struct Maker {
    pub world: World,
    waits: HashMap<usize, Wait>,
}
impl Maker {
    pub fn new(world: World) -> Maker {
        Maker { world, waits: HashMap::new() }
    }
}

fn text(v: &Value) -> String {
    if v.is_array() { jsn::un_str(v) } else { "boom".into() }
}

impl Service<usize> for Maker {
    type Response = Svc;
    type Error = Failed;
    type Future = MakeFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Failed>> {
        let id = CURRENT.get();
        let step = self.world.plans[&id].script["make"]["ready"].clone();
        let w = self.waits.entry(id).or_default();
        if w.poll(&step, cx).is_pending() {
            self.world.log.put(id, json!({"e": "mkready", "r": "pend"}));
            return Poll::Pending;
        }
        self.waits.remove(&id);
        if step["r"] == "err" {
            self.world.log.put(id, json!({"e": "mkready", "r": "err"}));
            Poll::Ready(Err(Failed(text(&step["m"]))))
        } else {
            self.world.log.put(id, json!({"e": "mkready", "r": "ok"}));
            Poll::Ready(Ok(()))
        }
    }
    fn call(&mut self, _: usize) -> MakeFut {
        let id = CURRENT.get();
        self.world.log.put(id, json!({"e": "mk"}));
        let step = self.world.plans[&id].script["make"].clone();
        MakeFut { world: self.world.clone(), id, step, wait: Wait::default(), done: false }
    }
}

pub struct MakeFut {
    world: World,
    id: usize,
    step: Value,
    wait: Wait,
    done: bool,
}
impl Future for MakeFut {
    type Output = Result<Svc, Failed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = &mut *self;
        if me.wait.poll(&me.step, cx).is_pending() {
            return Poll::Pending;
        }
        me.done = true;
        cancel(&me.world, me.id, &me.step, "end");
        if me.step["r"] == "err" {
            me.world.log.put(me.id, json!({"e": "mkend", "r": "err"}));
            Poll::Ready(Err(Failed(text(&me.step["m"]))))
        } else {
            me.world.log.put(me.id, json!({"e": "mkend", "r": "ok"}));
            Poll::Ready(Ok(Svc { world: me.world.clone(), id: me.id, calls: 0, wait: Wait::default() }))
        }
    }
}
impl Drop for MakeFut {
    fn drop(&mut self) {
        if !self.done {
            self.world.log.put(self.id, json!({"e": "mkend", "r": "drop"}));
        }
    }
}

pub struct Svc {
    world: World,
    id: usize,
    calls: usize,
    wait: Wait,
}
impl Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = Failed;
    type Future = CallFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Failed>> {
        let script = &self.world.plans[&self.id].script;
        let step = script["ready"].get(self.calls).or_else(|| script["at_ready"].get(self.calls.to_string())).cloned().unwrap_or(Value::Null);
        if self.wait.poll(&step, cx).is_pending() {
            self.world.log.put(self.id, json!({"e": "ready", "r": "pend"}));
            return Poll::Pending;
        }
        self.wait = Wait::default();
        if step["r"] == "err" {
            let m = text(&step["m"]);
            self.world.log.put(self.id, json!({"e": "ready", "r": "err", "m": jsn::bytes(m.as_bytes())}));
            Poll::Ready(Err(Failed(m)))
        } else {
            self.world.log.put(self.id, json!({"e": "ready", "r": "ok"}));
            Poll::Ready(Ok(()))
        }
    }
    fn call(&mut self, msgs: Vec<Message>) -> CallFut {
        let plan = &self.world.plans[&self.id];
        self.world.log.put(self.id, json!({"e": "call", "msgs": jsn::messages(&msgs)}));
        let step = plan.script["calls"].get(self.calls).or_else(|| plan.script["at_calls"].get(self.calls.to_string())).unwrap_or(&plan.script["every"]);
        let step = if step.is_null() { json!({"acts": []}) } else { step.clone() };
        self.calls += 1;
        {
            let mut sh = plan.shared.lock().unwrap();
            sh.calls += 1;
            sh.wake();
        }
        cancel(&self.world, self.id, &step, "start");
        CallFut { world: self.world.clone(), id: self.id, step, wait: Wait::default(), done: false }
    }
}

pub struct CallFut {
    world: World,
    id: usize,
    step: Value,
    wait: Wait,
    done: bool,
}
impl Future for CallFut {
    type Output = Result<Vec<Action>, Failed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = &mut *self;
        if me.wait.poll(&me.step, cx).is_pending() {
            return Poll::Pending;
        }
        me.done = true;
        cancel(&me.world, me.id, &me.step, "end");
        if me.step["r"] == "err" {
            let m = text(&me.step["m"]);
            me.world.log.put(me.id, json!({"e": "ret", "r": "err", "m": jsn::bytes(m.as_bytes())}));
            Poll::Ready(Err(Failed(m)))
        } else {
            let acts = jsn::un_actions(&me.step["acts"]);
            me.world.log.put(me.id, json!({"e": "ret", "r": "ok", "acts": jsn::actions(&acts)}));
            Poll::Ready(Ok(acts))
        }
    }
}
impl Drop for CallFut {
    fn drop(&mut self) {
        if !self.done {
            self.world.log.put(self.id, json!({"e": "drop"}));
        }
    }
}

/// The runtime of a configuration, through one of the builder's equivalent ways.
pub fn runtime<M>(cfg: &Value, maker: M) -> Arc<Runtime<M, usize>>
where
    M: tower::MakeService<usize, Vec<Message>, Response = Vec<Action>>,
{
    let mut b = Builder::new();
    for v in cfg["versions"].as_array().unwrap() {
        b = b.version(jsn::un_version(v));
    }
    let caps = cfg["caps"].as_array().unwrap();
    match cfg["via"].as_u64().unwrap_or(0) {
        0 => {
            for c in caps {
                b = match c.as_str().unwrap() {
                    "fragmentation" => b.fragmentation(),
                    "pipelining" => b.pipelining(),
                    _ => b.asynchronous(),
                };
            }
        }
        1 => b = b.capabilities(caps.iter().map(jsn::un_cap)),
        _ => {
            for c in caps {
                b = b.capability(jsn::un_cap(c));
            }
        }
    }
    match cfg["mfs"].as_array().unwrap().len() {
        0 => {}
        1 => b = b.max_frame_size(jsn::usz(&cfg["mfs"][0])),
        _ => b = b.max_frame_size(jsn::un_limbs(&cfg["mfs"]) as usize),
    }
    if let Some(ms) = cfg["maxt"].get(0) {
        let ms = ms.as_u64().unwrap();
        b = b.max_process_time(if let Some(ms) = cfg["maxt_ms"].as_u64() { Duration::from_millis(ms) } else if ms >= 1 << 30 { Duration::MAX } else { Duration::from_millis(ms) });
    }
    b.make_service(maker, 7)
}

/// A block of events that is repeated as it is: mark, the block, again n times.
fn fold(evs: &[Value]) -> Vec<Value> {
    let mut out = Vec::new();
    let mut p = 0;
    while p < evs.len() {
        let mut best = None;
        for len in 1..=64.min((evs.len() - p) / 5) {
            let mut n = 1;
            while p + (n + 1) * len <= evs.len() && evs[p..p + len] == evs[p + n * len..p + (n + 1) * len] {
                n += 1;
            }
            if n >= 5 {
                best = Some((len, n));
                break;
            }
        }
        match best {
            Some((len, n)) => {
                let t = &evs[p]["t"];
                // once or twice as it is: what led to it may still show
                out.extend_from_slice(&evs[p..p + 2 * len]);
                out.push(json!({"e": "mark", "t": t}));
                out.extend_from_slice(&evs[p..p + len]);
                out.push(json!({"e": "again", "n": n - 3, "t": t}));
                p += n * len;
            }
            None => {
                out.push(evs[p].clone());
                p += 1;
            }
        }
    }
    out
}

/// {"op":"conn","cfg":{..},"conns":[{"start":ms,"reads":[..],"calls":[..],"ready":[..],"make":{..},"cancel_at":ms}]}
pub async fn run(case: &Value) -> Value {
    let log = Log::new();
    let mut ios = Vec::new();
    let mut plans = HashMap::new();
    let conns = case["conns"].as_array().unwrap();
    for (id, c) in conns.iter().enumerate() {
        let tok = CancellationToken::new();
        let io = ScriptIo::new(id, log.clone(), c, Some(tok.clone()));
        plans.insert(id, Plan { script: c.clone(), shared: io.shared.clone(), tok: tok.clone() });
        ios.push((io, tok));
    }
    // what other connections of the same agent do before, again and again, is not recorded
    let warm = case.get("warm").cloned().unwrap_or(json!({"n": 0, "conn": {"reads": []}}));
    plans.insert(conns.len(), Plan { script: warm["conn"].clone(), shared: Default::default(), tok: CancellationToken::new() });
    let world = World { log: log.clone(), plans: Arc::new(plans) };
    let rt = runtime(&case["cfg"], Maker::new(world.clone()));
    log.quiet.store(true, std::sync::atomic::Ordering::Relaxed);
    for _ in 0..jsn::usz(&warm["n"]) {
        let io = ScriptIo::new(conns.len(), log.clone(), &warm["conn"], None);
        let mut conn = Connection::new(rt.clone(), io, CancellationToken::new());
        let fut = Box::pin(async move {
            let _ = tokio::time::timeout(Duration::from_secs(1_000_000), conn.serve()).await;
        });
        Tagged { id: conns.len(), fut }.await;
    }
    log.quiet.store(false, std::sync::atomic::Ordering::Relaxed);
    log.restart();
    let mut tasks = Vec::new();
    for (id, (io, tok)) in ios.into_iter().enumerate() {
        let (rt, log, world) = (rt.clone(), log.clone(), world.clone());
        let start = conns[id]["start"].as_u64().unwrap_or(0);
        if let Some(ms) = conns[id]["cancel_at"].as_u64() {
            let (log, tok) = (log.clone(), tok.clone());
            tokio::spawn(async move {
                sleep(Duration::from_millis(ms)).await;
                log.put(id, json!({"e": "cancel"}));
                tok.cancel();
            });
        }
        let fut = async move {
            if start > 0 {
                sleep(Duration::from_millis(start)).await;
            }
            log.put(id, json!({"e": "start"}));
            let mut conn = Connection::new(rt, io, tok);
            let mut serve = Box::pin(conn.serve());
            let r = tokio::time::timeout(Duration::from_secs(1_000_000), &mut serve).await;
            match r {
                Ok(r) => {
                    log.put(id, json!({"e": "end", "r": if r.is_ok() { "ok" } else { "err" }}));
                    // an ended connection is not brought back by serving it again
                    drop(serve);
                    let _ = tokio::time::timeout(Duration::from_secs(100), conn.serve()).await;
                }
                Err(_) => log.put(id, json!({"e": "stuck"})),
            }
            drop(world);
        };
        tasks.push(Tagged { id, fut: Box::pin(fut) });
    }
    let panicked = {
        use futures::FutureExt;
        let all = futures::future::join_all(tasks);
        std::panic::AssertUnwindSafe(all).catch_unwind().await.is_err()
    };
    let evs = log.events.lock().unwrap().clone();
    let mut per: Vec<Vec<Value>> = vec![Vec::new(); conns.len()];
    for mut e in evs {
        let c = jsn::usz(&e["c"]);
        e.as_object_mut().unwrap().remove("c");
        match per[c].last().map(|last| last["e"].as_str().unwrap_or("")) {
            Some("stuck") => continue, // whatever the harness drops itself
            Some("end") if !matches!(e["e"].as_str(), Some("wr" | "call" | "mk")) => continue,
            _ => {}
        }
        per[c].push(e);
    }
    for (p, c) in per.iter_mut().zip(conns) {
        if c["fold"] == true {
            *p = fold(p);
        }
    }
    if panicked {
        for p in &mut per {
            p.push(json!({"e": "panic", "t": 0}));
        }
    }
    json!({"op": "conn", "cfg": case["cfg"], "conns": per})
}
