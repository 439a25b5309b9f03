//! A whole agent on loopback sockets, in real time, driven step by step; see spec/Agent.tla.
//!   {"op":"agent","cfg":{..},"serves":n,"clients":n,"patience":ms,"steps":[..]}
//! Steps: connect c, send c b d, recv c, quiet c ms, half c, drop c, reset c, open k, call k, shutdown,
//! returned i, starve, feed, settle, sleep ms, advance ms.
//! With "virtual": true the agent has a clock of its own that stands still but for advance.
use std::{
    collections::HashMap,
    future::Future,
    net::{Ipv4Addr, SocketAddr},
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll},
    time::{Duration, Instant},
};

use haproxy_spoa::Agent;
use haproxy_spop::{Action, Error, Frame, Framer, Message, Scope, Typed};
use serde_json::{json, Value};
use tokio::{
    io::AsyncWriteExt,
    net::{TcpSocket, TcpStream},
    sync::{mpsc, oneshot, watch},
    task::JoinHandle,
    time::{sleep, timeout},
};
use tokio_util::sync::CancellationToken;
use tower::Service;

use crate::{conn::Failed, jsn};

#[derive(Clone)]
struct World {
    log: Arc<Mutex<Vec<Value>>>,
    open: Arc<watch::Sender<HashMap<String, bool>>>,
    called: Arc<watch::Sender<HashMap<String, bool>>>,
}
impl World {
    fn put(&self, ev: Value) {
        self.log.lock().unwrap().push(ev);
    }
}

struct Maker(World);
impl Service<usize> for Maker {
    type Response = Svc;
    type Error = Failed;
    type Future = std::future::Ready<Result<Svc, Failed>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Failed>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: usize) -> Self::Future {
        std::future::ready(Ok(Svc(self.0.clone())))
    }
}

struct Svc(World);

/// Notes when a call is dropped before it has ended.
struct Guard(World, String, bool);
impl Drop for Guard {
    fn drop(&mut self) {
        if !self.2 {
            self.0.put(json!({"e": "drop", "k": self.1}));
        }
    }
}

/// The first message is named kind.name: ok.a1, gate.a1, fail.a1, never.a1, panic.a1
impl Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = Failed;
    type Future = Pin<Box<dyn Future<Output = Result<Vec<Action>, Failed>> + Send>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Failed>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, msgs: Vec<Message>) -> Self::Future {
        let w = self.0.clone();
        let full = msgs.iter().map(|m| m.name.as_str()).collect::<Vec<_>>().join("+");
        let (kind, name) = full.split_once('.').unwrap_or(("ok", &full));
        let (kind, name) = (kind.to_string(), name.to_string());
        w.put(json!({"e": "call", "k": name}));
        w.called.send_modify(|m| {
            m.insert(name.clone(), true);
        });
        let guard = Guard(w.clone(), name.clone(), false);
        Box::pin(async move {
            let mut guard = guard;
            match kind.as_str() {
                "gate" | "gatefail" => {
                    let mut rx = w.open.subscribe();
                    let _ = rx.wait_for(|m| m.contains_key(&name)).await;
                }
                "never" => std::future::pending().await,
                "panic" => {
                    guard.2 = true;
                    w.put(json!({"e": "ret", "k": name, "r": "panic"}));
                    panic!("told to")
                }
                _ => {}
            }
            guard.2 = true;
            if kind == "fail" || kind == "gatefail" {
                w.put(json!({"e": "ret", "k": name, "r": "err"}));
                return Err(Failed(name));
            }
            w.put(json!({"e": "ret", "k": name, "r": "ok"}));
            let mut actions = vec![Action::set_var(Scope::Request, "k", name)];
            if kind == "fat" {
                actions.push(Action::set_var(Scope::Request, "fat", "x".repeat(FAT)));
            }
            Ok(actions)
        })
    }
}

/// More than any socket buffers on the way.
const FAT: usize = 24 << 20;

/// Leave out what is as it should be, and far too long to be written down.
fn slim(f: &mut Frame) {
    if let Frame::AgentAck(ack) = f {
        let whole = |a: &Action| match a {
            Action::SetVar { scope: Scope::Request, name, value: Typed::String(s) } => name == "fat" && s.len() == FAT && s.bytes().all(|b| b == b'x'),
            _ => false,
        };
        if ack.actions.len() == 2 && whole(&ack.actions[1]) {
            ack.actions.truncate(1);
        }
        for a in &mut ack.actions {
            if let Action::SetVar { value: Typed::String(s), .. } = a {
                s.truncate(1000);
            }
        }
    }
}

fn nofile(n: Option<u64>) {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = n.unwrap_or(l.rlim_max.min(4500));
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
}

/// Milliseconds spent waiting in vain in this process.
static WASTED: AtomicU64 = AtomicU64::new(0);
fn waste(d: Duration) -> usize {
    WASTED.fetch_add(d.as_millis() as u64, Ordering::Relaxed);
    1
}

/// The clock of an agent that runs in a thread of its own.
struct Clock(mpsc::UnboundedSender<(Duration, oneshot::Sender<()>)>);
impl Clock {
    async fn run<F>(start: F) -> (Clock, CancellationToken)
    where
        F: FnOnce() -> (CancellationToken, Vec<JoinHandle<()>>) + Send + 'static,
    {
        let (tx, mut rx) = mpsc::unbounded_channel::<(Duration, oneshot::Sender<()>)>();
        let (started, tok) = oneshot::channel();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
            rt.block_on(async move {
                // as long as a blocking task runs, time does not pass by itself
                let (stop, stopped) = std::sync::mpsc::channel::<()>();
                tokio::task::spawn_blocking(move || stopped.recv());
                let (tok, _tasks) = start();
                let _ = started.send(tok);
                while let Some((d, done)) = rx.recv().await {
                    // step by step, so that what is done again and again is done as often
                    let step = (d / 50).max(Duration::from_millis(1));
                    let mut left = d;
                    while !left.is_zero() {
                        let t = step.min(left);
                        tokio::time::advance(t).await;
                        left -= t;
                        for _ in 0..20 {
                            tokio::task::yield_now().await;
                        }
                    }
                    let _ = done.send(());
                }
                drop(stop);
            });
            rt.shutdown_background();
        });
        (Clock(tx), tok.await.unwrap())
    }

    async fn advance(&self, d: Duration) {
        let (tx, rx) = oneshot::channel();
        let _ = self.0.send((d, tx));
        let _ = rx.await;
    }
}

/// What the steps of a case work on.
struct Drive {
    w: World,
    addr: SocketAddr,
    patience: Duration,
    tok: CancellationToken,
    done: Arc<watch::Sender<Vec<bool>>>,
    clock: Option<Clock>,
    sockets: Vec<Option<TcpSocket>>,
    streams: Vec<Option<TcpStream>>,
    framer: Framer,
    vain: usize,
}

impl Drive {
    /// Waiting in vain again and again tells nothing more: the run is cut there.
    fn futile(&self) -> bool {
        self.vain >= 3 || WASTED.load(Ordering::Relaxed) > 100_000
    }

    async fn step(&mut self, st: &Value) {
        let c = st["c"].as_u64().unwrap_or(0) as usize;
        let k = st["k"].as_str().unwrap_or("").to_string();
        match st["s"].as_str().unwrap() {
            "connect" => match timeout(self.patience, self.sockets[c].take().unwrap().connect(self.addr)).await {
                Ok(Ok(s)) => {
                    self.w.put(json!({"e": "connect", "c": c}));
                    self.streams[c] = Some(s);
                }
                _ => self.w.put(json!({"e": "noconnect", "c": c})),
            },
            "send" => {
                if let Some(s) = self.streams[c].as_mut() {
                    self.w.put(json!({"e": "send", "c": c, "d": st["d"]}));
                    let _ = s.write_all(&jsn::un_bytes(&st["b"])).await;
                }
            }
            "recv" | "quiet" => {
                if let Some(s) = self.streams[c].as_mut() {
                    if st["full"] == true {
                        self.w.put(json!({"e": "reading", "c": c}));
                    }
                    let quiet = st["s"] == "quiet";
                    let t = if quiet { Duration::from_millis(st["ms"].as_u64().unwrap()) } else { self.patience };
                    // looked at first, so that no frame is left half read
                    let mut one = [0u8; 1];
                    match timeout(t, s.peek(&mut one)).await {
                        Err(_) if quiet => {}
                        Err(_) => {
                            self.vain += waste(self.patience);
                            self.w.put(json!({"e": "nothing", "c": c}))
                        }
                        Ok(Ok(0)) | Ok(Err(_)) => self.w.put(json!({"e": "eof", "c": c})),
                        Ok(Ok(_)) => match timeout(self.patience, self.framer.read_frame(s)).await {
                            Ok(Ok(mut f)) => {
                                slim(&mut f);
                                self.w.put(json!({"e": "frame", "c": c, "f": jsn::frame(&f)}))
                            }
                            Ok(Err(Error::Io)) => self.w.put(json!({"e": "eof", "c": c})),
                            Ok(Err(e)) => self.w.put(json!({"e": "bad", "c": c, "err": format!("{e:?}")})),
                            Err(_) => {
                                self.vain += waste(self.patience);
                                self.w.put(json!({"e": "nothing", "c": c}))
                            }
                        },
                    }
                }
            }
            "half" => {
                if let Some(s) = self.streams[c].as_mut() {
                    self.w.put(json!({"e": "send", "c": c, "d": {"t": "half"}}));
                    let _ = s.shutdown().await;
                }
            }
            "drop" | "reset" => {
                self.w.put(json!({"e": "gone", "c": c}));
                if let Some(s) = self.streams[c].take() {
                    if st["s"] == "reset" {
                        #[allow(deprecated)]
                        let _ = s.set_linger(Some(Duration::ZERO));
                    }
                }
            }
            "open" => {
                self.w.put(json!({"e": "open", "k": k}));
                self.w.open.send_modify(|m| {
                    m.insert(k.clone(), true);
                });
            }
            "call" => {
                let mut rx = self.w.called.subscribe();
                if timeout(self.patience, rx.wait_for(|m| m.contains_key(&k))).await.is_err() {
                    self.vain += waste(self.patience);
                    self.w.put(json!({"e": "nocall", "k": k}));
                }
            }
            "shutdown" => {
                self.w.put(json!({"e": "shutdown"}));
                self.tok.cancel();
            }
            "returned" => {
                let i = st["i"].as_u64().unwrap_or(0) as usize;
                let mut rx = self.done.subscribe();
                let t = st["ms"].as_u64().map_or(self.patience, Duration::from_millis);
                if timeout(t, rx.wait_for(|d| d[i])).await.is_err() && st["ms"].is_null() {
                    self.vain += waste(self.patience);
                    self.w.put(json!({"e": "notreturned", "i": i}));
                }
            }
            "starve" => {
                self.w.put(json!({"e": "starve"}));
                nofile(Some(1));
            }
            "feed" => {
                nofile(None);
                self.w.put(json!({"e": "feed"}));
            }
            "settle" => {
                sleep(Duration::from_millis(st["ms"].as_u64().unwrap_or(400))).await;
                self.w.put(json!({"e": "settle"}));
            }
            "advance" => self.clock.as_ref().unwrap().advance(Duration::from_millis(st["ms"].as_u64().unwrap())).await,
            _ => sleep(Duration::from_millis(st["ms"].as_u64().unwrap())).await,
        }
    }

    /// Clients that come one after the other and all do one of a few things, as client c. Of lives that
    /// look the same only the first is kept in the record, as a client of its own (c, c + 1, ..).
    async fn lives(&mut self, st: &Value) {
        let (c, most) = (jsn::usz(&st["c"]), jsn::usz(&st["most"]));
        let kinds = st["kinds"].as_array().unwrap();
        let (mut seen, began, net) = (Vec::<Vec<Value>>::new(), Instant::now(), std::process::id() % 200 + 1);
        for i in 0..jsn::usz(&st["n"]) {
            if self.futile() || seen.len() >= most || began.elapsed() > Duration::from_secs(100) {
                break;
            }
            let from = self.w.log.lock().unwrap().len();
            let sock = TcpSocket::new_v4().unwrap();
            // every few thousand from another address, there are only so many ports
            let ip = Ipv4Addr::new(127, net as u8, (i / 4000 % 250) as u8, 1);
            sock.bind(SocketAddr::from((ip, 0))).unwrap();
            self.sockets[c] = Some(sock);
            for step in kinds[i % kinds.len()].as_array().unwrap() {
                self.step(step).await;
            }
            self.streams[c] = None;
            let mut log = self.w.log.lock().unwrap();
            let life = log.split_off(from);
            if !seen.contains(&life) {
                log.extend(life.iter().cloned().map(|mut e| {
                    if e["c"].as_u64() == Some(c as u64) {
                        e["c"] = json!(c + seen.len());
                    }
                    e
                }));
                seen.push(life);
            }
        }
    }
}

async fn drive(case: &Value) -> Value {
    let patience = Duration::from_millis(case["patience"].as_u64().unwrap_or(8000));
    let w = World { log: Default::default(), open: Arc::new(watch::channel(HashMap::new()).0), called: Arc::new(watch::channel(HashMap::new()).0) };
    let rt = crate::conn::runtime(&case["cfg"], Maker(w.clone()));
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    listener.set_nonblocking(true).unwrap();
    let addr = listener.local_addr().unwrap();
    let serves = case["serves"].as_u64().unwrap_or(1) as usize;
    let (done, _) = watch::channel(vec![false; serves]);
    let done = Arc::new(done);
    let start = {
        let (w, done) = (w.clone(), done.clone());
        move || {
            let agent = Arc::new(Agent::new(rt, listener).unwrap());
            let tok = agent.shutdown();
            let mut tasks = Vec::new();
            for i in 0..serves {
                let (agent, w, done) = (agent.clone(), w.clone(), done.clone());
                tasks.push(tokio::spawn(async move {
                    let r = agent.serve().await;
                    w.put(json!({"e": "returned", "i": i, "r": if r.is_ok() { "ok" } else { "err" }}));
                    done.send_modify(|d| d[i] = true);
                }));
            }
            (tok, tasks)
        }
    };
    let (mut tasks, mut clock) = (Vec::new(), None);
    let tok = if case["virtual"] == true {
        let (tx, tok) = Clock::run(start).await;
        clock = Some(tx);
        tok
    } else {
        let (tok, t) = start();
        tasks = t;
        tok
    };
    let n = jsn::usz(&case["clients"]);
    let mut d = Drive {
        w: w.clone(),
        addr,
        patience,
        tok,
        done,
        clock,
        sockets: (0..n).map(|_| Some(TcpSocket::new_v4().unwrap())).collect(),
        streams: (0..n).map(|_| None).collect(),
        framer: Framer::new(1 << 27),
        vain: 0,
    };
    for st in case["steps"].as_array().unwrap() {
        if d.futile() {
            break;
        }
        if st["s"] == "lives" {
            d.lives(st).await;
        } else {
            d.step(st).await;
        }
    }
    let ev = w.log.lock().unwrap().clone();
    for t in tasks {
        t.abort();
    }
    json!({"op": "agent", "ev": ev})
}

pub fn run(case: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let r = rt.block_on(drive(case));
    nofile(None);
    rt.shutdown_background();
    r
}
