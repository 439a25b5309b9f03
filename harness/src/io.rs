//! A transport driven by a script, logging every byte moved in either direction.
//!
//! Read script items (in order):
//!   {"d": [bytes]}      deliver these bytes in one read (split if the buffer is smaller)
//!   {"rep": n, "d": [..]} the same n times
//!   {"pend": n}         return Pending n times, waking at once
//!   {"at": ms}          deliver nothing before that time of the case
//!   {"sleep": ms}       deliver nothing for ms milliseconds
//!   {"frames": n}       wait until n whole frames have been written
//!   {"calls": n}        wait until n service calls have started on this connection
//!   {"cancel": 1}       cancel the connection's token
//!   {"eof": 1} / {"err": 1}   end of stream / I/O error from here on
//! After the last item the transport stays silent.
//! Write behaviour: "wmax": most bytes accepted per write, "wpend": pending every other write,
//! "werr": fail once that many bytes have been accepted,
//! "ferr": fail to flush once so many whole frames have been accepted,
//! "wslow": [{"f": frames, "off": bytes | "flush": true, "ms": n | "never": true, "cancel": bool}]: take nothing
//! (or flush nothing) for a while once so many frames, and so many bytes of the next one, have been accepted.
use serde_json::{json, Value};
use std::{
    collections::VecDeque,
    future::Future,
    io,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Waker},
    time::Duration,
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio_util::sync::CancellationToken;

use crate::jsn;

#[derive(Clone)]
pub struct Log {
    pub events: Arc<Mutex<Vec<Value>>>,
    start: Arc<Mutex<tokio::time::Instant>>,
    pub quiet: Arc<AtomicBool>,
}
impl Log {
    pub fn new() -> Log {
        Log { events: Default::default(), start: Arc::new(Mutex::new(tokio::time::Instant::now())), quiet: Default::default() }
    }
    pub fn start(&self) -> tokio::time::Instant {
        *self.start.lock().unwrap()
    }
    /// What happens from now on is all that there is.
    pub fn restart(&self) {
        *self.start.lock().unwrap() = tokio::time::Instant::now();
    }
    pub fn put(&self, conn: usize, mut ev: Value) {
        if self.quiet.load(Ordering::Relaxed) {
            return;
        }
        ev["c"] = json!(conn);
        ev["t"] = json!(self.start().elapsed().as_millis() as u64);
        self.events.lock().unwrap().push(ev);
    }
}

#[derive(Default)]
pub struct Shared {
    pub written: Vec<u8>,
    pub calls: usize,
    pub waker: Option<Waker>,
}
impl Shared {
    pub fn frames(&self) -> usize {
        self.whole().0
    }
    /// The whole frames written, and how long they are.
    pub fn whole(&self) -> (usize, usize) {
        let (mut n, mut p) = (0, 0);
        while p + 4 <= self.written.len() {
            let len = u32::from_be_bytes(self.written[p..p + 4].try_into().unwrap()) as usize;
            if p + 4 + len > self.written.len() {
                break;
            }
            p += 4 + len;
            n += 1;
        }
        (n, p)
    }
    pub fn wake(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}

pub struct ScriptIo {
    pub id: usize,
    pub log: Log,
    pub reads: VecDeque<Value>,
    pub sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    pub pend: usize,
    pub waiting: bool,
    pub shared: Arc<Mutex<Shared>>,
    pub tok: Option<CancellationToken>,
    pub wmax: usize,
    pub wpend: bool,
    pub wflip: bool,
    pub werr: Option<usize>,
    pub ferr: Option<usize>,
    pub wslow: VecDeque<Value>,
    pub blocked: Option<Option<Pin<Box<tokio::time::Sleep>>>>,
    pub dirty: bool,
}

impl ScriptIo {
    pub fn new(id: usize, log: Log, script: &Value, tok: Option<CancellationToken>) -> ScriptIo {
        ScriptIo {
            id,
            log,
            reads: script["reads"].as_array().unwrap().iter().cloned().collect(),
            sleep: None,
            pend: 0,
            waiting: false,
            shared: Default::default(),
            tok,
            wmax: script["wmax"].as_u64().map_or(usize::MAX, |n| n as usize),
            wpend: script["wpend"].as_bool().unwrap_or(false),
            wflip: false,
            werr: script["werr"].as_u64().map(|n| n as usize),
            ferr: script["ferr"].as_u64().map(|n| n as usize),
            wslow: script["wslow"].as_array().map_or_else(Default::default, |q| q.iter().cloned().collect()),
            blocked: None,
            dirty: false,
        }
    }
    fn put(&self, ev: Value) {
        self.log.put(self.id, ev)
    }
}

impl AsyncRead for ScriptIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        loop {
            if let Some(sleep) = me.sleep.as_mut() {
                if sleep.as_mut().poll(cx).is_pending() {
                    return me.wait();
                }
                me.sleep = None;
            }
            if me.pend > 0 {
                me.pend -= 1;
                cx.waker().wake_by_ref();
                return me.wait();
            }
            let Some(item) = me.reads.front().cloned() else {
                return me.wait();
            };
            if let Some(n) = item.get("rep") {
                let n = jsn::usz(n);
                if n <= 1 {
                    me.reads.pop_front();
                } else if let Some(f) = me.reads.front_mut() {
                    f["rep"] = json!(n - 1);
                }
                me.reads.push_front(json!({"d": item["d"]}));
            } else if let Some(d) = item.get("d") {
                let d = jsn::un_bytes(d);
                let n = d.len().min(buf.remaining());
                if n == 0 && !d.is_empty() {
                    return Poll::Ready(Ok(()));
                }
                me.reads.pop_front();
                if n < d.len() {
                    me.reads.push_front(json!({"d": jsn::bytes(&d[n..])}));
                }
                if n == 0 {
                    continue; // an empty chunk is not end-of-stream
                }
                buf.put_slice(&d[..n]);
                me.waiting = false;
                me.put(json!({"e": "rd", "b": jsn::bytes(&d[..n])}));
                return Poll::Ready(Ok(()));
            } else if let Some(n) = item.get("frames") {
                let mut sh = me.shared.lock().unwrap();
                if sh.frames() < jsn::usz(n) {
                    sh.waker = Some(cx.waker().clone());
                    drop(sh);
                    return me.wait();
                }
                drop(sh);
                me.reads.pop_front();
            } else if let Some(n) = item.get("calls") {
                let mut sh = me.shared.lock().unwrap();
                if sh.calls < jsn::usz(n) {
                    sh.waker = Some(cx.waker().clone());
                    drop(sh);
                    return me.wait();
                }
                drop(sh);
                me.reads.pop_front();
            } else if item.get("cancel").is_some() {
                me.reads.pop_front();
                me.put(json!({"e": "cancel"}));
                if let Some(tok) = &me.tok {
                    tok.cancel();
                }
            } else if let Some(n) = item.get("pend") {
                me.reads.pop_front();
                me.pend = jsn::usz(n);
            } else if let Some(ms) = item.get("sleep") {
                me.reads.pop_front();
                me.sleep = Some(Box::pin(tokio::time::sleep(Duration::from_millis(ms.as_u64().unwrap()))));
            } else if let Some(ms) = item.get("at") {
                me.reads.pop_front();
                me.sleep = Some(Box::pin(tokio::time::sleep_until(me.log.start() + Duration::from_millis(ms.as_u64().unwrap()))));
            } else if item.get("eof").is_some() {
                me.put(json!({"e": "eof"}));
                return Poll::Ready(Ok(()));
            } else if item.get("err").is_some() {
                me.put(json!({"e": "rderr"}));
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            } else {
                panic!("bad script item {item}");
            }
        }
    }
}

impl ScriptIo {
    fn wait(&mut self) -> Poll<io::Result<()>> {
        if !self.waiting {
            self.waiting = true;
            self.put(json!({"e": "wait"}));
        }
        Poll::Pending
    }

    /// Whether nothing is taken now, or else how much may be, at most.
    fn slow(&mut self, cx: &mut Context<'_>, flush: bool) -> Poll<usize> {
        loop {
            match self.blocked.as_mut() {
                Some(None) => return Poll::Pending,
                Some(Some(sleep)) => {
                    if sleep.as_mut().poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                    self.blocked = None;
                    self.put(json!({"e": "unblock"}));
                }
                None => {
                    let Some(x) = self.wslow.front().cloned() else { return Poll::Ready(usize::MAX) };
                    let (len, (n, p)) = {
                        let sh = self.shared.lock().unwrap();
                        (sh.written.len(), sh.whole())
                    };
                    let (f, off) = (jsn::usz(&x["f"]), x["off"].as_u64().unwrap_or(0) as usize);
                    if n < f || (x["flush"] == true) != flush {
                        return Poll::Ready(usize::MAX);
                    }
                    if n == f && !flush && len - p < off {
                        return Poll::Ready(off - (len - p));
                    }
                    self.wslow.pop_front();
                    if n > f {
                        continue;
                    }
                    self.put(json!({"e": "block", "r": if x["never"] == true { "never" } else { "" }}));
                    self.blocked = Some((x["never"] != true).then(|| Box::pin(tokio::time::sleep(Duration::from_millis(x["ms"].as_u64().unwrap_or(0))))));
                    if x["cancel"] == true {
                        self.put(json!({"e": "cancel"}));
                        if let Some(tok) = &self.tok {
                            tok.cancel();
                        }
                    }
                }
            }
        }
    }
}

impl AsyncWrite for ScriptIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        me.waiting = false;
        let most = match me.slow(cx, false) {
            Poll::Ready(n) => n,
            Poll::Pending => return Poll::Pending,
        };
        if me.wpend {
            me.wflip = !me.wflip;
            if me.wflip {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let mut n = b.len().min(me.wmax).min(most);
        let done = me.shared.lock().unwrap().written.len();
        if let Some(limit) = me.werr {
            if done >= limit {
                me.put(json!({"e": "wrerr"}));
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            n = n.min(limit - done);
        }
        if n == 0 {
            return Poll::Ready(Ok(0));
        }
        me.dirty = true;
        me.put(json!({"e": "wr", "b": jsn::bytes(&b[..n])}));
        let mut sh = me.shared.lock().unwrap();
        sh.written.extend_from_slice(&b[..n]);
        sh.wake();
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        if me.dirty {
            if me.slow(cx, true).is_pending() {
                return Poll::Pending;
            }
            if me.ferr.is_some_and(|n| me.shared.lock().unwrap().frames() >= n) {
                me.put(json!({"e": "wrerr"}));
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            me.dirty = false;
            me.put(json!({"e": "flush"}));
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
