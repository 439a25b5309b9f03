//! Writing and reading frames with the real framer and codecs.
use std::{
    io,
    pin::Pin,
    task::{Context, Poll},
};

use haproxy_spop::{BufCodec, Codec, Error, Frame, Framer};
use serde_json::{json, Value};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

use crate::{
    io::{Log, ScriptIo},
    jsn,
};

fn res(r: Result<Frame, Error>) -> Value {
    match r {
        Ok(f) => json!({"res": "frame", "frame": jsn::frame(&f)}),
        Err(e) => json!({"res": "err", "err": format!("{e:?}")}),
    }
}

/// The limit of the framer; "unlimited" stands for the largest one there is, which the
/// specification describes as one that nothing in the case exceeds.
fn limit(case: &Value) -> usize {
    if case["unlimited"] == true {
        usize::MAX
    } else {
        jsn::usz(&case["max"])
    }
}

/// {"op":"write","frame":F,"max":n}
async fn write(case: &Value) -> Value {
    let frame = jsn::un_frame(&case["frame"]);
    let max = jsn::usz(&case["max"]);
    let framer = Framer::new(limit(case));
    let ftype = frame.frame_type() as u8;
    let msize: Vec<usize> = frame.metadata().iter().map(|m| m.size()).collect();
    let mut out = Vec::new();
    let w = framer.write_frame(&mut out, frame.clone()).await;
    let (w, n) = match w {
        Ok(n) => ("ok".to_string(), n),
        Err(e) => (format!("{e:?}"), 0),
    };
    let mut rest = &out[..];
    let back = framer.read_frame(&mut rest).await;
    let same = back.as_ref().is_ok_and(|b| *b == frame);
    let mut back = res(back);
    back["same"] = json!(same);
    json!({"op": "write", "frame": case["frame"], "max": max, "res": w, "n": n, "b": jsn::bytes(&out),
           "ftype": ftype, "msize": msize, "left": rest.len(), "back": back})
}

/// {"op":"read","b":[...],"max":n}: one read from a plain byte slice
async fn read(case: &Value) -> Value {
    let max = jsn::usz(&case["max"]);
    let b = jsn::un_bytes(&case["b"]);
    let mut rest = &b[..];
    let r = Framer::new(limit(case)).read_frame(&mut rest).await;
    let mut ev = res(r);
    ev["op"] = json!("read");
    ev["b"] = case["b"].clone();
    ev["max"] = json!(max);
    ev["left"] = json!(rest.len());
    ev
}

/// {"op":"bulk","kind":K,"n":n,"frame":F,"max":M,"h":h,"p":p,"mode":"whole"|"cut"|"short","step":k,"buf":bool}: the frame
/// F with its only item n times over, or with one string of n bytes. What is written is
/// recorded as its first 4 + h bytes, the p bytes behind them, how often these follow each other
/// without interruption, and the rest.
async fn bulk(case: &Value) -> Value {
    use haproxy_spop::{Action, Typed};
    let (n, max, h, p) = (jsn::usz(&case["n"]), jsn::usz(&case["max"]), jsn::usz(&case["h"]), jsn::usz(&case["p"]));
    let mut frame = jsn::un_frame(&case["frame"]);
    let long = || "x".repeat(n);
    match (&mut frame, case["kind"].as_str().unwrap()) {
        (Frame::HaproxyNotify(f), "items") => f.messages = vec![f.messages[0].clone(); n],
        (Frame::AgentAck(f), "items") => f.actions = vec![f.actions[0].clone(); n],
        (Frame::HaproxyNotify(f), "name") => f.messages[0].name = long(),
        (Frame::AgentAck(f), kind) => match (&mut f.actions[0], kind) {
            (Action::UnsetVar { name, .. }, "name") => *name = long(),
            (Action::SetVar { value, .. }, "str") => *value = Typed::String(long()),
            (Action::SetVar { value, .. }, "bin") => *value = Typed::Binary(long().into()),
            x => panic!("bad bulk {x:?}"),
        },
        x => panic!("bad bulk {x:?}"),
    }
    let mut out = Vec::new();
    let mut pipe = Pipe { bytes: Vec::new(), at: 0, step: jsn::usz(&case["step"]), wait: false };
    let wrote = Framer::new(max).write_frame(&mut pipe, frame.clone()).await;
    out.append(&mut pipe.bytes);
    let w = match wrote {
        Ok(n) => json!({"res": "ok", "n": n, "len": out.len()}),
        Err(e) => json!({"res": format!("{e:?}"), "n": 0, "len": out.len()}),
    };
    if out.is_empty() {
        let _ = Framer::new(usize::MAX).write_frame(&mut out, frame.clone()).await;
    }
    let head = &out[..out.len().min(4 + h)];
    let block = &out[head.len()..out.len().min(head.len() + p)];
    let mut at = head.len();
    let mut times = 0;
    while !block.is_empty() && out[at..].starts_with(block) {
        at += block.len();
        times += 1;
    }
    let rest = &out[at..out.len().min(at + 100)];
    let folded = json!({"head": jsn::bytes(head), "block": jsn::bytes(block), "times": times, "rest": jsn::bytes(rest)});
    let mut read = out.clone();
    match case["mode"].as_str().unwrap() {
        "whole" => {}
        "cut" => {
            read.pop();
            let len = (read.len() - 4) as u32;
            read[..4].copy_from_slice(&len.to_be_bytes());
        }
        _ => {
            read.pop();
        }
    }
    let mut pipe = Pipe { bytes: read, at: 0, step: jsn::usz(&case["step"]), wait: false };
    let got = if case["buf"] == true {
        BufCodec::buffered(&mut pipe, Framer::new(max)).read_frame().await
    } else {
        Framer::new(max).read_frame(&mut pipe).await
    };
    let left = pipe.bytes.len() - pipe.at;
    let back = match got {
        Ok(f) => {
            let (count, text) = match &f {
                Frame::HaproxyNotify(f) => (f.messages.len(), f.messages.first().map(|m| m.name.len())),
                Frame::AgentAck(f) => (
                    f.actions.len(),
                    f.actions.first().map(|a| match a {
                        Action::SetVar { value: Typed::String(s), .. } => s.len(),
                        Action::SetVar { value: Typed::Binary(b), .. } => b.len(),
                        Action::UnsetVar { name, .. } => name.len(),
                        _ => 0,
                    }),
                ),
                _ => (0, None),
            };
            json!({"res": "frame", "same": f == frame, "count": count, "text": text.unwrap_or(0)})
        }
        Err(e) => json!({"res": "err", "err": format!("{e:?}")}),
    };
    json!({"op": "bulk", "kind": case["kind"], "n": n, "frame": case["frame"], "max": max, "mode": case["mode"], "w": w, "out": folded,
           "back": back, "left": left, "step": pipe.step, "buf": case["buf"]})
}

/// What is written, or to be read: `step` bytes at a time (0: all at once), after a wait each.
struct Pipe {
    bytes: Vec<u8>,
    at: usize,
    step: usize,
    wait: bool,
}

impl Pipe {
    /// How many of the n bytes may pass now.
    fn turn(&mut self, cx: &mut Context<'_>, n: usize) -> Option<usize> {
        if self.step == 0 {
            return Some(n);
        }
        self.wait = !self.wait;
        if self.wait {
            cx.waker().wake_by_ref();
            return None;
        }
        Some(n.min(self.step))
    }
}

impl AsyncRead for Pipe {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = buf.remaining().min(self.bytes.len() - self.at);
        let Some(n) = self.turn(cx, n) else { return Poll::Pending };
        buf.put_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Pipe {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let Some(n) = self.turn(cx, b.len()) else { return Poll::Pending };
        self.bytes.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// {"op":"stream","api":"framer"|"codec"|"buf","max":n,"reads":[...],"wmax":..,"writes":[F...]}:
/// write the given frames, then read until the first error, over a scripted transport.
async fn stream(case: &Value) -> Value {
    let log = Log::new();
    let max = jsn::usz(&case["max"]);
    let io = ScriptIo::new(0, log.clone(), case, None);
    let frames: Vec<Frame> = case["writes"].as_array().unwrap().iter().map(jsn::un_frame).collect();
    macro_rules! run {
        ($write:expr, $read:expr) => {{
            for f in frames {
                let r: Result<usize, Error> = $write(f).await;
                let ev = match r {
                    Ok(n) => json!({"e": "wrote", "r": "ok", "n": n}),
                    Err(e) => json!({"e": "wrote", "r": format!("{e:?}"), "n": 0}),
                };
                log.put(0, ev);
            }
            for _ in 0..64 {
                let r: Result<Frame, Error> = $read().await;
                let stop = r.is_err();
                let mut ev = res(r);
                ev["e"] = json!("got");
                log.put(0, ev);
                if stop {
                    break;
                }
            }
        }};
    }
    let framer = Framer::new(limit(case));
    let body = async {
        match case["api"].as_str().unwrap() {
            "framer" => {
                let io = tokio::sync::Mutex::new(io);
                run!(
                    |f| async { framer.write_frame(&mut *io.lock().await, f).await },
                    || async { framer.read_frame(&mut *io.lock().await).await }
                )
            }
            "codec" => {
                let c = tokio::sync::Mutex::new(Codec::new(io, framer));
                run!(
                    |f| async { c.lock().await.write_frame(f).await },
                    || async { c.lock().await.read_frame().await }
                )
            }
            _ => {
                let c = tokio::sync::Mutex::new(BufCodec::buffered(io, framer));
                run!(
                    |f| async { c.lock().await.write_frame(f).await },
                    || async { c.lock().await.read_frame().await }
                )
            }
        }
    };
    if tokio::time::timeout(std::time::Duration::from_secs(1_000_000), body).await.is_err() {
        log.put(0, json!({"e": "stuck"}));
    }
    let ev = log.events.lock().unwrap().clone();
    json!({"op": "stream", "max": max, "writes": case["writes"], "ev": ev})
}

pub async fn run(case: &Value) -> Value {
    match case["op"].as_str().unwrap() {
        "write" => write(case).await,
        "read" => read(case).await,
        "bulk" => bulk(case).await,
        "stream" => stream(case).await,
        op => panic!("bad op {op}"),
    }
}
