#![allow(dead_code)]
use std::{convert::Infallible, future::Future, net::SocketAddr, sync::Arc, time::Duration};

use haproxy_spoa::{runtime::Builder, Agent, Connection};
use haproxy_spop::*;
use tokio::io::{AsyncRead, AsyncWrite, DuplexStream};
use tokio_util::sync::CancellationToken;
use tower::service_fn;

pub fn hello(caps: &[Capability], max_frame_size: u32) -> Frame {
    Frame::HaproxyHello(HaproxyHello {
        supported_versions: vec![Version::V2_0],
        max_frame_size,
        capabilities: caps.to_vec(),
        healthcheck: None,
        engine_id: None,
    })
}

pub fn notify(fragmented: bool, stream_id: u64, frame_id: u64, names: &[&str]) -> Frame {
    Frame::HaproxyNotify(HaproxyNotify {
        fragmented,
        stream_id,
        frame_id,
        messages: names.iter().map(|n| Message::builder(*n).build()).collect(),
    })
}

pub fn echo(names: &[&str]) -> Vec<Action> {
    names.iter().map(|n| Action::set_var(Scope::Request, *n, true)).collect()
}

pub async fn send<W: AsyncWrite + Unpin>(w: &mut W, f: Frame) {
    Framer::new(1 << 20).write_frame(w, f).await.expect("send");
}

/// The next frame; a silent peer is an error.
pub async fn recv<R: AsyncRead + Unpin>(r: &mut R) -> Result<Frame, Error> {
    tokio::time::timeout(Duration::from_secs(20), Framer::new(1 << 20).read_frame(r))
        .await
        .expect("no answer")
}

/// A connection of the agent whose service is `f`, served in the background.
pub fn connect<F, Fut>(builder: Builder, f: F) -> DuplexStream
where
    F: Fn(Vec<Message>) -> Fut + Clone + Send + Sync + 'static,
    Fut: Future<Output = Result<Vec<Action>, std::io::Error>> + Send + 'static,
{
    let (ours, theirs) = tokio::io::duplex(1 << 20);
    let maker = service_fn(move |_: ()| {
        let f = f.clone();
        async move { Ok::<_, Infallible>(service_fn(f)) }
    });
    let runtime = builder.make_service(maker, ());
    let mut conn = Connection::new(runtime, theirs, CancellationToken::new());
    tokio::spawn(async move {
        let _ = conn.serve().await;
    });
    ours
}

/// A service that answers with one variable for each message.
pub async fn name_all(msgs: Vec<Message>) -> Result<Vec<Action>, std::io::Error> {
    Ok(msgs.into_iter().map(|m| Action::set_var(Scope::Request, m.name, true)).collect())
}

/// An agent on a loopback socket with the service `f`.
pub async fn agent<F, Fut>(builder: Builder, f: F) -> (SocketAddr, CancellationToken, tokio::task::JoinHandle<()>)
where
    F: Fn(Vec<Message>) -> Fut + Clone + Send + Sync + 'static,
    Fut: Future<Output = Result<Vec<Action>, std::io::Error>> + Send + 'static,
{
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    listener.set_nonblocking(true).unwrap();
    let addr = listener.local_addr().unwrap();
    let maker = service_fn(move |_: ()| {
        let f = f.clone();
        async move { Ok::<_, Infallible>(service_fn(f)) }
    });
    let agent = Arc::new(Agent::new(builder.make_service(maker, ()), listener).unwrap());
    let token = agent.shutdown();
    let task = tokio::spawn(async move {
        agent.serve().await.unwrap();
    });
    (addr, token, task)
}
