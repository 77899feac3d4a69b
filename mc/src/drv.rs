//! Drivers: the real endpoints behind one observation interface.
use crate::engine::{Case, Res};
use crate::io::*;
use crate::model::*;
use bytes::BytesMut;
use futures::executor::{self, Notify, NotifyHandle};
use futures::{Async, Future, Stream};
use std::io::{ErrorKind, Read};
use std::sync::Arc;
use tokio_codec::{Decoder, Framed};
use websocket::client::sync::Client;
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::header::Headers;
use websocket::receiver::{Reader, Receiver};
use websocket::result::WebSocketError;
use websocket::server::upgrade::sync::{IntoWs, RequestStreamPair};
use websocket::server::upgrade::Request;
use websocket::ws::Receiver as ReceiverTrait;
use websocket::OwnedMessage;

pub const DEF: (usize, usize) = (100 << 20, 200 << 20);

pub struct Noop;
impl Notify for Noop {
    fn notify(&self, _: usize) {}
}
pub fn noop() -> NotifyHandle {
    NotifyHandle::from(Arc::new(Noop))
}

pub fn ctx(server: bool) -> Context {
    if server {
        Context::Server
    } else {
        Context::Client
    }
}
pub fn err_obs(e: WebSocketError) -> Obs {
    match e {
        WebSocketError::NoDataAvailable => Obs::NoData,
        WebSocketError::IoError(ref e) if e.kind() == ErrorKind::WouldBlock => Obs::Pending,
        e => Obs::Err(format!("{:?}", e)),
    }
}
pub fn res_obs(r: Result<OwnedMessage, WebSocketError>) -> Obs {
    match r {
        Ok(m) => Obs::Msg(m),
        Err(e) => err_obs(e),
    }
}
pub fn reader(io: Mock, server: bool, lim: (usize, usize)) -> Reader<Mock> {
    Reader {
        stream: hyper::buffer::BufReader::new(io),
        receiver: if lim == DEF { Receiver::new(server) } else { Receiver::new_with_limits(server, lim.0, lim.1) },
    }
}
/// read messages until something else than a message is observed (or `max` messages)
pub fn sync_obs(mut next: impl FnMut() -> Result<OwnedMessage, WebSocketError>, c: &mut Case, max: usize) -> Vec<Obs> {
    let mut out = vec![];
    while out.len() <= max {
        c.step();
        let o = res_obs(next());
        let stop = !matches!(o, Obs::Msg(_));
        out.push(o);
        if stop {
            break;
        }
    }
    out
}
pub fn reader_obs(io: Mock, server: bool, lim: (usize, usize), c: &mut Case) -> Vec<Obs> {
    let mut r = reader(io, server, lim);
    sync_obs(|| r.recv_message(), c, 100_000)
}
/// the receiver directly on an unbuffered reader
pub fn bare_obs(mut io: Mock, server: bool, lim: (usize, usize), c: &mut Case) -> Vec<Obs> {
    let mut r = Receiver::new_with_limits(server, lim.0, lim.1);
    sync_obs(|| r.recv_message(&mut io), c, 100_000)
}

pub fn good_request() -> Request {
    use hyper::header::*;
    let mut h = Headers::new();
    h.set(Host { hostname: "example.com".into(), port: None });
    h.set(Upgrade(vec![Protocol::new(ProtocolName::WebSocket, None)]));
    h.set(Connection(vec![ConnectionOption::ConnectionHeader(unicase::UniCase("Upgrade".to_string()))]));
    h.set_raw("Sec-WebSocket-Key", vec![crate::http::KEY.as_bytes().to_vec()]);
    h.set_raw("Sec-WebSocket-Version", vec![b"13".to_vec()]);
    hyper::http::h1::Incoming {
        version: hyper::version::HttpVersion::Http11,
        subject: (hyper::method::Method::Get, hyper::uri::RequestUri::AbsolutePath("/".into())),
        headers: h,
    }
}
/// A connected blocking endpoint on `io`, whose handshake bytes are already removed from the output.
/// The endpoint is built by the public handshake entry points, so `io` must be otherwise quiet.
pub fn sync_client(io: &Mock, server: bool, lim: Option<(usize, usize)>) -> Result<Client<Mock>, String> {
    let c = if server {
        let up = match RequestStreamPair(io.clone(), good_request()).into_ws() {
            Ok(u) => u,
            Err((_, _, e)) => return Err(format!("valid request refused: {:?}", e)),
        };
        let r = match lim {
            None => up.accept(),
            Some((f, m)) => up.accept_with_limits(f, m),
        };
        r.map_err(|(_, e)| format!("accept failed: {:?}", e))?
    } else {
        let mut b = websocket::ClientBuilder::new("ws://example.com/").map_err(|e| format!("{:?}", e))?.key(crate::http::KEY_BYTES);
        if let Some((f, m)) = lim {
            b = b.max_dataframe_size(f).max_message_size(m);
        }
        let resp = crate::http::response(&crate::http::accept_for(crate::http::KEY));
        io.st().input.push_front(Seg::Data(resp));
        b.connect_on(io.clone()).map_err(|e| format!("valid response refused: {:?}", e))?
    };
    io.take_out();
    Ok(c)
}
pub type Fd = Framed<Mock, MessageCodec<OwnedMessage>>;
/// A connected asynchronous endpoint built by the public handshake entry points.
pub fn async_client(io: &Mock, server: bool, lim: Option<(usize, usize)>) -> Result<Fd, String> {
    use websocket::server::upgrade::r#async::Upgrade as AUp;
    let fut = if server {
        let up: AUp<Mock> = AUp { headers: Headers::new(), stream: io.clone(), request: good_request(), buffer: BytesMut::new() };
        match lim {
            None => up.accept(),
            Some((f, m)) => up.accept_with_limits(f, m),
        }
    } else {
        let mut b = websocket::ClientBuilder::new("ws://example.com/").map_err(|e| format!("{:?}", e))?.key(crate::http::KEY_BYTES);
        if let Some((f, m)) = lim {
            b = b.max_dataframe_size(f).max_message_size(m);
        }
        let resp = crate::http::response(&crate::http::accept_for(crate::http::KEY));
        io.st().input.push_front(Seg::Data(resp));
        b.async_connect_on(io.clone())
    };
    let r = run_future(fut, 10_000)?;
    io.take_out();
    match r {
        Ok((f, _)) => Ok(f),
        Err(e) => Err(format!("valid handshake refused: {:?}", e)),
    }
}
/// Poll a future to completion over mocks; Err if it stays not ready for `max` polls.
pub fn run_future<F: Future>(f: F, max: usize) -> Result<Result<F::Item, F::Error>, String> {
    let mut s = executor::spawn(f);
    let n = noop();
    for _ in 0..max {
        match s.poll_future_notify(&n, 0) {
            Ok(Async::Ready(x)) => return Ok(Ok(x)),
            Ok(Async::NotReady) => {}
            Err(e) => return Ok(Err(e)),
        }
    }
    Err("future never became ready".into())
}

pub struct AsyncDec {
    pub codec: MessageCodec<OwnedMessage>,
    pub buf: BytesMut,
    pub obs: Vec<Obs>,
    pub dead: bool,
}
impl AsyncDec {
    pub fn new(server: bool, lim: (usize, usize)) -> AsyncDec {
        AsyncDec {
            codec: if lim == DEF {
                MessageCodec::default(ctx(server))
            } else {
                MessageCodec::new_with_limits(ctx(server), lim.0, lim.1)
            },
            buf: BytesMut::new(),
            obs: vec![],
            dead: false,
        }
    }
    pub fn feed(&mut self, b: &[u8], c: &mut Case) {
        self.buf.extend_from_slice(b);
        while !self.dead {
            c.step();
            match self.codec.decode(&mut self.buf) {
                Ok(Some(m)) => self.obs.push(Obs::Msg(m)),
                Ok(None) => break,
                Err(e) => {
                    self.obs.push(match err_obs(e) {
                        Obs::Err(s) => Obs::Err(s),
                        o => Obs::Err(format!("{:?}", o)),
                    });
                    self.dead = true;
                }
            }
        }
    }
    /// observations with the trailing Pending of an open stream
    pub fn open_obs(&self) -> Vec<Obs> {
        let mut o = self.obs.clone();
        if !self.dead {
            o.push(Obs::Pending);
        }
        o
    }
}
pub struct FrameDec {
    pub codec: DataFrameCodec<DataFrame>,
    pub buf: BytesMut,
    pub out: Vec<DataFrame>,
    pub err: Option<String>,
}
impl FrameDec {
    pub fn new(server: bool) -> FrameDec {
        FrameDec { codec: DataFrameCodec::default(ctx(server)), buf: BytesMut::new(), out: vec![], err: None }
    }
    pub fn feed(&mut self, b: &[u8], c: &mut Case) {
        self.buf.extend_from_slice(b);
        while self.err.is_none() {
            c.step();
            match self.codec.decode(&mut self.buf) {
                Ok(Some(m)) => self.out.push(m),
                Ok(None) => break,
                Err(e) => self.err = Some(format!("{:?}", e)),
            }
        }
    }
}
pub fn framed(io: Mock, server: bool, lim: (usize, usize)) -> Fd {
    MessageCodec::new_with_limits(ctx(server), lim.0, lim.1).framed(io)
}
pub fn show_ws_err(e: WebSocketError) -> Obs {
    Obs::Err(format!("{:?}", e))
}
/// Poll a message stream until it ends, fails, or is not ready `patience` times in a row.
pub fn poll_stream<S>(s: &mut executor::Spawn<S>, patience: usize, c: &mut Case) -> Vec<Obs>
where
    S: Stream<Item = OwnedMessage, Error = WebSocketError>,
{
    let n = noop();
    let mut out = vec![];
    let mut idle = 0;
    loop {
        c.step();
        match s.poll_stream_notify(&n, 0) {
            Ok(Async::Ready(Some(m))) => {
                idle = 0;
                out.push(Obs::Msg(m))
            }
            Ok(Async::Ready(None)) => {
                out.push(Obs::End);
                return out;
            }
            Ok(Async::NotReady) => {
                idle += 1;
                if idle >= patience {
                    out.push(Obs::Pending);
                    return out;
                }
            }
            Err(e) => {
                out.push(show_ws_err(e));
                return out;
            }
        }
        if out.len() > 200_000 {
            out.push(Obs::Err("endless messages".into()));
            return out;
        }
    }
}

pub fn same(what: &str, a: &[Obs], b: &[Obs]) -> Res {
    let norm = |o: &Obs| match o {
        Obs::Err(_) => Obs::Err(String::new()),
        o => o.clone(),
    };
    if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| norm(x) == norm(y)) {
        Ok(())
    } else {
        Err(format!("{}: [{}] but expected [{}]", what, show_obs(a), show_obs(b)))
    }
}
pub struct SlowRead<'a>(pub &'a [u8], pub usize);
impl<'a> Read for SlowRead<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
