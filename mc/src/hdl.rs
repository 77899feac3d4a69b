//! C23: what a handle of a connection does, it does to its own connection: real connections on loopback.
use crate::engine::*;
use crate::ensure;
use crate::fail;
use crate::http::*;
use crate::model::*;
use crate::shim;
use crate::tls::{acceptor, connector, herr};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::net::{Ipv4Addr, Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::raw::{c_int, c_ulong, c_void};
use std::os::unix::io::{AsRawFd, RawFd};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};
use websocket::result::WebSocketError;
use websocket::server::upgrade::sync::IntoWs;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::stream::sync::{AsTcpStream, NetworkStream, TlsStream};
use websocket::sync::{Client, Reader, Server, Writer};
use websocket::{ClientBuilder, OwnedMessage};

extern "C" {
    fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
    fn ioctl(fd: c_int, req: c_ulong, ...) -> c_int;
    fn getsockopt(fd: c_int, level: c_int, name: c_int, v: *mut c_void, l: *mut u32) -> c_int;
    fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, l: u32) -> c_int;
}
fn is_nonblocking(fd: RawFd) -> bool {
    unsafe { fcntl(fd, 3) & 0o4000 != 0 }
}
fn option(fd: RawFd, level: c_int, name: c_int) -> Result<i32, String> {
    let (mut v, mut l) = (0i32, 4u32);
    let r = unsafe { getsockopt(fd, level, name, &mut v as *mut i32 as *mut c_void, &mut l) };
    ensure!(r == 0, "{}: getsockopt", HARNESS);
    Ok(v)
}
fn is_nodelay(fd: RawFd) -> Result<bool, String> {
    Ok(option(fd, 6, 1)? != 0)
}
/// blocking calls end after this long
const PATIENCE: Duration = Duration::from_secs(20);
fn patience(fd: RawFd) {
    let tv: [i64; 2] = [PATIENCE.as_secs() as i64, 0];
    for o in &[20, 21] {
        unsafe { setsockopt(fd, 1, *o, tv.as_ptr() as *const c_void, 16) };
    }
}
/// everything written to this socket is on its way: on loopback, has arrived
fn settled(fd: RawFd) -> bool {
    let mut n: c_int = 0;
    unsafe { ioctl(fd, 0x894b, &mut n as *mut c_int) != 0 || n == 0 }
}
fn settle(fd: RawFd) -> Res {
    let t0 = Instant::now();
    while !settled(fd) {
        ensure!(t0.elapsed() < Duration::from_secs(20), "{}: loopback does not deliver", HARNESS);
        std::thread::sleep(Duration::from_micros(50));
    }
    Ok(())
}
/// A connected endpoint, whatever it runs over
trait Ep: Send {
    fn send(&mut self, t: &str) -> Result<(), WebSocketError>;
    fn recv(&mut self) -> Result<OwnedMessage, WebSocketError>;
    fn nodelay(&mut self, b: bool) -> io::Result<()>;
    fn nonblocking(&mut self, b: bool) -> io::Result<()>;
    fn shutdown(&mut self) -> io::Result<()>;
    fn half(&mut self, write: bool) -> Option<io::Result<()>>;
    fn addrs(&self) -> io::Result<(SocketAddr, SocketAddr)>;
    fn tcp(&self) -> &TcpStream;
    fn writer(&mut self) -> &mut dyn Write;
    fn reader(&mut self) -> &mut dyn Read;
    /// the two halves, as one endpoint
    fn split(self: Box<Self>, flip: bool) -> Result<Box<dyn Ep>, String>;
}
macro_rules! ep {
    ($t:ty, $half:expr, $split:expr) => {
        impl Ep for Client<$t> {
            fn split(self: Box<Self>, flip: bool) -> Result<Box<dyn Ep>, String> {
                let f: fn(Client<$t>, bool) -> Result<Box<dyn Ep>, String> = $split;
                f(*self, flip)
            }
            fn send(&mut self, t: &str) -> Result<(), WebSocketError> {
                self.send_message(&OwnedMessage::Text(t.to_string()))
            }
            fn recv(&mut self) -> Result<OwnedMessage, WebSocketError> {
                self.recv_message()
            }
            fn nodelay(&mut self, b: bool) -> io::Result<()> {
                self.set_nodelay(b)
            }
            fn nonblocking(&mut self, b: bool) -> io::Result<()> {
                self.set_nonblocking(b)
            }
            fn shutdown(&mut self) -> io::Result<()> {
                Client::shutdown(self)
            }
            fn half(&mut self, write: bool) -> Option<io::Result<()>> {
                let f: Option<fn(&Client<$t>, bool) -> io::Result<()>> = $half;
                f.map(|f| f(self, write))
            }
            fn addrs(&self) -> io::Result<(SocketAddr, SocketAddr)> {
                Ok((self.local_addr()?, self.peer_addr()?))
            }
            fn tcp(&self) -> &TcpStream {
                self.stream_ref().as_tcp()
            }
            fn writer(&mut self) -> &mut dyn Write {
                self.writer_mut()
            }
            fn reader(&mut self) -> &mut dyn Read {
                self.reader_mut()
            }
        }
    };
}
fn half_tcp(c: &Client<TcpStream>, write: bool) -> io::Result<()> {
    if write {
        c.shutdown_sender()
    } else {
        c.shutdown_receiver()
    }
}
ep!(TcpStream, Some(half_tcp), split_tcp);
ep!(TlsStream<TcpStream>, None, |_, _| Err("not splittable".into()));
ep!(Box<dyn NetworkStream + Send>, None, |_, _| Err("not splittable".into()));
/// the halves of a split connection; `flip`: what either can do is asked of the reader
struct Halves {
    r: Reader<TcpStream>,
    w: Writer<TcpStream>,
    flip: bool,
}
fn split_tcp(c: Client<TcpStream>, flip: bool) -> Result<Box<dyn Ep>, String> {
    let (r, w) = c.split().map_err(|e| format!("split: {}", e))?;
    Ok(Box::new(Halves { r, w, flip }))
}
impl Ep for Halves {
    fn send(&mut self, t: &str) -> Result<(), WebSocketError> {
        self.w.send_message(&OwnedMessage::Text(t.to_string()))
    }
    fn recv(&mut self) -> Result<OwnedMessage, WebSocketError> {
        self.r.recv_message()
    }
    fn nodelay(&mut self, b: bool) -> io::Result<()> {
        self.tcp().set_nodelay(b)
    }
    fn nonblocking(&mut self, b: bool) -> io::Result<()> {
        self.tcp().set_nonblocking(b)
    }
    fn shutdown(&mut self) -> io::Result<()> {
        if self.flip {
            self.r.shutdown_all()
        } else {
            self.w.shutdown_all()
        }
    }
    fn half(&mut self, write: bool) -> Option<io::Result<()>> {
        Some(if write { self.w.shutdown() } else { self.r.shutdown() })
    }
    fn addrs(&self) -> io::Result<(SocketAddr, SocketAddr)> {
        Ok((self.w.stream.local_addr()?, self.r.stream.get_ref().peer_addr()?))
    }
    fn tcp(&self) -> &TcpStream {
        if self.flip {
            self.r.stream.get_ref()
        } else {
            &self.w.stream
        }
    }
    fn writer(&mut self) -> &mut dyn Write {
        &mut self.w.stream
    }
    fn reader(&mut self) -> &mut dyn Read {
        &mut self.r.stream
    }
    fn split(self: Box<Self>, _: bool) -> Result<Box<dyn Ep>, String> {
        Ok(self)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Over {
    Tcp,
    Tls,
    Boxed,
    BoxedTls,
    /// TCP, split before the history begins
    Halves,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    NoDelay(bool),
    NonBlock(bool),
    Send,
    RawWrite,
    Recv,
    RawRead,
    Shut,
    ShutSend,
    ShutRecv,
}
const OPS: [Op; 11] = [
    Op::NoDelay(true),
    Op::NoDelay(false),
    Op::NonBlock(true),
    Op::NonBlock(false),
    Op::Send,
    Op::RawWrite,
    Op::Recv,
    Op::RawRead,
    Op::Shut,
    Op::ShutSend,
    Op::ShutRecv,
];
fn ops_of(o: Over) -> usize {
    if o == Over::Tcp || o == Over::Halves {
        11
    } else {
        9
    }
}
struct End {
    ep: Box<dyn Ep>,
    fd: RawFd,
    addrs: (SocketAddr, SocketAddr),
    client: bool,
    nodelay: bool,
    nonblock: bool,
    /// sent to this end and not received yet
    queue: VecDeque<String>,
    wshut: bool,
    rshut: bool,
}
const IP: Ipv4Addr = Ipv4Addr::new(127, 78, 0, 1);
/// both ends of a new connection: `own`: over the caller's streams, else the library dials and listens
fn pair(over: Over, own: bool, path: &str) -> Result<[End; 2], String> {
    let path = path.to_string();
    let halves = over == Over::Halves;
    let over = if halves { Over::Tcp } else { over };
    let secure = over == Over::Tls || over == Over::BoxedTls;
    enum L {
        Own(TcpListener),
        Plain(websocket::server::WsServer<websocket::server::NoTlsAcceptor, TcpListener>),
        Tls(websocket::server::WsServer<native_tls::TlsAcceptor, TcpListener>),
    }
    let l = match (own, secure) {
        (true, _) => L::Own(TcpListener::bind("127.0.0.1:0").map_err(herr)?),
        (false, false) => L::Plain(Server::bind("127.0.0.1:0").map_err(herr)?),
        (false, true) => L::Tls(Server::bind_secure("127.0.0.1:0", acceptor(0)?).map_err(herr)?),
    };
    let at = match &l {
        L::Own(l) => l.local_addr().map_err(herr)?,
        L::Plain(l) => l.local_addr().map_err(herr)?,
        L::Tls(l) => l.local_addr().map_err(herr)?,
    };
    let ip = u32::from(IP);
    shim::route(ip, at.port(), at.port());
    let p = path.clone();
    let th = std::thread::spawn(move || -> Result<(Box<dyn Ep>, Option<RawFd>), String> {
        let go = || -> Result<(Box<dyn Ep>, Option<RawFd>), String> {
            let url = format!("{}://{}:{}{}", if secure { "wss" } else { "ws" }, IP, at.port(), p);
            let mut b = ClientBuilder::new(&url).map_err(|e| format!("{:?}", e))?;
            let bad = |e: WebSocketError| format!("connect: {:?}", e);
            if own {
                let s = TcpStream::connect(at).map_err(herr)?;
                let fd = s.as_raw_fd();
                patience(fd);
                Ok(match over {
                    Over::Tcp => (Box::new(b.connect_on(s).map_err(bad)?), Some(fd)),
                    Over::Tls => {
                        let s = connector()?.connect("127.78.0.1", s).map_err(herr)?;
                        (Box::new(b.connect_on(s).map_err(bad)?), Some(fd))
                    }
                    Over::Boxed => (Box::new(b.connect_on(Box::new(s) as Box<dyn NetworkStream + Send>).map_err(bad)?), Some(fd)),
                    _ => {
                        let s = connector()?.connect("127.78.0.1", s).map_err(herr)?;
                        (Box::new(b.connect_on(Box::new(s) as Box<dyn NetworkStream + Send>).map_err(bad)?), Some(fd))
                    }
                })
            } else {
                Ok(match over {
                    Over::Tcp => (Box::new(b.connect_insecure().map_err(bad)?), None),
                    Over::Tls => (Box::new(b.connect_secure(Some(connector()?)).map_err(bad)?), None),
                    Over::Boxed => (Box::new(b.connect(None).map_err(bad)?), None),
                    _ => (Box::new(b.connect(Some(connector()?)).map_err(bad)?), None),
                })
            }
        };
        let r = guarded(go).and_then(|r| r);
        if r.is_err() {
            // the other side must not wait for ever
            let _ = TcpStream::connect(at);
        }
        r
    });
    let serve = || -> Result<(Box<dyn Ep>, Option<RawFd>, String), String> {
        macro_rules! up {
            ($r:expr) => {{
                let u = $r;
                let uri = u.uri();
                (Box::new(u.accept().map_err(|(_, e)| format!("accept: {:?}", e))?) as Box<dyn Ep>, uri)
            }};
        }
        Ok(match l {
            L::Own(l) => {
                let (s, _) = l.accept().map_err(herr)?;
                let fd = s.as_raw_fd();
                patience(fd);
                let no = |e: HyperIntoWsError| format!("valid request refused: {:?}", e);
                let (e, u) = match over {
                    Over::Tcp => up!(s.into_ws().map_err(|x| no(x.3))?),
                    Over::Boxed => up!((Box::new(s) as Box<dyn NetworkStream + Send>).into_ws().map_err(|x| no(x.3))?),
                    Over::Tls => up!(acceptor(0)?.accept(s).map_err(herr)?.into_ws().map_err(|x| no(x.3))?),
                    _ => {
                        let s = acceptor(0)?.accept(s).map_err(herr)?;
                        up!((Box::new(s) as Box<dyn NetworkStream + Send>).into_ws().map_err(|x| no(x.3))?)
                    }
                };
                (e, Some(fd), u)
            }
            L::Plain(mut l) => {
                let (e, u) = up!(l.accept().map_err(|e| format!("accept: {:?}", e))?);
                (e, None, u)
            }
            L::Tls(mut l) => {
                let (e, u) = up!(l.accept().map_err(|e| format!("accept: {:?}", e))?);
                (e, None, u)
            }
        })
    };
    let s = guarded(serve).and_then(|r| r);
    let c = th.join().map_err(|_| format!("{}: client thread", HARNESS))?;
    shim::unroute(ip, at.port());
    shim::forget_port(ip, at.port());
    let (cl, cfd) = c?;
    let (sv, sfd, uri) = s?;
    ensure!(uri == path, "the server sees the path {}, not {}", uri, path);
    let end = |ep: Box<dyn Ep>, fd: Option<RawFd>, client: bool| -> Result<End, String> {
        let real = ep.tcp().as_raw_fd();
        let own = fd.is_some();
        if let Some(fd) = fd {
            ensure!(real == fd, "the handle's TCP stream is not the one the connection was made on");
        }
        let set = if own { Some(PATIENCE) } else { None };
        for (what, t) in &[("read", ep.tcp().read_timeout().map_err(herr)?), ("write", ep.tcp().write_timeout().map_err(herr)?)] {
            ensure!(*t == set, "a new connection has the {} timeout {:?}, {:?} was set", what, t, set);
        }
        ensure!(option(real, 1, 13)? == 0, "a new connection lingers");
        patience(real);
        let addrs = ep.addrs().map_err(|e| format!("addresses of a live connection: {}", e))?;
        let (a, b) = (ep.tcp().local_addr().map_err(herr)?, ep.tcp().peer_addr().map_err(herr)?);
        ensure!(addrs == (a, b), "addresses {:?} of a connection from {} to {}", addrs, a, b);
        ensure!((if client { b } else { a }) == at, "{:?} is not a connection of the server at {}", addrs, at);
        ensure!(!is_nonblocking(real), "a new blocking connection does not block");
        Ok(End { nodelay: is_nodelay(real)?, nonblock: false, ep, fd: real, addrs, client, queue: VecDeque::new(), wshut: false, rshut: false })
    };
    let (mut a, mut b) = (end(cl, cfd, true)?, end(sv, sfd, false)?);
    if halves {
        let cut = |e: End, flip: bool| -> Result<End, String> {
            let ep = e.ep.split(flip)?;
            let fd = ep.tcp().as_raw_fd();
            Ok(End { ep, fd, ..e })
        };
        a = cut(a, own)?;
        b = cut(b, !own)?;
    }
    ensure!(a.addrs == (b.addrs.1, b.addrs.0), "the ends of one connection name {:?} and {:?}", a.addrs, b.addrs);
    Ok([a, b])
}
struct World {
    ends: Vec<End>,
    /// a connection on which data met a closed end: nothing more is promised
    murky: [bool; 2],
    sent: usize,
}
fn block(e: &WebSocketError) -> bool {
    match e {
        WebSocketError::IoError(e) => e.kind() == ErrorKind::WouldBlock,
        _ => false,
    }
}
impl World {
    fn text(&mut self, e: usize) -> String {
        self.sent += 1;
        format!("{}-{}-{}", e, self.sent, "x".repeat(self.sent * 7 % 60))
    }
    fn check(&self, after: &str) -> Res {
        for (i, e) in self.ends.iter().enumerate() {
            ensure!(is_nonblocking(e.fd) == e.nonblock, "end {} after {}: non-blocking is {}, last set to {}", i, after, !e.nonblock, e.nonblock);
            ensure!(is_nodelay(e.fd)? == e.nodelay, "end {} after {}: no-delay is {}, last set to {}", i, after, !e.nodelay, e.nodelay);
            ensure!(e.ep.tcp().as_raw_fd() == e.fd, "end {} after {}: the handle gives another TCP stream", i, after);
            let c = i / 2 * 2;
            if !self.murky[i / 2] && self.ends[c..c + 2].iter().all(|e| !e.wshut && !e.rshut) {
                let a = e.ep.addrs().map_err(|x| format!("end {} after {}: addresses of a live connection: {}", i, after, x))?;
                ensure!(a == e.addrs, "end {} after {}: addresses {:?}, before {:?}", i, after, a, e.addrs);
            }
        }
        Ok(())
    }
    /// false: the operation would wait for ever
    fn step(&mut self, i: usize, op: Op) -> Result<bool, String> {
        let (peer, conn) = (i ^ 1, i / 2);
        let murky = self.murky[conn];
        let what = format!("end {}: {:?}", i, op);
        let io = |r: io::Result<()>| r.map_err(|e| format!("{}: {}", what, e));
        match op {
            Op::NoDelay(b) => {
                let r = self.ends[i].ep.nodelay(b);
                if !murky {
                    io(r)?;
                    self.ends[i].nodelay = b;
                } else {
                    self.ends[i].nodelay = is_nodelay(self.ends[i].fd)?;
                }
            }
            Op::NonBlock(b) => {
                io(self.ends[i].ep.nonblocking(b))?;
                self.ends[i].nonblock = b;
            }
            Op::Send | Op::RawWrite => {
                let t = self.text(i);
                let masked = self.ends[i].client;
                let e = &mut self.ends[i];
                let r: Result<(), String> = if op == Op::Send {
                    e.ep.send(&t).map_err(|e| format!("{:?}", e))
                } else {
                    let mut f = fr(true, 1, t.as_bytes());
                    if masked {
                        f.mask = Some([9, 8, 7, 6]);
                    }
                    let w = e.ep.writer();
                    w.write_all(&wire(&[f])).and_then(|_| w.flush()).map_err(|e| format!("{:?}", e))
                };
                if murky {
                    return Ok(true);
                }
                if self.ends[i].wshut {
                    ensure!(r.is_err(), "{}: reported as done although this side was shut down", what);
                    return Ok(true);
                }
                let refused = self.ends[peer].wshut && self.ends[peer].rshut;
                if let Err(e) = r {
                    // a second write may meet the refusal of the first
                    ensure!(refused, "{}: {} on a live connection", what, e);
                }
                self.ends[peer].queue.push_back(t);
                if refused {
                    self.murky[conn] = true;
                }
            }
            Op::Recv => {
                let done = self.ends[peer].wshut || self.ends[i].rshut;
                if self.ends[i].queue.is_empty() && !self.ends[i].nonblock && !done && !murky {
                    return Ok(false);
                }
                if !murky {
                    settle(self.ends[peer].fd)?;
                }
                let t0 = Instant::now();
                loop {
                    let r = self.ends[i].ep.recv();
                    if murky {
                        return Ok(true);
                    }
                    match (r, self.ends[i].queue.front().cloned()) {
                        (Ok(m), Some(t)) => {
                            ensure!(m == OwnedMessage::Text(t.clone()), "{}: received {}, next is {}", what, show_msg(&m), t);
                            self.ends[i].queue.pop_front();
                        }
                        (Ok(m), None) => fail!("{}: received {}, nothing was sent", what, show_msg(&m)),
                        // closing the receiving side may lose what was under way
                        (Err(_), Some(_)) if self.ends[i].rshut => self.murky[conn] = true,
                        (Err(ref e), Some(_)) if block(e) && t0.elapsed() < Duration::from_secs(10) => continue,
                        (Err(e), Some(t)) => fail!("{}: {:?}, although {} was sent", what, e, t),
                        (Err(ref e), None) if done && block(e) && !self.ends[i].rshut => {
                            ensure!(t0.elapsed() < Duration::from_secs(10), "{}: would block although the other side has ended", what);
                            continue;
                        }
                        (Err(_), None) if done => {}
                        (Err(e), None) => ensure!(block(&e), "{}: {:?} instead of 'would block'", what, e),
                    }
                    return Ok(true);
                }
            }
            Op::RawRead => {
                let t = match self.ends[i].queue.front().cloned() {
                    Some(t) if !murky && !self.ends[i].rshut => t,
                    _ => return Ok(false),
                };
                settle(self.ends[peer].fd)?;
                let mut want = vec![0; t.len() + if self.ends[i].client { 2 } else { 6 }];
                let (mut n, t0) = (0, Instant::now());
                while n < want.len() {
                    match self.ends[i].ep.reader().read(&mut want[n..]) {
                        Ok(0) => fail!("{}: end of stream within a message", what),
                        Ok(k) => n += k,
                        Err(ref e) if e.kind() == ErrorKind::WouldBlock && t0.elapsed() < Duration::from_secs(10) => {}
                        Err(e) => fail!("{}: {:?}", what, e),
                    }
                }
                let f = parse_wire(&want).map_err(|e| format!("{}: bytes {}: {}", what, hex(&want), e))?;
                ensure!(f.len() == 1 && f[0].payload == t.as_bytes(), "{}: bytes {}, expected the message {}", what, hex(&want), t);
                self.ends[i].queue.pop_front();
            }
            Op::Shut => {
                let r = self.ends[i].ep.shutdown();
                if !murky && !self.ends[i].wshut && !self.ends[peer].wshut {
                    io(r)?;
                }
                self.ends[i].wshut = true;
                self.ends[i].rshut = true;
            }
            Op::ShutSend | Op::ShutRecv => {
                let w = op == Op::ShutSend;
                let r = match self.ends[i].ep.half(w) {
                    None => return Ok(false),
                    Some(r) => r,
                };
                if !murky && self.ends[i & 2..(i & 2) + 2].iter().all(|e| !e.wshut && !e.rshut) {
                    io(r)?;
                }
                if w {
                    self.ends[i].wshut = true;
                } else {
                    self.ends[i].rshut = true;
                }
            }
        }
        Ok(true)
    }
    /// what is left arrives, and every open direction still works
    fn finish(&mut self) -> Res {
        for i in 0..self.ends.len() {
            let p = i ^ 1;
            if self.murky[i / 2] || self.ends[i].rshut {
                continue;
            }
            if !self.ends[p].wshut {
                self.step(p, Op::Send)?;
            }
            while !self.ends[i].queue.is_empty() && !self.murky[i / 2] {
                self.step(i, Op::Recv).map_err(|e| format!("at the end: {}", e))?;
            }
        }
        self.check("the end")
    }
}
fn histories(x: &Ctx, name: &str, kinds: [(Over, bool); 2], depth: usize) {
    let per: Vec<usize> = kinds.iter().map(|k| ops_of(k.0)).collect();
    let n = 2 * (per[0] + per[1]);
    // connections of one kind: the first step is on the first one
    let first = if kinds[0] == kinds[1] { 2 * per[0] } else { n };
    let total = (first as u64) * (n as u64).pow(depth as u32 - 1);
    x.section(name, total, |c, i| {
        let mut ix = Ix(i);
        let mut steps = vec![ix.take(first)];
        for _ in 1..depth {
            steps.push(ix.take(n));
        }
        let steps: Vec<(usize, Op)> = steps
            .into_iter()
            .map(|s| if s < 2 * per[0] { (s / per[0], OPS[s % per[0]]) } else { (2 + (s - 2 * per[0]) / per[1], OPS[(s - 2 * per[0]) % per[1]]) })
            .collect();
        c.note = format!("{:?}: {:?}", kinds, steps);
        let mut w = World { ends: vec![], murky: [false; 2], sent: 0 };
        for (k, (o, own)) in kinds.iter().enumerate() {
            w.ends.extend(pair(*o, *own, &format!("/{}", k))?);
        }
        let mut r = w.check("connecting");
        for (e, op) in &steps {
            if r.is_err() {
                break;
            }
            c.step();
            let t0 = Instant::now();
            let r1 = w.step(*e, *op);
            if !matches!(op, Op::Recv | Op::RawRead) && t0.elapsed() > PATIENCE / 2 {
                r = Err(format!("end {}: {:?} took {:?}", e, op, t0.elapsed()));
                break;
            }
            match r1 {
                Ok(false) => break,
                Ok(true) => r = w.check(&format!("{:?} on end {}", op, e)),
                Err(e) => r = Err(e),
            }
            let s: Vec<_> = w.ends.iter().map(|e| (e.nodelay, e.nonblock, e.queue.len(), e.wshut, e.rshut)).collect();
            c.state(&(name, s, w.murky));
        }
        let r = r.and_then(|_| w.finish());
        for e in &w.ends {
            shim::reset_on_close(e.fd);
        }
        c.trace(&(steps.len(), w.murky, w.sent));
        r.map_err(|e| format!("{}\n  connections {:?}, steps {:?}", e, kinds, steps))
    });
}

/// options set on a request which has not been answered yet
fn pending(x: &Ctx) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum O {
        NoDelay(bool),
        Ttl(u32),
        Timeout(u64),
        NonBlock,
    }
    const O: [O; 5] = [O::NoDelay(true), O::NoDelay(false), O::Ttl(33), O::Timeout(9), O::NonBlock];
    let depth = x.tier(2, 3);
    let n = seq_count(2 * O.len(), depth);
    // over the caller's stream or the library's server, both orders of answering, what each answer is
    x.section("unanswered requests", n * 3 * 2 * 9, |c, i| {
        let mut ix = Ix(i);
        let (kind, second_first, ans) = (ix.take(3), ix.take(2) == 1, [ix.take(3), ix.take(3)]);
        let seq = seq_of(2 * O.len(), ix.0);
        c.note = format!("kind {} answers {:?} reversed {} options {:?}", kind, ans, second_first, seq);
        let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
        let mut sv = None;
        let at = if kind == 0 {
            l.local_addr().map_err(herr)?
        } else {
            let s = Server::bind("127.0.0.1:0").map_err(herr)?;
            let a = s.local_addr().map_err(|e| format!("address of a server: {}", e))?;
            sv = Some(s);
            a
        };
        let mut cl = vec![];
        let mut ups = vec![];
        for k in 0..2 {
            let mut s = TcpStream::connect(at).map_err(herr)?;
            patience(s.as_raw_fd());
            s.write_all(&request(&format!("/{}", k))).map_err(herr)?;
            let (u, fd) = match &mut sv {
                None => {
                    let t = l.accept().map_err(herr)?.0;
                    let fd = t.as_raw_fd();
                    (t.into_ws().map_err(|e| format!("valid request refused: {:?}", e.3))?, fd)
                }
                Some(v) => {
                    let u = if kind == 1 {
                        v.accept().map_err(|e| format!("valid request refused: {:?}", e))?
                    } else {
                        match v.next() {
                            Some(Ok(u)) => u,
                            _ => fail!("valid request refused"),
                        }
                    };
                    let fd = u.stream.as_raw_fd();
                    (u, fd)
                }
            };
            c.step();
            ensure!(u.uri() == format!("/{}", k), "request {} has the path {}", k, u.uri());
            ensure!(u.tcp_stream().as_raw_fd() == fd, "request {}: the TCP stream is another one", k);
            ensure!(u.tcp_stream().peer_addr().map_err(herr)? == s.local_addr().map_err(herr)?, "request {}: the TCP stream leads elsewhere", k);
            cl.push(s);
            ups.push(Some((u, fd)));
        }
        let mut set: [[Option<O>; 4]; 2] = Default::default();
        let initial: Vec<bool> = ups.iter().map(|u| is_nodelay(u.as_ref().unwrap().1)).collect::<Result<_, _>>()?;
        for s in &seq {
            c.step();
            let (k, o) = (s / O.len(), O[s % O.len()]);
            let t = ups[k].as_ref().unwrap().0.tcp_stream();
            let slot = match o {
                O::NoDelay(b) => {
                    t.set_nodelay(b).map_err(herr)?;
                    0
                }
                O::Ttl(n) => {
                    t.set_ttl(n).map_err(herr)?;
                    1
                }
                O::Timeout(n) => {
                    t.set_read_timeout(Some(Duration::from_secs(n))).map_err(herr)?;
                    2
                }
                O::NonBlock => {
                    t.set_nonblocking(true).map_err(herr)?;
                    3
                }
            };
            set[k][slot] = Some(o);
        }
        let same = |k: usize, t: &TcpStream, fd: RawFd, when: &str| -> Res {
            ensure!(t.as_raw_fd() == fd, "connection {} {}: another TCP stream", k, when);
            let nd = match set[k][0] {
                Some(O::NoDelay(b)) => b,
                _ => initial[k],
            };
            ensure!(is_nodelay(fd)? == nd, "connection {} {}: no-delay is {}", k, when, !nd);
            ensure!(is_nonblocking(fd) == set[k][3].is_some(), "connection {} {}: non-blocking is {}", k, when, is_nonblocking(fd));
            ensure!((t.ttl().map_err(herr)? == 33) == set[k][1].is_some(), "connection {} {}: time to live {:?}", k, when, t.ttl());
            ensure!((t.read_timeout().map_err(herr)? == Some(Duration::from_secs(9))) == set[k][2].is_some(), "connection {} {}: read timeout {:?}", k, when, t.read_timeout());
            Ok(())
        };
        let mut live = vec![];
        for k in if second_first { vec![1, 0] } else { vec![0, 1] } {
            c.step();
            let (u, fd) = ups[k].take().unwrap();
            same(k, u.tcp_stream(), fd, "before the answer")?;
            match ans[k] {
                0 => {
                    let w = u.accept().map_err(|(_, e)| format!("accept {}: {:?}", k, e))?;
                    same(k, w.stream_ref(), fd, "after accepting")?;
                    live.push((k, w, fd));
                }
                1 => {
                    let s = u.reject().map_err(|(_, e)| format!("reject {}: {:?}", k, e))?;
                    same(k, &s, fd, "after refusing")?;
                }
                _ => u.drop(),
            }
            if let Some((u, fd)) = &ups[1 - k] {
                same(1 - k, u.tcp_stream(), *fd, "while the other is answered")?;
            }
        }
        for (k, w, fd) in &mut live {
            same(*k, w.stream_ref(), *fd, "when both are answered")?;
            w.send_message(&OwnedMessage::Text(format!("to {}", k))).map_err(|e| format!("send on {}: {:?}", k, e))?;
        }
        for k in 0..2 {
            let mut v = vec![];
            if ans[k] == 0 {
                while !v.ends_with(b"\r\n\r\n") {
                    let mut b = [0];
                    ensure!(cl[k].read(&mut b).unwrap_or(0) == 1, "connection {} was accepted, its client received {:?}", k, String::from_utf8_lossy(&v));
                    v.push(b[0]);
                }
                ensure!(v.starts_with(b"HTTP/1.1 101 "), "connection {} was accepted, its client received {:?}", k, String::from_utf8_lossy(&v));
                let mut m = [0; 6];
                cl[k].read_exact(&mut m).map_err(|e| format!("client {} misses its message: {}", k, e))?;
                ensure!(m == *[&[0x81, 4][..], b"to "].concat() || m[..2] == [0x81, 4] && &m[2..] == format!("to {}", k).as_bytes(), "client {} received {}", k, hex(&m));
            } else {
                cl[k].read_to_end(&mut v).map_err(|e| format!("client {} after its connection was given up: {}", k, e))?;
                if ans[k] == 1 {
                    ensure!(v.starts_with(b"HTTP/1.1 400 "), "connection {} was refused, its client received {:?}", k, String::from_utf8_lossy(&v));
                } else {
                    ensure!(v.is_empty(), "connection {} was dropped, its client received {:?}", k, String::from_utf8_lossy(&v));
                }
            }
        }
        for s in &cl {
            shim::reset_on_close(s.as_raw_fd());
        }
        c.state(&("pending", kind, ans, format!("{:?}", set)));
        c.trace(&(kind, ans, second_first));
        Ok(())
    });
}

static NEXT: AtomicU32 = AtomicU32::new(0);
/// a listening server in and out of non-blocking mode, through two handles
fn listening(x: &Ctx) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum O {
        NonBlock(bool),
        Arrive,
        Accept,
        Clone,
        Other,
    }
    const O: [O; 6] = [O::NonBlock(true), O::NonBlock(false), O::Arrive, O::Accept, O::Clone, O::Other];
    for tls in &[false, true] {
        let tls = *tls;
        let depth = if tls { x.tier(4, 5) } else { x.tier(5, 6) };
        x.section(if tls { "listening/tls" } else { "listening" }, seq_count(O.len(), depth), |c, i| {
            let seq: Vec<O> = seq_of(O.len(), i).into_iter().map(|k| O[k]).collect();
            c.note = format!("{:?}", seq);
            let plain = if tls { None } else { Some(Server::bind("127.0.0.1:0").map_err(herr)?) };
            let secure = if tls { Some(Server::bind_secure("127.0.0.1:0", acceptor(0)?).map_err(herr)?) } else { None };
            let mut ps: Vec<_> = plain.into_iter().collect();
            let mut ss: Vec<_> = secure.into_iter().collect();
            let at = if tls { ss[0].local_addr() } else { ps[0].local_addr() }.map_err(|e| format!("address of a server: {}", e))?;
            ensure!(at.port() != 0 && at.ip() == Ipv4Addr::LOCALHOST, "the server says it is at {}", at);
            let mut use_ = 0;
            let mut nb = false;
            let mut queue: VecDeque<u32> = VecDeque::new();
            let mut clients = vec![];
            let mut held: Vec<RawFd> = vec![];
            let mut keep: Vec<Box<dyn Ep>> = vec![];
            for (k, o) in seq.iter().enumerate() {
                c.step();
                c.state(&(tls, nb, queue.len(), ps.len() + ss.len(), use_));
                match o {
                    O::NonBlock(b) => {
                        if tls { ss[use_].set_nonblocking(*b) } else { ps[use_].set_nonblocking(*b) }.map_err(|e| format!("step {}: {}", k, e))?;
                        nb = *b;
                    }
                    O::Arrive => {
                        if queue.len() == 2 {
                            return Ok(());
                        }
                        let id = NEXT.fetch_add(1, SeqCst);
                        let mut s = TcpStream::connect(at).map_err(herr)?;
                        held.push(s.as_raw_fd());
                        patience(s.as_raw_fd());
                        let req = request(&format!("/{}", id));
                        if tls {
                            let conn = connector()?;
                            clients.push(Some(std::thread::spawn(move || -> Result<Box<dyn Read + Send>, String> {
                                let mut t = conn.connect("localhost", s).map_err(|e| format!("client: {}", e))?;
                                t.write_all(&req).map_err(|e| format!("client: {}", e))?;
                                Ok(Box::new(t))
                            })));
                        } else {
                            s.write_all(&req).map_err(herr)?;
                            let r: Box<dyn Read + Send> = Box::new(s);
                            clients.push(Some(std::thread::spawn(move || Ok(r))));
                        }
                        queue.push_back(id);
                    }
                    O::Accept => {
                        if queue.is_empty() && !nb {
                            break;
                        }
                        let want = queue.pop_front();
                        macro_rules! take {
                            ($s:expr) => {
                                match ($s.accept(), want) {
                                    (Ok(u), Some(id)) => {
                                        ensure!(u.uri() == format!("/{}", id), "step {}: the request for {} where /{} is next", k, u.uri(), id);
                                        ensure!(!is_nonblocking(u.stream.as_tcp().as_raw_fd()), "step {}: an accepted connection does not block", k);
                                        let w = u.accept().map_err(|(_, e)| format!("step {}: {:?}", k, e))?;
                                        keep.push(Box::new(w));
                                    }
                                    (Ok(u), None) => fail!("step {}: a request for {} nobody made", k, u.uri()),
                                    (Err(e), None) => {
                                        ensure!(e.stream.is_none() && e.parsed.is_none() && e.buffer.is_none(), "step {}: a connection nobody made", k);
                                        match &e.error {
                                            HyperIntoWsError::Io(e) if e.kind() == ErrorKind::WouldBlock => {}
                                            e => fail!("step {}: {:?} instead of 'would block'", k, e),
                                        }
                                    }
                                    (Err(e), Some(id)) => fail!("step {}: {:?}, but /{} is waiting", k, e.error, id),
                                }
                            };
                        }
                        if tls {
                            take!(ss[use_])
                        } else {
                            take!(ps[use_])
                        }
                    }
                    O::Clone => {
                        if ps.len() + ss.len() > 1 || tls {
                            return Ok(());
                        }
                        let n = ps[0].try_clone().map_err(|e| format!("step {}: {}", k, e))?;
                        ensure!(n.local_addr().map_err(herr)? == at, "step {}: the clone is at {:?}", k, n.local_addr());
                        ps.push(n);
                    }
                    O::Other => {
                        if ps.len() + ss.len() < 2 {
                            return Ok(());
                        }
                        use_ = 1 - use_;
                    }
                }
            }
            let n = keep.len();
            for (k, e) in keep.iter_mut().enumerate() {
                e.send(&format!("{:02}", k)).map_err(|e| format!("sending to client {}: {:?}", k, e))?;
            }
            drop(ps);
            drop(ss);
            for (k, t) in clients.iter_mut().enumerate() {
                let r = t.take().unwrap().join().map_err(|_| format!("{}: client thread", HARNESS))?;
                if k < n {
                    let mut r = r?;
                    let mut v = vec![];
                    let mut b = [0];
                    while !v.ends_with(b"\r\n\r\n") {
                        ensure!(r.read(&mut b).unwrap_or(0) == 1, "client {} received {:?}", k, String::from_utf8_lossy(&v));
                        v.push(b[0]);
                    }
                    let mut m = [0; 4];
                    r.read_exact(&mut m).map_err(|e| format!("client {} misses its message: {}", k, e))?;
                    ensure!(m[..2] == [0x81, 2] && m[2..] == *format!("{:02}", k).as_bytes(), "client {} received {}", k, hex(&m));
                    shim::reset_on_close(held[k]);
                }
            }
            c.trace(&(tls, seq.len(), n));
            Ok(())
        });
    }
}
/// boxes of streams, however deep, stand for the stream inside
fn boxes(x: &Ctx) {
    x.section("boxes", 4 * 3, |c, i| {
        let (depth, how) = (i / 3, i % 3);
        let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
        let s = TcpStream::connect(l.local_addr().map_err(herr)?).map_err(herr)?;
        let fd = s.as_raw_fd();
        let mut b: Box<dyn NetworkStream> = Box::new(s);
        for _ in 0..depth {
            b = Box::new(b);
        }
        c.step();
        ensure!(b.as_tcp().as_raw_fd() == fd, "a box {} deep gives another stream", depth);
        match how {
            0 => b.as_tcp().set_nodelay(true).map_err(herr)?,
            1 => b.as_tcp().set_nonblocking(true).map_err(herr)?,
            _ => b.as_tcp().shutdown(Shutdown::Write).map_err(herr)?,
        }
        ensure!(is_nodelay(fd)? == (how == 0) && is_nonblocking(fd) == (how == 1), "an option set through a box {} deep", depth);
        let (mut p, _) = l.accept().map_err(herr)?;
        if how == 2 {
            ensure!(p.read(&mut [0]).map_err(herr)? == 0, "shutdown through a box {} deep", depth);
        }
        shim::reset_on_close(p.as_raw_fd());
        c.state(&(depth, how));
        c.trace(&how);
        Ok(())
    });
}
pub fn c23(x: &Ctx) {
    x.assume("the kernel's loopback delivers what a completed write handed over as soon as its send queue is empty");
    shim::more_files();
    let o = [Over::Tcp, Over::Tls, Over::Boxed, Over::BoxedTls];
    x.bound(&format!(
        "all histories of {} operations of 11 kinds over the four ends of two plain connections, {} over TLS, boxed, dialled, split and mixed connections",
        x.tier(3, 4),
        x.tier(2, 3)
    ));
    histories(x, "plain", [(Over::Tcp, true); 2], x.tier(3, 4));
    for k in 0..4 {
        histories(x, &format!("dialled/{:?}", o[k]), [(o[k], false); 2], x.tier(2, 3));
    }
    for k in 1..4 {
        histories(x, &format!("own/{:?}", o[k]), [(o[k], true); 2], x.tier(2, 3));
    }
    histories(x, "halves/own", [(Over::Halves, true); 2], x.tier(3, 4));
    histories(x, "halves", [(Over::Halves, false), (Over::Tcp, false)], x.tier(2, 3));
    histories(x, "mixed", [(Over::Tcp, false), (Over::Tls, true)], x.tier(2, 3));
    histories(x, "mixed/boxed", [(Over::BoxedTls, false), (Over::Boxed, false)], x.tier(2, 3));
    pending(x);
    listening(x);
    boxes(x);
    crate::stall::others(x);
}
