//! C17: one connection attempt never blocks, corrupts or ends the server for others. Real servers on loopback,
//! clients scripted step by step from the same thread.
use crate::engine::*;
use crate::ensure;
use crate::fail;
use crate::http::*;
use crate::model::*;
use crate::shim;
use crate::tls::{acceptor, connector, herr};
use futures::sync::mpsc;
use futures::{Async, Future, Sink, Stream};
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::io::AsRawFd;
use std::time::{Duration, Instant};
use tokio::runtime::current_thread::Runtime;
use tokio::util::FutureExt;
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::client::r#async::Client as AsyncClient;
use websocket::r#async::server::{Incoming, Server as AsyncServer};
use websocket::r#async::Handle;
use websocket::server::upgrade::r#async::Upgrade;
use websocket::server::InvalidConnection;
use websocket::sync::Server;
use websocket::OwnedMessage;

const LONG: Duration = Duration::from_secs(40);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    /// valid, in two pieces
    Valid,
    /// valid in one piece, with a message right behind
    Piped,
    /// complete request, not a WebSocket one
    Invalid,
    /// not HTTP
    Garbage,
    /// half a request, then the end
    HalfClose,
    /// connects and leaves
    Gone,
    /// half a request, then a reset
    Reset,
    /// half a request, then nothing
    Stalled,
    /// TLS only: connects and says nothing
    Mute,
    /// TLS only: clear text
    Clear,
    /// TLS only: valid, the hello in two pieces
    TwoHello,
}
fn steps(k: K, tls: bool) -> usize {
    let hs = tls as usize;
    match k {
        K::Valid | K::HalfClose | K::Reset => 3 + hs,
        K::Piped | K::Invalid | K::Garbage | K::Stalled => 2 + hs,
        K::Gone | K::Clear => 2,
        K::Mute => 1,
        K::TwoHello => 4,
    }
}
fn finishes(k: K) -> bool {
    k != K::Stalled && k != K::Mute
}
enum Conn {
    None,
    Tcp(TcpStream),
    Tls(native_tls::TlsStream<TcpStream>),
}
struct Cl {
    id: usize,
    kind: K,
    step: usize,
    conn: Conn,
    addr: Option<SocketAddr>,
}
fn key_bytes(id: usize) -> [u8; 16] {
    let mut k = KEY_BYTES;
    k[0] = id as u8;
    k[1] = (id >> 8) as u8;
    k
}
fn key(id: usize) -> String {
    b64(&key_bytes(id))
}
thread_local! {
    /// odd clients' requests are this much longer
    static PAD: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
fn head_for(id: usize) -> Vec<u8> {
    let mut h = String::from_utf8(request(&format!("/c{}", id))).unwrap().replace(KEY, &key(id));
    let pad = PAD.with(|p| p.get());
    if pad > 0 && id % 2 == 1 {
        h.truncate(h.len() - 2);
        h.push_str(&format!("X-Pad: {}\r\n\r\n", "p".repeat(pad)));
    }
    h.into_bytes()
}
/// the server's task gets to run
fn drive(rt: &mut Runtime, n: usize) {
    let mut left = n;
    let _ = rt.block_on(futures::future::poll_fn(move || -> Result<Async<()>, ()> {
        if left == 0 {
            return Ok(Async::Ready(()));
        }
        left -= 1;
        futures::task::current().notify();
        Ok(Async::NotReady)
    }));
}
fn wait<F: Future>(rt: &mut Runtime, f: F, what: &str) -> Result<F::Item, String>
where
    F::Error: std::fmt::Debug,
{
    rt.block_on(f.timeout(LONG)).map_err(|e| {
        if e.is_elapsed() {
            format!("{}: nothing within {} s", what, LONG.as_secs())
        } else if let Some(i) = e.into_inner() {
            format!("{}: {:?}", what, i)
        } else {
            format!("{}: timer failed", HARNESS)
        }
    })
}
impl Cl {
    fn new(id: usize, kind: K) -> Cl {
        Cl { id, kind, step: 0, conn: Conn::None, addr: None }
    }
    /// non-blocking I/O while the server runs
    fn io<T>(&mut self, rt: &mut Runtime, what: &str, mut f: impl FnMut(&mut dyn RW) -> std::io::Result<T>) -> Result<T, String> {
        let t0 = Instant::now();
        loop {
            let r = match self.conn {
                Conn::None => return Err(format!("{}: client not connected", HARNESS)),
                Conn::Tcp(ref mut s) => f(s),
                Conn::Tls(ref mut s) => f(s),
            };
            match r {
                Ok(v) => return Ok(v),
                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
                    drive(rt, 1);
                    if t0.elapsed() > Duration::from_millis(5) {
                        let _ = wait(rt, tokio::timer::Delay::new(Instant::now() + Duration::from_millis(1)), "sleep");
                    }
                    ensure!(t0.elapsed() < LONG, "client {}: {}: nothing within {} s", self.id, what, LONG.as_secs());
                }
                Err(e) => return Err(format!("client {}: {}: {}", self.id, what, e)),
            }
        }
    }
    fn put(&mut self, rt: &mut Runtime, b: &[u8]) -> Res {
        let mut n = 0;
        while n < b.len() {
            n += self.io(rt, "write", |s| s.write(&b[n..]))?;
        }
        Ok(())
    }
    fn take(&mut self, rt: &mut Runtime, n: usize) -> Result<Vec<u8>, String> {
        let mut v = vec![0; n];
        let mut p = 0;
        while p < n {
            let k = self.io(rt, "read", |s| s.read(&mut v[p..]))?;
            ensure!(k > 0, "client {}: the server closed the connection", self.id);
            p += k;
        }
        Ok(v)
    }
    fn take_head(&mut self, rt: &mut Runtime) -> Result<Vec<u8>, String> {
        let mut v = vec![];
        while !v.ends_with(b"\r\n\r\n") {
            v.extend(self.take(rt, 1)?);
        }
        Ok(v)
    }
    fn kill(&mut self, reset: bool) {
        let fd = match self.conn {
            Conn::None => return,
            Conn::Tcp(ref s) => s.as_raw_fd(),
            Conn::Tls(ref s) => s.get_ref().as_raw_fd(),
        };
        if reset {
            shim::reset_on_close(fd);
        }
        self.conn = Conn::None;
    }
    /// the next step; true: an outcome of this attempt is due
    fn go(&mut self, rt: &mut Runtime, at: SocketAddr, tls: bool) -> Result<bool, String> {
        let n = self.step;
        self.step += 1;
        let h = head_for(self.id);
        let half = h.len() / 2;
        if n == 0 {
            let s = TcpStream::connect(at).map_err(herr)?;
            s.set_nodelay(true).map_err(herr)?;
            s.set_nonblocking(true).map_err(herr)?;
            self.addr = Some(s.local_addr().map_err(herr)?);
            self.conn = Conn::Tcp(s);
            return Ok(false);
        }
        let hs = tls && !matches!(self.kind, K::Gone | K::Clear | K::Mute);
        if hs && n == 1 {
            let s = match std::mem::replace(&mut self.conn, Conn::None) {
                Conn::Tcp(s) => s,
                _ => return Err(format!("{}: no socket", HARNESS)),
            };
            let t0 = Instant::now();
            let mut r = connector()?.connect("localhost", s);
            loop {
                match r {
                    Ok(s) => {
                        self.conn = Conn::Tls(s);
                        return Ok(false);
                    }
                    Err(native_tls::HandshakeError::WouldBlock(m)) => {
                        ensure!(t0.elapsed() < LONG, "client {}: TLS handshake: nothing within {} s", self.id, LONG.as_secs());
                        drive(rt, 1);
                        if t0.elapsed() > Duration::from_millis(20) {
                            let _ = wait(rt, tokio::timer::Delay::new(Instant::now() + Duration::from_millis(1)), "sleep");
                        }
                        r = m.handshake();
                    }
                    Err(e) => fail!("client {}: TLS handshake: {}", self.id, e),
                }
            }
        }
        let n = if hs { n - 1 } else { n };
        match (self.kind, n) {
            (K::Valid, 1) | (K::TwoHello, 1) | (K::HalfClose, 1) | (K::Reset, 1) | (K::Stalled, 1) => {
                self.put(rt, &h[..half])?;
                Ok(false)
            }
            (K::Valid, _) | (K::TwoHello, _) => {
                self.put(rt, &h[half..])?;
                Ok(true)
            }
            (K::Piped, _) => {
                let mut v = h;
                v.extend(fr(true, 1, format!("early{}", self.id).as_bytes()).to(true, 1).bytes());
                self.put(rt, &v)?;
                Ok(true)
            }
            (K::Invalid, _) => {
                let v = String::from_utf8(h).unwrap().replacen("GET", "POST", 1);
                self.put(rt, v.as_bytes())?;
                Ok(true)
            }
            (K::Garbage, _) => {
                self.put(rt, b"\x16\x03\x01 not http\r\n\r\n")?;
                Ok(true)
            }
            (K::Clear, _) => {
                self.put(rt, &h)?;
                Ok(true)
            }
            (K::HalfClose, _) | (K::Gone, _) => {
                self.kill(false);
                Ok(true)
            }
            (K::Reset, _) => {
                self.kill(true);
                Ok(true)
            }
            (K::Stalled, _) | (K::Mute, _) => Err(format!("{}: no such step", HARNESS)),
        }
    }
}
trait RW: Read + Write {}
impl<T: Read + Write> RW for T {}

type Out<S> = Result<(Upgrade<S>, SocketAddr), InvalidConnection<S, bytes::BytesMut>>;
struct Srv<S: AsyncRead + AsyncWrite + Send + 'static> {
    rt: Runtime,
    rx: mpsc::UnboundedReceiver<Out<S>>,
    at: SocketAddr,
    peer: fn(&S) -> Option<SocketAddr>,
    tls: bool,
    held: Vec<(usize, Upgrade<S>)>,
    live: Vec<(usize, AsyncClient<S>)>,
}
impl<S: AsyncRead + AsyncWrite + Send + 'static> Srv<S> {
    fn new(inc: impl FnOnce() -> Result<(Incoming<S>, SocketAddr), String>, peer: fn(&S) -> Option<SocketAddr>, tls: bool) -> Result<Srv<S>, String> {
        let mut rt = Runtime::new().map_err(herr)?;
        let (tx, rx) = mpsc::unbounded();
        let (inc, at) = inc()?;
        rt.spawn(
            inc.then(Ok::<Out<S>, ()>)
                .for_each(move |r| tx.unbounded_send(r).map_err(|_| ())),
        );
        Ok(Srv { rt, rx, at, peer, tls, held: vec![], live: vec![] })
    }
    /// the next outcome the server reports, matched to its client; with a due client, it has to be that one
    fn outcome(&mut self, cls: &mut [Cl], open: &mut Vec<usize>, due: Option<usize>, hold: bool) -> Res {
        let what = match due {
            Some(d) => format!("client {} ({:?}) is complete, others unfinished: outcome", d, cls[d].kind),
            None => "attempts are over: outcome".into(),
        };
        let rx = std::mem::replace(&mut self.rx, mpsc::unbounded().1);
        let (r, rx) = wait(&mut self.rt, rx.into_future().map_err(|_| ()), &what)?;
        self.rx = rx;
        let r = match r {
            None => fail!("the server's stream of connections ended"),
            Some(r) => r,
        };
        // addresses of clients long gone are used again
        let still: Vec<bool> = (0..cls.len()).map(|i| open.contains(&i)).collect();
        let find = |cls: &[Cl], path: Option<String>, addr: Option<SocketAddr>| -> Option<usize> {
            let same = |c: &Cl| match &path {
                Some(p) => *p == format!("/c{}", c.id),
                None => addr.is_some() && c.addr == addr,
            };
            cls.iter().position(|c| still[c.id] && same(c)).or_else(|| cls.iter().position(same))
        };
        let path_of = |u: &hyper::uri::RequestUri| u.to_string();
        match r {
            Ok((u, addr)) => {
                let path = path_of(&u.request.subject.1);
                let i = find(cls, Some(path.clone()), None).ok_or(format!("an upgrade with unknown request {}", path))?;
                let k = cls[i].kind;
                ensure!(matches!(k, K::Valid | K::Piped | K::TwoHello), "an upgrade for client {} ({:?})", i, k);
                ensure!(cls[i].addr == Some(addr), "request {} paired with address {} of another client", path, addr);
                ensure!(u.key() == Some(&key_bytes(i)), "request {} with the key of another client", path);
                ensure!(due.map_or(true, |d| d == i), "outcome of client {}, but client {:?} is due", i, due);
                ensure!(open.contains(&i), "second outcome for client {}", i);
                open.retain(|o| *o != i);
                if hold {
                    self.held.push((i, u));
                    Ok(())
                } else {
                    self.converse(&mut cls[i], u)
                }
            }
            Err(e) => {
                let peer = e.stream.as_ref().and_then(|s| (self.peer)(s));
                let path = e.parsed.as_ref().map(|p| path_of(&p.subject.1));
                let shown = format!("error {:?} (stream {}, parsed {:?})", e.error, e.stream.is_some(), path);
                if let (Some(p), Some(a)) = (&path, peer) {
                    let i = find(cls, Some(p.clone()), None);
                    ensure!(i.map_or(false, |i| cls[i].addr == Some(a)), "{}: paired with the stream of {}", shown, a);
                }
                let i = match find(cls, path.clone(), peer) {
                    Some(i) => i,
                    None => {
                        // nothing to identify the attempt with: any which may fail like this
                        let may = |k: K| match k {
                            K::Reset => true,
                            K::Gone | K::Clear => self.tls,
                            _ => false,
                        };
                        let c = due.filter(|d| may(cls[*d].kind)).or_else(|| open.iter().cloned().find(|i| may(cls[*i].kind)));
                        c.ok_or(format!("{} cannot be that of any unfinished attempt", shown))?
                    }
                };
                let k = cls[i].kind;
                ensure!(!matches!(k, K::Valid | K::Piped | K::TwoHello), "client {} ({:?}) is reported as {}", i, k, shown);
                ensure!(due.map_or(true, |d| d == i), "outcome of client {} ({}), but client {:?} is due", i, shown, due);
                ensure!(open.contains(&i), "second outcome for client {}: {}", i, shown);
                open.retain(|o| *o != i);
                match k {
                    K::Invalid => {
                        ensure!(path.is_some() && e.stream.is_some(), "{} lacks the request or the stream", shown);
                        // it can be answered
                        let s = e.stream.unwrap();
                        let w = tokio_io::io::write_all(s, &b"HTTP/1.1 400 Bad Request\r\n\r\n"[..]).and_then(|(s, _)| tokio_io::io::flush(s));
                        wait(&mut self.rt, w, "answering a refused request")?;
                        let h = cls[i].take_head(&mut self.rt)?;
                        ensure!(h == b"HTTP/1.1 400 Bad Request\r\n\r\n", "refused client {} reads {:?}", i, String::from_utf8_lossy(&h));
                    }
                    K::Garbage => ensure!(path.is_none() && e.stream.is_some(), "{} for garbage", shown),
                    _ => ensure!(path.is_none(), "{} for an incomplete request", shown),
                }
                Ok(())
            }
        }
    }
    fn converse(&mut self, c: &mut Cl, u: Upgrade<S>) -> Res {
        let i = c.id;
        let (f, _) = wait(&mut self.rt, u.accept(), &format!("accept of client {}", i))?;
        let h = c.take_head(&mut self.rt)?;
        let h = parse_head(&h)?;
        ensure!(h.start.starts_with("HTTP/1.1 101"), "client {}: {}", i, h.start);
        ensure!(h.one("Sec-WebSocket-Accept").map_err(|e| format!("client {}: {:?}", i, e))? == accept_for(&key(i)), "client {} got the accept value of another key", i);
        self.live.push((i, f));
        let n = self.live.len() - 1;
        if c.kind == K::Piped {
            self.receive(n, &format!("early{}", i))?;
        }
        self.exchange(n, c, "first")
    }
    fn receive(&mut self, n: usize, want: &str) -> Res {
        let (i, f) = self.live.swap_remove(n);
        let (m, f) = wait(&mut self.rt, f.into_future().map_err(|e| e.0), &format!("message of client {}", i))?;
        ensure!(m == Some(OwnedMessage::Text(want.into())), "client {} sent {:?}, received {:?}", i, want, m);
        self.live.push((i, f));
        let l = self.live.len();
        self.live.swap(n, l - 1);
        Ok(())
    }
    fn exchange(&mut self, n: usize, c: &mut Cl, tag: &str) -> Res {
        let i = c.id;
        let t = format!("{} from {}", tag, i);
        c.put(&mut self.rt, &fr(true, 1, t.as_bytes()).to(true, 3).bytes())?;
        self.receive(n, &t)?;
        let t = format!("{} to {}", tag, i);
        let (i2, f) = self.live.swap_remove(n);
        let f = wait(&mut self.rt, f.send(OwnedMessage::Text(t.clone())), &format!("send to client {}", i))?;
        self.live.push((i2, f));
        let l = self.live.len();
        self.live.swap(n, l - 1);
        let want = fr(true, 1, t.as_bytes()).bytes();
        let got = c.take(&mut self.rt, want.len())?;
        ensure!(got == want, "client {} received {}", i, hex(&got));
        Ok(())
    }
    /// everything the test of one history does after the clients' steps
    fn wind_up(&mut self, cls: &mut [Cl], open: &mut Vec<usize>, late: usize, c: &mut Case) -> Res {
        let finished: Vec<usize> = open.iter().cloned().filter(|i| finishes(cls[*i].kind)).collect();
        for _ in finished {
            c.step();
            self.outcome(cls, open, None, true)?;
        }
        // answered late, in either order
        let mut held: VecDeque<_> = std::mem::replace(&mut self.held, vec![]).into();
        while let Some((i, u)) = if late == 1 { held.pop_front() } else { held.pop_back() } {
            c.step();
            self.converse(&mut cls[i], u)?;
        }
        for n in 0..self.live.len() {
            let i = self.live[n].0;
            c.step();
            self.exchange(n, &mut cls[i], "again")?;
        }
        // the unfinished ones leave: one error each, and the server still serves
        let rest: Vec<usize> = open.clone();
        for i in rest {
            c.step();
            cls[i].kill(i % 2 == 1);
            // which is then like an attempt that was broken off
            cls[i].kind = if self.tls && cls[i].kind == K::Mute { K::Gone } else { K::Reset };
            self.outcome(cls, open, Some(i), false)?;
        }
        ensure!(open.is_empty(), "{}: attempts without outcome", HARNESS);
        Ok(())
    }
    fn one_more(&mut self, id: usize) -> Res {
        let mut cls: Vec<Cl> = (0..=id).map(|i| Cl::new(i, K::Valid)).collect();
        let mut open = vec![id];
        let n = steps(K::Valid, self.tls);
        for _ in 0..n {
            cls[id].go(&mut self.rt, self.at, self.tls)?;
        }
        self.outcome(&mut cls, &mut open, Some(id), false).map_err(|e| format!("a further client: {}", e))?;
        cls[id].kill(true);
        Ok(())
    }
}
fn plain(sync_bound: bool) -> Result<Srv<tokio_tcp::TcpStream>, String> {
    Srv::new(
        || {
            let s = if sync_bound {
                Server::bind("127.0.0.1:0").and_then(|s| s.into_async(&Handle::default()))
            } else {
                AsyncServer::bind("127.0.0.1:0", &Handle::default())
            }
            .map_err(herr)?;
            let at = s.local_addr().map_err(herr)?;
            Ok((s.incoming(), at))
        },
        |s| s.peer_addr().ok(),
        false,
    )
}
type ATls = websocket::r#async::client::TlsStream<tokio_tcp::TcpStream>;
fn secure(sync_bound: bool) -> Result<Srv<ATls>, String> {
    Srv::new(
        || {
            let s = if sync_bound {
                Server::bind_secure("127.0.0.1:0", acceptor(0)?).and_then(|s| s.into_async(&Handle::default()))
            } else {
                AsyncServer::bind_secure("127.0.0.1:0", acceptor(0)?, &Handle::default())
            }
            .map_err(herr)?;
            let at = s.local_addr().map_err(herr)?;
            Ok((s.incoming(), at))
        },
        |s| s.get_ref().get_ref().peer_addr().ok(),
        true,
    )
}
/// all orders of the steps of clients with `n` steps each
fn orders(n: &[usize]) -> Vec<Vec<usize>> {
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                rec(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    rec(&mut n.to_vec(), &mut vec![], &mut out);
    out
}
/// (kinds, orders of their steps), all selections of `n` of the kinds with repetition
fn histories(kinds: &[K], n: usize, tls: bool) -> Vec<(Vec<K>, Vec<usize>)> {
    fn rec(kinds: &[K], from: usize, n: usize, cur: &mut Vec<K>, tls: bool, out: &mut Vec<(Vec<K>, Vec<usize>)>) {
        if n == 0 {
            let st: Vec<usize> = cur.iter().map(|k| steps(*k, tls)).collect();
            for o in orders(&st) {
                out.push((cur.clone(), o));
            }
            return;
        }
        for i in from..kinds.len() {
            cur.push(kinds[i]);
            rec(kinds, i, n - 1, cur, tls, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(kinds, 0, n, &mut vec![], tls, &mut out);
    out
}
/// mode: bit 0 = the server only runs after all steps; answers: 0 at once, 1 late in order, 2 late in reverse
fn history<S: AsyncRead + AsyncWrite + Send + 'static>(srv: &mut Srv<S>, kinds: &[K], order: &[usize], at_end: bool, late: usize, c: &mut Case) -> Res {
    let mut cls: Vec<Cl> = kinds.iter().enumerate().map(|(i, k)| Cl::new(i, *k)).collect();
    let mut open: Vec<usize> = (0..cls.len()).collect();
    let r = (|| {
        for i in order {
            c.step();
            let due = cls[*i].go(&mut srv.rt, srv.at, srv.tls)?;
            if !at_end {
                if due {
                    srv.outcome(&mut cls, &mut open, Some(*i), late != 0)?;
                } else {
                    drive(&mut srv.rt, 2);
                }
            }
        }
        srv.wind_up(&mut cls, &mut open, late, c)?;
        srv.one_more(kinds.len())
    })();
    // nothing left behind in TIME_WAIT
    for cl in &mut cls {
        cl.kill(true);
    }
    r
}

pub fn c17(x: &Ctx) {
    shim::selftest();
    shim::more_files();
    let all = [K::Valid, K::Piped, K::Invalid, K::Garbage, K::HalfClose, K::Gone, K::Reset, K::Stalled];
    x.bound("asynchronous server on loopback, plain: 2 clients of 8 kinds, 3 clients of 8 kinds, every order of their steps, the server running after each step or only at the end, upgrades answered at once, later, or later in reverse; then one more client");
    let h2 = histories(&all, 2, false);
    x.section("plain/two", (h2.len() * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let (at_end, late) = (ix.take(2) == 1, ix.take(3));
        let (k, o) = &h2[ix.take(h2.len())];
        c.note = format!("clients {:?} steps {:?} server at the end {} answers {}", k, o, at_end, late);
        c.state(&(format!("{:?}", k), o, at_end, late));
        let mut srv = plain(i % 2 == 1)?;
        history(&mut srv, k, o, at_end, late, c)?;
        c.trace(&(format!("{:?}", k), at_end, late));
        Ok(())
    });
    let h3 = histories(&all, 3, false);
    x.section("plain/three", h3.len() as u64 * x.tier(1, 6), |c, i| {
        let mut ix = Ix(i);
        let (k, o) = &h3[ix.take(h3.len())];
        let v = ix.take(6);
        let (at_end, late) = if x.thorough { (v % 2 == 1, v / 2) } else { (i % 2 == 1, (i / 2 % 3) as usize) };
        c.note = format!("clients {:?} steps {:?} server at the end {} answers {}", k, o, at_end, late);
        c.state(&(format!("{:?}", k), o, at_end, late));
        let mut srv = plain(i % 2 == 1)?;
        history(&mut srv, k, o, at_end, late, c)?;
        c.trace(&(format!("{:?}", k), at_end, late));
        Ok(())
    });
    let tls = [K::Valid, K::Piped, K::Invalid, K::HalfClose, K::Gone, K::Stalled, K::Mute, K::Clear];
    x.bound("the same with TLS: 2 clients of 8 kinds (also silent before the TLS handshake and clear text); thorough: 3 clients of 5 kinds");
    let t2 = histories(&tls, 2, true);
    x.section("tls/two", t2.len() as u64 * x.tier(1, 6), |c, i| {
        let mut ix = Ix(i);
        let (k, o) = &t2[ix.take(t2.len())];
        let v = ix.take(6);
        let (at_end, late) = if x.thorough { (v % 2 == 1, v / 2) } else { (i % 2 == 1, (i / 2 % 3) as usize) };
        c.note = format!("TLS clients {:?} steps {:?} server at the end {} answers {}", k, o, at_end, late);
        c.state(&(format!("{:?}", k), o, at_end, late));
        let mut srv = secure(i % 2 == 1)?;
        history(&mut srv, k, o, at_end, late, c)?;
        c.trace(&(format!("{:?}", k), at_end, late));
        Ok(())
    });
    let t3 = histories(&[K::Valid, K::Invalid, K::Gone, K::Stalled, K::Mute], 3, true);
    x.section("tls/three", x.tier(t3.len() as u64 / 16, t3.len() as u64), |c, i| {
        let (k, o) = &t3[x.tier(i as usize * 16 + i as usize % 16, i as usize)];
        let (at_end, late) = (i % 2 == 1, (i / 2 % 3) as usize);
        c.note = format!("TLS clients {:?} steps {:?} server at the end {} answers {}", k, o, at_end, late);
        c.state(&(format!("{:?}", k), o, at_end, late));
        let mut srv = secure(i % 2 == 1)?;
        history(&mut srv, k, o, at_end, late, c)?;
        c.trace(&(format!("{:?}", k), at_end, late));
        Ok(())
    });
    let f4 = histories(&[K::Valid, K::Invalid, K::Stalled, K::Gone], 4, false);
    let f4n = f4.len() as u64;
    let pick = x.tier(11, 1);
    x.bound("plain: 4 clients of 4 kinds, every order of their steps (quick: every 11th)");
    x.section("plain/four", f4n / pick, |c, i| {
        let (k, o) = &f4[(i * pick) as usize];
        let (at_end, late) = (i % 2 == 1, (i / 2 % 3) as usize);
        c.note = format!("clients {:?} steps {:?} server at the end {} answers {}", k, o, at_end, late);
        c.state(&(format!("{:?}", k), o, at_end, late));
        let mut srv = plain(i % 2 == 1)?;
        history(&mut srv, k, o, at_end, late, c)?;
        c.trace(&(format!("{:?}", k), at_end, late));
        Ok(())
    });
    x.bound("4500 (TLS: 1100) unfinished clients before a valid one, silent, with half a request, or before the TLS handshake");
    x.section_t("unfinished", 4, 1, |c, i| {
        let tls = i >= 2;
        let kind = if i % 2 == 1 { K::Stalled } else if tls { K::Mute } else { K::Gone };
        let n = if tls { if kind == K::Mute { 1100 } else { 300 } } else { 4500 };
        c.note = format!("{} clients of kind {:?}, TLS {}", n, kind, tls);
        c.state(&i);
        if tls {
            many(&mut secure(false)?, kind, n, c)?;
        } else {
            many(&mut plain(false)?, kind, n, c)?;
        }
        c.trace(&i);
        Ok(())
    });
    x.bound("asynchronous server, 3 valid clients: accept fails with ECONNABORTED, EMFILE or works (every sequence of 4 outcomes), getpeername fails for any of the clients");
    x.bound("3 valid clients after (and between) 1..40 and up to 300 failures of accept of 11 kinds");
    const KINDS: [i32; 11] = [103, 24, 23, 105, 12, 71, 104, 1, 110, 113, 22];
    let mut ns: Vec<usize> = (1..=40).collect();
    ns.extend_from_slice(&[64, 100, 128, 129, 256, 300]);
    x.section("failing-accept/long", (ns.len() * 11 * 2 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let e = KINDS[ix.take(11)];
        let tls = ix.take(2) == 1;
        let between = ix.take(2) == 1;
        let n = ns[ix.0 as usize];
        let mut s = vec![e; n];
        if between {
            s.insert(n / 2, 0);
            s.insert(n / 3, 0);
        }
        c.note = format!("accept fails {} times with {} {}, TLS {}", n, e, if between { "and works in between" } else { "first" }, tls);
        c.state(&i);
        if tls {
            failing(&mut secure(false)?, s, vec![], false, c)?;
        } else {
            failing(&mut plain(false)?, s, vec![], false, c)?;
        }
        c.trace(&(e, tls));
        Ok(())
    });
    let fin = [K::Valid, K::Piped, K::Invalid, K::Garbage, K::HalfClose, K::Gone, K::Reset];
    x.bound("long histories: attempts repeating every pattern of up to 2 of 7 kinds (TLS 6), and all kinds in turn, one after another or the server running at the end: 100 (plain, thorough 400; every kind in turn 600) and 30 (TLS) attempts; blocking server 100 (TLS 30); requests of up to 100 KB beside short ones");
    let nl = x.tier(100, 400);
    x.section("plain/long", (seq_count(7, 2) * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(3);
        let pat = seq_of(7, ix.0);
        let n = if pat.is_empty() { 600 } else { nl };
        let ks: Vec<K> = (0..n).map(|k| if pat.is_empty() { fin[(k + k / 7) % 7] } else { fin[pat[k % pat.len()]] }).collect();
        // the listener's queue is finite
        let n = if v == 2 { n.min(100) } else { n };
        let ks = &ks[..n];
        let order: Vec<usize> = (0..n).flat_map(|k| vec![k; steps(ks[k], false)]).collect();
        c.note = format!("{} clients of kinds repeating {:?}, server at the end {}, answers {}", n, pat.iter().map(|k| fin[*k]).collect::<Vec<_>>(), v == 2, v);
        c.state(&i);
        let mut srv = plain(i % 2 == 1)?;
        history(&mut srv, ks, &order, v == 2, if v == 0 { 0 } else { v }, c)?;
        c.trace(&i);
        Ok(())
    });
    let fint = [K::Valid, K::Piped, K::Invalid, K::HalfClose, K::Gone, K::Clear];
    x.section("tls/long", seq_count(6, 2), |c, i| {
        let pat = seq_of(6, i);
        let n = if pat.is_empty() { 120 } else { 30 };
        let ks: Vec<K> = (0..n).map(|k| if pat.is_empty() { fint[(k + k / 6) % 6] } else { fint[pat[k % pat.len()]] }).collect();
        let order: Vec<usize> = (0..n).flat_map(|k| vec![k; steps(ks[k], true)]).collect();
        c.note = format!("{} TLS clients of kinds repeating {:?}", n, pat.iter().map(|k| fint[*k]).collect::<Vec<_>>());
        c.state(&i);
        let mut srv = secure(i % 2 == 1)?;
        history(&mut srv, &ks, &order, false, (i % 3) as usize, c)?;
        c.trace(&i);
        Ok(())
    });
    let pads = [1000usize, 4000, 4097, 8192, 20000, 100_000];
    x.section("plain/padded", (h2.len() * pads.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let (k, o) = &h2[ix.take(h2.len())];
        let pad = pads[ix.0 as usize];
        c.note = format!("clients {:?} steps {:?}, the second's request {} bytes longer", k, o, pad);
        c.state(&i);
        let late = i as usize % 3;
        let mut srv = plain(i % 2 == 1)?;
        PAD.with(|p| p.set(pad));
        let r = guarded(|| history(&mut srv, k, o, false, late, c));
        PAD.with(|p| p.set(0));
        r??;
        c.trace(&(format!("{:?}", k), pad));
        Ok(())
    });
    let err = [0, shim::ECONNABORTED, shim::EMFILE];
    x.section("failing-accept", 81 * 2 * 2 + 16, |c, i| {
        if i < 81 * 4 {
            let mut ix = Ix(i);
            let s: Vec<i32> = (0..4).map(|_| *ix.pick(&err)).collect();
            let at_end = ix.take(2) == 1;
            let tls = ix.take(2) == 1;
            c.note = format!("accept outcomes {:?}, server at the end {}, TLS {}", s, at_end, tls);
            c.state(&(&s, at_end, tls));
            if tls {
                failing(&mut secure(false)?, s, vec![], at_end, c)?;
            } else {
                failing(&mut plain(false)?, s, vec![], at_end, c)?;
            }
        } else {
            let mut ix = Ix(i - 81 * 4);
            let m = ix.take(4);
            let s: Vec<i32> = (0..3).map(|k| if k == m { shim::ENOTCONN } else { 0 }).collect();
            let at_end = ix.take(2) == 1;
            let tls = ix.take(2) == 1;
            c.note = format!("getpeername outcomes {:?}, server at the end {}, TLS {}", s, at_end, tls);
            c.state(&(&s, at_end, tls));
            if tls {
                failing(&mut secure(false)?, vec![], s, at_end, c)?;
            } else {
                failing(&mut plain(false)?, vec![], s, at_end, c)?;
            }
        }
        c.trace(&i);
        Ok(())
    });
    let bk: Vec<Option<K>> = [K::Valid, K::Piped, K::Invalid, K::Garbage, K::Gone, K::HalfClose, K::Reset].iter().map(|k| Some(*k)).chain(Some(None)).collect();
    let depth = x.tier(4, 5);
    x.bound("blocking server, plain: every sequence of up to 4 (thorough 5) of 8 events (7 kinds of client, failing accept), through accept, the iterator or a cloned handle, then a further client");
    x.section("blocking/plain", seq_count(8, depth), |c, i| {
        let ks: Vec<Option<K>> = seq_of(8, i).iter().map(|k| bk[*k]).collect();
        c.note = format!("events {:?} variant {}", ks, i % 5);
        c.state(&i);
        blocking_plain(&ks, (i % 5) as usize, c)?;
        c.trace(&format!("{:?}", ks));
        Ok(())
    });
    x.section("blocking/plain/long", seq_count(8, 2) * 5, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(5);
        let pat = seq_of(8, ix.0);
        let ks: Vec<Option<K>> = (0..100).map(|k| if pat.is_empty() { bk[(k + k / 8) % 8] } else { bk[pat[k % pat.len()]] }).collect();
        c.note = format!("100 events repeating {:?} variant {}", pat.iter().map(|k| bk[*k]).collect::<Vec<_>>(), v);
        c.state(&i);
        blocking_plain(&ks, v, c)?;
        c.trace(&i);
        Ok(())
    });
    let bt = [K::Valid, K::Invalid, K::Gone, K::Clear, K::HalfClose, K::Reset];
    x.section("blocking/tls/long", seq_count(6, 2), |c, i| {
        let pat = seq_of(6, i);
        let ks: Vec<K> = (0..30).map(|k| if pat.is_empty() { bt[(k + k / 6) % 6] } else { bt[pat[k % pat.len()]] }).collect();
        c.note = format!("30 TLS clients repeating {:?}", pat.iter().map(|k| bt[*k]).collect::<Vec<_>>());
        c.state(&i);
        blocking_tls(&ks, i % 2 == 1, c)?;
        c.trace(&i);
        Ok(())
    });
    let depth = x.tier(3, 4);
    x.bound("blocking server with TLS: every sequence of up to 3 (thorough 4) of 6 kinds of client");
    x.section("blocking/tls", seq_count(6, depth), |c, i| {
        let ks: Vec<K> = seq_of(6, i).iter().map(|k| bt[*k]).collect();
        c.note = format!("TLS clients {:?} variant {}", ks, i % 2);
        c.state(&i);
        blocking_tls(&ks, i % 2 == 1, c)?;
        c.trace(&format!("{:?}", ks));
        Ok(())
    });
}
/// many unfinished clients, then a valid one; then they leave
fn many<S: AsyncRead + AsyncWrite + Send + 'static>(srv: &mut Srv<S>, kind: K, n: usize, c: &mut Case) -> Res {
    let mut cls: Vec<Cl> = vec![];
    let r = (|| {
        for id in 0..n {
            let mut cl = Cl::new(id, kind);
            // kind Gone: connected, silent
            let m = if kind == K::Stalled { steps(kind, srv.tls) } else { 1 };
            for _ in 0..m {
                c.step();
                cl.go(&mut srv.rt, srv.at, srv.tls)?;
            }
            cls.push(cl);
            if id % 16 == 0 {
                drive(&mut srv.rt, 2);
            }
            if id % 100 == 99 {
                srv.one_more(n).map_err(|e| format!("with {} unfinished clients: {}", id + 1, e))?;
            }
        }
        srv.one_more(n).map_err(|e| format!("with {} unfinished clients: {}", n, e))?;
        // an arbitrary one of them goes on
        if kind == K::Gone && !srv.tls {
            for id in &[0, n / 2, n - 1] {
                cls[*id].kind = K::Valid;
                let mut open = vec![*id];
                cls[*id].go(&mut srv.rt, srv.at, srv.tls)?;
                cls[*id].go(&mut srv.rt, srv.at, srv.tls)?;
                srv.outcome(&mut cls, &mut open, Some(*id), false)?;
            }
        }
        Ok(())
    })();
    for cl in &mut cls {
        cl.kill(true);
    }
    r
}
fn failing<S: AsyncRead + AsyncWrite + Send + 'static>(srv: &mut Srv<S>, acc: Vec<i32>, peers: Vec<i32>, at_end: bool, c: &mut Case) -> Res {
    let port = srv.at.port();
    let na = acc.len();
    let victim = peers.iter().position(|p| *p != 0);
    shim::script_accepts(port, acc.clone());
    shim::script_peers(port, peers);
    let mut cls: Vec<Cl> = (0..3).map(|i| Cl::new(i, K::Valid)).collect();
    let r = (|| {
        let mut ups = vec![];
        let mut errs = vec![];
        for i in 0..3 {
            let n = if srv.tls && victim == Some(i) { 1 } else { steps(K::Valid, srv.tls) };
            for _ in 0..n {
                c.step();
                cls[i].go(&mut srv.rt, srv.at, srv.tls)?;
            }
            if !at_end || i == 2 {
                // all those complete so far, the victim aside
                loop {
                    let served = |v: Option<usize>| (0..=i).filter(|k| Some(*k) != v).all(|k| ups.contains(&k));
                    if served(victim) && (victim.map_or(true, |v| v > i) || ups.contains(&victim.unwrap()) || !errs.is_empty()) {
                        break;
                    }
                    let rx = std::mem::replace(&mut srv.rx, mpsc::unbounded().1);
                    let (r, rx) = wait(&mut srv.rt, rx.into_future().map_err(|_| ()), &format!("3 valid clients, {:?} served", ups))?;
                    srv.rx = rx;
                    match r {
                        None => fail!("the server's stream of connections ended after {:?} and errors {:?}", ups, errs),
                        Some(Ok((u, a))) => {
                            let p = u.request.subject.1.to_string();
                            let k = (0..3).find(|k| p == format!("/c{}", k)).ok_or(format!("unknown request {}", p))?;
                            ensure!(!ups.contains(&k), "second upgrade for client {}", k);
                            ensure!(cls[k].addr == Some(a), "request {} paired with address {} of another client", p, a);
                            ups.push(k);
                            srv.converse(&mut cls[k], u)?;
                        }
                        Some(Err(e)) => {
                            ensure!(e.stream.is_none() && e.parsed.is_none(), "error {:?} for a valid client", e.error);
                            errs.push(match e.error {
                                websocket::server::upgrade::HyperIntoWsError::Io(ref e) => e.raw_os_error().unwrap_or(0),
                                ref e => fail!("error {:?} for a valid client", e),
                            });
                        }
                    }
                }
            }
        }
        // the failures drawn so far are those reported
        let drawn = na - shim::accepts_left(port);
        if victim.is_none() {
            let want: Vec<i32> = acc[..drawn].iter().cloned().filter(|e| *e != 0).collect();
            // one that failed after the last client may still be on its way
            ensure!(want.starts_with(&errs) && want.len() <= errs.len() + 4, "accept failed with {:?}, reported {:?}", want, errs);
            let mut extra = vec![];
            for _ in errs.len()..want.len() {
                let rx = std::mem::replace(&mut srv.rx, mpsc::unbounded().1);
                let (r, rx) = wait(&mut srv.rt, rx.into_future().map_err(|_| ()), &format!("accept failed with {:?}, reported {:?}", want, errs))?;
                srv.rx = rx;
                match r {
                    Some(Err(ref e)) => extra.push(format!("{:?}", e.error)),
                    Some(Ok((u, _))) => fail!("an upgrade for {}", u.request.subject.1),
                    None => fail!("the server's stream of connections ended"),
                }
            }
        } else {
            ensure!(errs.len() <= 1, "getpeername failed once, reported {:?}", errs);
        }
        shim::clear_scripts(port);
        srv.one_more(3)
    })();
    shim::clear_scripts(port);
    for cl in &mut cls {
        cl.kill(true);
    }
    r
}
type BRes<S> = websocket::server::sync::AcceptResult<S>;
/// one result of a blocking server, for client `id` of kind `k`; the session if there is one
fn blocking_result<S: Read + Write>(r: BRes<S>, id: usize, k: K, addr: SocketAddr, peer: fn(&S) -> Option<SocketAddr>) -> Result<Result<websocket::server::upgrade::sync::Upgrade<S>, Option<S>>, String> {
    match r {
        Ok(u) => {
            ensure!(matches!(k, K::Valid | K::Piped), "an upgrade {} for client {} ({:?})", u.request.subject.1, id, k);
            ensure!(u.request.subject.1.to_string() == format!("/c{}", id), "client {} is next, but the request is {}", id, u.request.subject.1);
            ensure!(peer(&u.stream) == Some(addr), "request of client {} on the stream of another", id);
            ensure!(u.key() == Some(&key_bytes(id)), "client {} with the key of another", id);
            Ok(Ok(u))
        }
        Err(e) => {
            let path = e.parsed.as_ref().map(|p| p.subject.1.to_string());
            let p = e.stream.as_ref().and_then(|s| peer(s));
            let shown = format!("error {:?} (stream {}, parsed {:?})", e.error, e.stream.is_some(), path);
            ensure!(!matches!(k, K::Valid | K::Piped), "client {} ({:?}) is reported as {}", id, k, shown);
            ensure!(p.map_or(true, |p| p == addr), "client {} is next, but the stream is that of {:?}: {}", id, p, shown);
            if k == K::Invalid {
                ensure!(path == Some(format!("/c{}", id)) && e.stream.is_some(), "client {} is next: {}", id, shown);
            } else {
                ensure!(path.is_none(), "client {} ({:?}) is next: {}", id, k, shown);
            }
            Ok(Err(e.stream))
        }
    }
}
/// what a client of a blocking server sends before it waits
fn blocking_bytes(id: usize, k: K) -> Vec<u8> {
    let mut h = head_for(id);
    match k {
        K::Piped => h.extend(fr(true, 1, format!("early{}", id).as_bytes()).to(true, 1).bytes()),
        K::Invalid => h = String::from_utf8(h).unwrap().replacen("GET", "POST", 1).into_bytes(),
        K::Garbage => h = b"\x16\x03\x01 not http\r\n\r\n".to_vec(),
        K::HalfClose | K::Reset => h.truncate(h.len() / 2),
        K::Gone => h.clear(),
        _ => {}
    }
    h
}
fn read_head(s: &mut dyn Read, id: usize) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut b = [0];
    while !v.ends_with(b"\r\n\r\n") {
        let n = s.read(&mut b).map_err(|e| format!("client {}: {}", id, e))?;
        ensure!(n > 0, "client {}: the server closed the connection", id);
        v.push(b[0]);
    }
    Ok(v)
}
/// the client's side of an accepted upgrade, up to the exchange
fn client_side(s: &mut dyn RW, id: usize) -> Res {
    let h = parse_head(&read_head(s, id)?)?;
    ensure!(h.start.starts_with("HTTP/1.1 101"), "client {}: {}", id, h.start);
    ensure!(h.one("Sec-WebSocket-Accept").map_err(|e| format!("client {}: {:?}", id, e))? == accept_for(&key(id)), "client {} got the accept value of another key", id);
    Ok(())
}
fn server_side<S: Read + Write + websocket::stream::Stream>(w: &mut websocket::sync::Client<S>, id: usize, k: K) -> Res {
    let want: Vec<String> = if k == K::Piped { vec![format!("early{}", id), format!("hi{}", id)] } else { vec![format!("hi{}", id)] };
    for t in want {
        let m = w.recv_message().map_err(|e| format!("client {}: {}", id, e))?;
        ensure!(m == OwnedMessage::Text(t.clone()), "client {} sent {:?}, received {:?}", id, t, m);
    }
    w.send_message(&OwnedMessage::Text(format!("ho{}", id))).map_err(|e| format!("client {}: {}", id, e))
}
fn client_reads(s: &mut dyn RW, id: usize) -> Res {
    let want = fr(true, 1, format!("ho{}", id).as_bytes()).bytes();
    let mut got = vec![0; want.len()];
    s.read_exact(&mut got).map_err(|e| format!("client {}: {}", id, e))?;
    ensure!(got == want, "client {} received {}", id, hex(&got));
    Ok(())
}
/// None: accept itself fails
fn blocking_plain(ks: &[Option<K>], variant: usize, c: &mut Case) -> Res {
    let mut srv = Server::bind("127.0.0.1:0").map_err(herr)?;
    let at = srv.local_addr().map_err(herr)?;
    let mut clone = srv.try_clone().map_err(herr)?;
    ensure!(clone.local_addr().ok() == Some(at), "a cloned handle has another address");
    if variant == 3 {
        // from the asynchronous type and back is not offered; a handle whose original is gone is
        let again = clone.try_clone().map_err(herr)?;
        srv = std::mem::replace(&mut clone, again);
    }
    let script: Vec<i32> = ks.iter().map(|k| if k.is_none() { shim::ECONNABORTED } else { 0 }).collect();
    let mut cls: Vec<Option<TcpStream>> = vec![];
    let mut addrs = vec![];
    for (id, k) in ks.iter().enumerate() {
        let k = match k {
            None => {
                cls.push(None);
                addrs.push(at);
                continue;
            }
            Some(k) => *k,
        };
        c.step();
        let mut s = TcpStream::connect(at).map_err(herr)?;
        s.set_nodelay(true).map_err(herr)?;
        s.set_read_timeout(Some(LONG)).map_err(herr)?;
        addrs.push(s.local_addr().map_err(herr)?);
        s.write_all(&blocking_bytes(id, k)).map_err(herr)?;
        cls.push(match k {
            K::Gone | K::HalfClose => None,
            K::Reset => {
                shim::reset_on_close(s.as_raw_fd());
                None
            }
            _ => Some(s),
        });
    }
    shim::script_accepts(at.port(), script);
    if variant == 4 {
        srv.set_nonblocking(true).map_err(herr)?;
    }
    let r = (|| {
        let mut live = vec![];
        for (id, k) in ks.iter().enumerate() {
            c.step();
            let r = match variant {
                0 | 3 | 4 => srv.accept(),
                1 => srv.next().ok_or("the iterator ended")?,
                _ => if id % 2 == 0 { clone.accept() } else { srv.next().ok_or("the iterator ended")? },
            };
            let k = match k {
                Some(k) => *k,
                None => {
                    match r {
                        Err(ref e) if e.stream.is_none() && e.parsed.is_none() => {}
                        Err(e) => fail!("accept failed, reported as {:?} of a connection", e.error),
                        Ok(u) => fail!("accept failed, yet an upgrade {}", u.request.subject.1),
                    }
                    continue;
                }
            };
            match blocking_result(r, id, k, addrs[id], |s| s.peer_addr().ok())? {
                Ok(u) => {
                    let s = cls[id].as_mut().ok_or(HARNESS)?;
                    let mut w = u.accept().map_err(|e| format!("client {}: accept: {}", id, e.1))?;
                    client_side(s, id)?;
                    s.write_all(&fr(true, 1, format!("hi{}", id).as_bytes()).to(true, 2).bytes()).map_err(herr)?;
                    server_side(&mut w, id, k)?;
                    client_reads(s, id)?;
                    live.push((id, w));
                }
                Err(Some(mut s)) if k == K::Invalid => {
                    let b = b"HTTP/1.1 400 Bad Request\r\n\r\n";
                    s.write_all(b).map_err(|e| format!("answering a refused request: {}", e))?;
                    let h = read_head(cls[id].as_mut().ok_or(HARNESS)?, id)?;
                    ensure!(h == b, "refused client {} reads {:?}", id, String::from_utf8_lossy(&h));
                }
                Err(_) => {}
            }
        }
        // all sessions are still usable
        for (id, w) in &mut live {
            let s = cls[*id].as_mut().ok_or(HARNESS)?;
            s.write_all(&fr(true, 1, format!("hi{}", id).as_bytes()).to(true, 4).bytes()).map_err(herr)?;
            server_side(w, *id, K::Valid)?;
            client_reads(s, *id)?;
        }
        if variant == 4 {
            match srv.accept() {
                Err(InvalidConnection { error: websocket::server::upgrade::HyperIntoWsError::Io(ref e), .. }) if e.kind() == ErrorKind::WouldBlock => {}
                Err(e) => fail!("non-blocking accept without a client: {:?}", e.error),
                Ok(_) => fail!("non-blocking accept without a client: an upgrade"),
            }
        }
        Ok(())
    })();
    shim::clear_scripts(at.port());
    for s in cls.iter().filter_map(|s| s.as_ref()) {
        shim::reset_on_close(s.as_raw_fd());
    }
    r
}
fn blocking_tls(ks: &[K], iter: bool, c: &mut Case) -> Res {
    let mut srv = Server::bind_secure("127.0.0.1:0", acceptor(0)?).map_err(herr)?;
    let at = srv.local_addr().map_err(herr)?;
    let mut ths = vec![];
    let mut addrs = vec![];
    for (id, k) in ks.iter().enumerate() {
        c.step();
        let s = TcpStream::connect(at).map_err(herr)?;
        s.set_nodelay(true).map_err(herr)?;
        s.set_read_timeout(Some(LONG)).map_err(herr)?;
        addrs.push(s.local_addr().map_err(herr)?);
        let k = *k;
        ths.push(std::thread::spawn(move || -> Res {
            match k {
                K::Gone => return Ok(()),
                K::Clear => {
                    let mut s = s;
                    let _ = s.write_all(&blocking_bytes(id, K::Valid));
                    let mut b = [0; 64];
                    while s.read(&mut b).map_or(false, |n| n > 0) {}
                    return Ok(());
                }
                _ => {}
            }
            let fd = s.as_raw_fd();
            let mut s = connector()?.connect("localhost", s).map_err(|e| format!("client {}: TLS handshake: {}", id, e))?;
            s.write_all(&blocking_bytes(id, k)).map_err(|e| format!("client {}: {}", id, e))?;
            match k {
                K::Valid => {
                    client_side(&mut s, id)?;
                    s.write_all(&fr(true, 1, format!("hi{}", id).as_bytes()).to(true, 2).bytes()).map_err(herr)?;
                    client_reads(&mut s, id)?;
                }
                K::Invalid => {
                    let h = read_head(&mut s, id)?;
                    ensure!(h == b"HTTP/1.1 400 Bad Request\r\n\r\n", "refused client {} reads {:?}", id, String::from_utf8_lossy(&h));
                }
                _ => {}
            }
            shim::reset_on_close(fd);
            Ok(())
        }));
    }
    let r: Res = (|| {
        for (id, k) in ks.iter().enumerate() {
            c.step();
            let r = if iter { srv.next().ok_or("the iterator ended")? } else { srv.accept() };
            match blocking_result(r, id, *k, addrs[id], |s| s.get_ref().peer_addr().ok())? {
                Ok(u) => {
                    let mut w = u.accept().map_err(|e| format!("client {}: accept: {}", id, e.1))?;
                    server_side(&mut w, id, *k)?;
                }
                Err(Some(mut s)) if *k == K::Invalid => s.write_all(b"HTTP/1.1 400 Bad Request\r\n\r\n").map_err(|e| format!("answering a refused request: {}", e))?,
                Err(_) => {}
            }
        }
        Ok(())
    })();
    // those not accepted are reset
    drop(srv);
    let mut rs = vec![r];
    for t in ths {
        rs.push(t.join().unwrap_or(Err(format!("{}: client thread panicked", HARNESS))));
    }
    rs.into_iter().find(|r| r.is_err()).unwrap_or(Ok(()))
}
