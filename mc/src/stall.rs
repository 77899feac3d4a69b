//! C23: a connection which waits for its peer holds up no other; C15: nor does one direction the other.
use crate::drv::good_request;
use crate::duplex::tcp_pair;
use crate::engine::*;
use crate::ensure;
use crate::http::*;
use crate::model::*;
use crate::tls::{acceptor, connector, herr};
use crate::tx::{check_all, msg_fr};
use futures::{Future, Poll, Sink, Stream};
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::dataframe::{DataFrame, Opcode};
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::{IntoWs, RequestStreamPair};
use websocket::stream::ReadWritePair;
use websocket::sync::{Client, Server};
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

/// what must not wait for a stalled connection gets this long
const PROMPT: Duration = Duration::from_secs(20);

/// a place where a connection waits until it is opened
pub struct Gate(Mutex<(bool, bool)>, Condvar);
impl Gate {
    fn new(open: bool) -> Arc<Gate> {
        Arc::new(Gate(Mutex::new((false, open)), Condvar::new()))
    }
    fn pass(&self) {
        let mut s = self.0.lock().unwrap();
        s.0 = true;
        self.1.notify_all();
        let mut left = 1200;
        while !s.1 && left > 0 {
            s = self.1.wait_timeout(s, Duration::from_millis(100)).unwrap().0;
            left -= 1;
        }
    }
    fn open(&self) {
        self.0.lock().unwrap().1 = true;
        self.1.notify_all();
    }
    fn entered(&self) -> bool {
        self.0.lock().unwrap().0
    }
}
struct Inner {
    input: Vec<u8>,
    pos: usize,
    out: Vec<u8>,
    /// (writing, at this byte)
    stall: Option<(bool, usize, Arc<Gate>)>,
}
/// a peer which takes or gives no byte beyond a point until the gate opens
#[derive(Clone)]
struct Gated(Arc<Mutex<Inner>>);
impl Gated {
    fn new(input: Vec<u8>) -> Gated {
        Gated(Arc::new(Mutex::new(Inner { input, pos: 0, out: vec![], stall: None })))
    }
    /// from here on: stall after `off` more bytes
    fn arm(&self, s: &Spot, input: &[u8]) {
        let mut i = self.0.lock().unwrap();
        i.input.drain(..);
        i.input.extend_from_slice(input);
        i.pos = 0;
        i.out.clear();
        i.stall = Some((s.write, s.off, s.gate.clone()));
    }
    fn out(&self) -> Vec<u8> {
        self.0.lock().unwrap().out.clone()
    }
    /// how many bytes may pass now
    fn free(&self, write: bool) -> usize {
        loop {
            let g = {
                let mut i = self.0.lock().unwrap();
                let n = if write { i.out.len() } else { i.pos };
                match &i.stall {
                    Some((w, at, g)) if *w == write => {
                        if n < *at {
                            return at - n;
                        }
                        let g = g.clone();
                        i.stall = None;
                        g
                    }
                    _ => return usize::MAX,
                }
            };
            g.pass();
        }
    }
}
impl Read for Gated {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let k = self.free(false);
        let mut i = self.0.lock().unwrap();
        let n = b.len().min(k).min(i.input.len() - i.pos);
        b[..n].copy_from_slice(&i.input[i.pos..i.pos + n]);
        i.pos += n;
        Ok(n)
    }
}
impl Write for Gated {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let k = self.free(true);
        let mut i = self.0.lock().unwrap();
        let n = b.len().min(k);
        i.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Gated {}
impl AsyncWrite for Gated {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        Ok(futures::Async::Ready(()))
    }
}
/// where an activity stalls
#[derive(Clone)]
struct Spot {
    write: bool,
    off: usize,
    gate: Arc<Gate>,
}
impl Spot {
    fn nowhere() -> Spot {
        Spot { write: false, off: 0, gate: Gate::new(true) }
    }
}
const ACTS: [&str; 19] = [
    "client sends",
    "server sends",
    "client sends a frame",
    "client receives",
    "server receives",
    "connect_on",
    "accept an upgrade",
    "refuse what is no upgrade",
    "reject an upgrade",
    "send through a split half",
    "receive through a split half",
    "async client sends",
    "async server receives",
    "async connect_on",
    "async accept",
    "dial",
    "server accepts",
    "dial over TLS",
    "server accepts over TLS",
];
fn text(t: &str) -> OwnedMessage {
    OwnedMessage::Text(t.into())
}
const LINE: &str = "neither holds up the other";
fn client<S: Read + Write>(s: S) -> Result<Client<S>, WebSocketError> {
    ClientBuilder::new("ws://example.com/").expect("harness url").key(KEY_BYTES).connect_on(s)
}
fn accepted<S: Read + Write + websocket::stream::Stream>(s: S) -> Result<Client<S>, String> {
    let up = RequestStreamPair(s, good_request()).into_ws().map_err(|(_, _, e)| format!("valid request refused: {:?}", e))?;
    up.accept().map_err(|(_, e)| format!("accept: {:?}", e))
}
fn dbg<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}
fn sent(g: &Gated, server: bool) -> Res {
    check_all(&g.out(), &[msg_fr(&text(LINE))], server).map(|_| ())
}
fn got<E: std::fmt::Debug>(r: Result<OwnedMessage, E>) -> Res {
    match r {
        Ok(m) if m == text(LINE) => Ok(()),
        o => Err(format!("received {:?}", o)),
    }
}
/// The head of a message, byte by byte
fn head(s: &mut dyn Read) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut b = [0];
    while !v.ends_with(b"\r\n\r\n") {
        match s.read(&mut b) {
            Ok(1) => v.push(b[0]),
            o => return Err(format!("{}: peer: head incomplete: {:?}", HARNESS, o)),
        }
    }
    Ok(v)
}
fn slow(s: TcpStream) -> Result<TcpStream, String> {
    s.set_read_timeout(Some(Duration::from_secs(60))).map_err(herr)?;
    s.set_write_timeout(Some(Duration::from_secs(60))).map_err(herr)?;
    Ok(s)
}
/// the activity, stalled where `s` says; everything it does must come out right
fn act(k: usize, s: &Spot) -> Res {
    let from_server = fr(true, 1, LINE.as_bytes()).to(false, 0).bytes();
    let from_client = fr(true, 1, LINE.as_bytes()).to(true, 3).bytes();
    let hello = response(&accept_for(KEY));
    let g = Gated::new(hello.clone());
    match k {
        0 | 2 => {
            let mut c = client(g.clone()).map_err(dbg)?;
            g.arm(s, b"");
            if k == 0 {
                c.send_message(&text(LINE)).map_err(dbg)?;
            } else {
                c.send_dataframe(&DataFrame::new(true, Opcode::Text, LINE.into())).map_err(dbg)?;
            }
            sent(&g, false)
        }
        1 => {
            let mut c = accepted(g.clone())?;
            g.arm(s, b"");
            c.send_message(&text(LINE)).map_err(dbg)?;
            sent(&g, true)
        }
        3 => {
            let mut c = client(g.clone()).map_err(dbg)?;
            g.arm(s, &from_server);
            got(c.recv_message())
        }
        4 => {
            let mut c = accepted(g.clone())?;
            g.arm(s, &from_client);
            got(c.recv_message())
        }
        5 => {
            g.arm(s, &[hello, from_server].concat());
            let mut c = client(g.clone()).map_err(dbg)?;
            got(c.recv_message())
        }
        6 => {
            g.arm(s, &[request("/"), from_client].concat());
            let up = IntoWs::into_ws(g.clone()).map_err(|e| format!("valid request refused: {:?}", e.3))?;
            let mut c = up.accept().map_err(|(_, e)| format!("accept: {:?}", e))?;
            parse_head(&g.out()).map_err(dbg)?;
            got(c.recv_message())
        }
        7 => {
            g.arm(s, b"GET / HTTP/1.1\r\nHost: example.com\r\n\r\n");
            match IntoWs::into_ws(g.clone()) {
                Err((_, Some(_), _, _)) => Ok(()),
                Err((_, _, _, e)) => Err(format!("refused with {:?}", e)),
                Ok(_) => Err("no upgrade, yet accepted".into()),
            }
        }
        8 => {
            g.arm(s, &request("/"));
            let up = IntoWs::into_ws(g.clone()).map_err(|e| format!("valid request refused: {:?}", e.3))?;
            up.reject().map_err(|(_, e)| format!("reject: {:?}", e))?;
            let o = g.out();
            ensure!(o.starts_with(b"HTTP/1.1 400"), "rejected with {:?}", String::from_utf8_lossy(&o));
            Ok(())
        }
        9 => {
            let (_, mut w) = client(ReadWritePair(g.clone(), g.clone())).map_err(dbg)?.split().map_err(dbg)?;
            g.arm(s, b"");
            w.send_message(&text(LINE)).map_err(dbg)?;
            sent(&g, false)
        }
        10 => {
            let (mut r, _) = client(ReadWritePair(g.clone(), g.clone())).map_err(dbg)?.split().map_err(dbg)?;
            g.arm(s, &from_server);
            got(r.recv_message())
        }
        11 => {
            let f = ClientBuilder::new("ws://example.com/").map_err(dbg)?.key(KEY_BYTES).async_connect_on(g.clone());
            let (c, _) = f.wait().map_err(dbg)?;
            g.arm(s, b"");
            c.send(text(LINE)).wait().map_err(dbg)?;
            sent(&g, false)
        }
        12 => {
            g.arm(&Spot::nowhere(), &request("/"));
            let up = AIntoWs::into_ws(g.clone()).wait().map_err(|e| format!("valid request refused: {:?}", e.3))?;
            let (c, _) = up.accept().wait().map_err(dbg)?;
            g.arm(s, &from_client);
            match c.into_future().wait() {
                Ok((Some(m), _)) => got::<()>(Ok(m)),
                Ok((None, _)) => Err("received the end".into()),
                Err((e, _)) => Err(dbg(e)),
            }
        }
        13 => {
            g.arm(s, &hello);
            let f = ClientBuilder::new("ws://example.com/").map_err(dbg)?.key(KEY_BYTES).async_connect_on(g.clone());
            f.wait().map(|_| ()).map_err(dbg)
        }
        14 => {
            g.arm(s, &request("/"));
            let up = AIntoWs::into_ws(g.clone()).wait().map_err(|e| format!("valid request refused: {:?}", e.3))?;
            up.accept().wait().map_err(dbg)?;
            parse_head(&g.out()).map(|_| ()).map_err(dbg)
        }
        15 | 17 => {
            // the peer waits before anything (write), after the first byte or the head came (read)
            let tls = k == 17;
            let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
            let at = l.local_addr().map_err(herr)?;
            let (s, line) = (s.clone(), from_server);
            let peer = std::thread::spawn(move || -> Res {
                let p = slow(l.accept().map_err(herr)?.0)?;
                if s.write {
                    s.gate.pass();
                }
                let mut p: Box<dyn websocket::stream::sync::NetworkStream> = if tls { Box::new(acceptor(0)?.accept(p).map_err(herr)?) } else { Box::new(p) };
                let h = parse_head(&head(&mut p)?)?;
                let a = [response(&accept_for(h.one("Sec-WebSocket-Key")?)), line].concat();
                let cut = s.off.min(a.len());
                p.write_all(&a[..cut]).map_err(herr)?;
                if !s.write {
                    s.gate.pass();
                }
                p.write_all(&a[cut..]).map_err(herr)?;
                // until the other side is done
                let _ = p.read(&mut [0]);
                Ok(())
            });
            let host = if tls { "wss://127.78.0.1" } else { "ws://127.0.0.1" };
            let host = if tls { host.replace("127.78.0.1", "localhost") } else { host.to_string() };
            let mut b = ClientBuilder::new(&format!("{}:{}/", host, at.port())).map_err(dbg)?;
            let r = if tls {
                b.connect_secure(Some(connector()?)).map_err(dbg).and_then(|mut c| got(c.recv_message()))
            } else {
                b.connect_insecure().map_err(dbg).and_then(|mut c| got(c.recv_message()))
            };
            r?;
            peer.join().map_err(|_| format!("{}: peer", HARNESS))?
        }
        _ => {
            let tls = k == 18;
            let line = from_client;
            let s = s.clone();
            let go = move |at: std::net::SocketAddr| {
                std::thread::spawn(move || -> Res {
                    let p = slow(TcpStream::connect(at).map_err(herr)?)?;
                    if s.write {
                        s.gate.pass();
                    }
                    let mut p: Box<dyn websocket::stream::sync::NetworkStream> =
                        if tls { Box::new(connector()?.connect("localhost", p).map_err(herr)?) } else { Box::new(p) };
                    let a = [request("/"), line].concat();
                    let cut = s.off.min(a.len());
                    p.write_all(&a[..cut]).map_err(herr)?;
                    if !s.write {
                        s.gate.pass();
                    }
                    p.write_all(&a[cut..]).map_err(herr)?;
                    parse_head(&head(&mut p)?)?;
                    let _ = p.read(&mut [0]);
                    Ok(())
                })
            };
            macro_rules! serve {
                ($l:expr) => {{
                    let mut l = $l;
                    let peer = go(l.local_addr().map_err(herr)?);
                    {
                        let up = l.accept().map_err(|e| format!("accept: {:?}", e.error))?;
                        let mut c = up.accept().map_err(|(_, e)| format!("accept: {:?}", e))?;
                        got(c.recv_message())?;
                    }
                    peer
                }};
            }
            let peer = if tls {
                serve!(Server::bind_secure("127.0.0.1:0", acceptor(0)?).map_err(herr)?)
            } else {
                serve!(Server::bind("127.0.0.1:0").map_err(herr)?)
            };
            peer.join().map_err(|_| format!("{}: peer", HARNESS))?
        }
    }
}
/// run in a thread of its own
fn spawned(f: impl FnOnce() -> Res + Send + 'static) -> Receiver<Res> {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let r = guarded(f).and_then(|r| r);
        let _ = tx.send(r);
    });
    rx
}
fn finish(rx: Receiver<Res>, what: &str, t: Duration) -> Res {
    match rx.recv_timeout(t) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) if e.starts_with(HARNESS) => Err(e),
        Ok(Err(e)) => Err(format!("{}: {}", what, e)),
        Err(RecvTimeoutError::Timeout) => Err(format!("{}: not done after {} s", what, t.as_secs())),
        Err(_) => Err(format!("{}: {}", HARNESS, what)),
    }
}
/// `a` stalled at the gate (false: it is done and never came there)
fn parked(a: &Receiver<Res>, g: &Gate) -> Result<Option<Res>, String> {
    for _ in 0..600_000 {
        if g.entered() {
            return Ok(None);
        }
        if let Ok(r) = a.try_recv() {
            return Ok(Some(r));
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    Err("neither done nor stalled after 60 s".into())
}
pub fn others(x: &Ctx) {
    let offs: &[usize] = x.tier(&[0, 1, 10], &[0, 1, 2, 5, 6, 7, 10, 20, 30, 60, 100, 150]);
    x.bound(&format!(
        "each of {} activities (handshakes, sends, receives, split, asynchronous, dialling, accepting, TLS) stalled by its peer at {} points of either direction, while each of the {} goes through on another connection",
        ACTS.len(),
        offs.len(),
        ACTS.len()
    ));
    let n = ACTS.len();
    // one at a time: a process-wide wait shows at the connection that causes it
    x.section_t("stalled", (n * 2 * offs.len()) as u64, 1, |c, i| {
        let mut ix = Ix(i);
        let a = ix.take(n);
        let write = ix.take(2) == 1;
        let off = offs[ix.0 as usize];
        let gate = Gate::new(false);
        let s = Spot { write, off, gate: gate.clone() };
        c.note = format!("{:?} stalled {} after {} bytes", ACTS[a], if write { "writing" } else { "reading" }, off);
        c.state(&(a, write, off));
        let rx = spawned(move || act(a, &s));
        if let Some(r) = parked(&rx, &gate)? {
            c.trace(&(a, "unstalled"));
            return r;
        }
        let mut bad = None;
        for b in 0..n {
            c.step();
            if let Err(e) = finish(spawned(move || act(b, &Spot::nowhere())), &format!("{:?} on another connection", ACTS[b]), PROMPT) {
                bad = Some(e);
                break;
            }
        }
        gate.open();
        if let Some(e) = bad {
            return Err(e);
        }
        c.trace(&(a, write, off));
        finish(rx, &format!("{:?} once its peer goes on", ACTS[a]), Duration::from_secs(60))
    });
}
pub fn halves(x: &Ctx) {
    let offs = [0, 1, 2, 10, 40];
    x.bound("split connections, both roles: one half stalled by its peer at 5 points, while the other carries 3 messages either way of sending; a half waiting in the kernel while the other sends, receives, shuts down either direction or both");
    x.section("stalled", (2 * 2 * 2 * offs.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let stall_write = ix.take(2) == 1;
        let frames = ix.take(2) == 1;
        let off = offs[ix.0 as usize];
        c.note = format!("server={} the {} stalled after {} bytes", server, if stall_write { "writer" } else { "reader" }, off);
        c.state(&(server, stall_write, frames, off));
        let (ri, wo) = (Gated::new(response(&accept_for(KEY))), Gated::new(vec![]));
        let io = ReadWritePair(ri.clone(), wo.clone());
        let cl = if server { accepted(io)? } else { client(io).map_err(dbg)? };
        let (mut r, mut w) = cl.split().map_err(dbg)?;
        let gate = Gate::new(false);
        let s = Spot { write: stall_write, off, gate: gate.clone() };
        let line = |k: usize| text(&format!("{} {} {}", k, LINE, "y".repeat(k * 40)));
        let input: Vec<u8> = (0..3).flat_map(|k| msg_fr(&line(k)).to(server, k).bytes()).collect();
        let free = Spot::nowhere();
        ri.arm(if stall_write { &free } else { &s }, &input);
        wo.arm(if stall_write { &s } else { &free }, b"");
        let o = wo.clone();
        let wr = move || -> Res {
            for k in 0..3 {
                if frames {
                    w.send_dataframe(&DataFrame::new(true, Opcode::Text, payload_of(&line(k)).1)).map_err(dbg)?;
                } else {
                    w.send_message(&line(k)).map_err(dbg)?;
                }
            }
            check_all(&o.out(), &(0..3).map(|k| msg_fr(&line(k))).collect::<Vec<_>>(), server).map(|_| ())
        };
        let re = move || -> Res {
            for k in 0..3 {
                let m = r.recv_message().map_err(dbg)?;
                ensure!(m == line(k), "received {} as message {}", show_msg(&m), k);
            }
            Ok(())
        };
        let go = |w: bool, re: Box<dyn FnOnce() -> Res + Send>, wr: Box<dyn FnOnce() -> Res + Send>| if w { (spawned(wr), re) } else { (spawned(re), wr) };
        let (rx, other) = go(stall_write, Box::new(re), Box::new(wr));
        if let Some(r) = parked(&rx, &gate)? {
            r?;
            return Err(format!("{}: never stalled", HARNESS));
        }
        c.steps(6);
        let names = if stall_write { ["writer", "reader"] } else { ["reader", "writer"] };
        let f = finish(spawned(other), &format!("the {} while the {} waits", names[1], names[0]), PROMPT);
        gate.open();
        f?;
        c.trace(&(server, stall_write, frames, off));
        finish(rx, &format!("the {} once its peer goes on", names[0]), PROMPT)
    });
    // a half which waits in the kernel
    const WHAT: [&str; 6] = ["send", "writer shuts down sending", "writer shuts down both", "writer is dropped", "peer sends", "peer closes"];
    x.section("waiting", (2 * seq_count(WHAT.len(), 2)) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let ops = seq_of(WHAT.len(), ix.0);
        c.note = format!("server={} the reader waits; {:?}", server, ops.iter().map(|o| WHAT[*o]).collect::<Vec<_>>());
        c.state(&(server, &ops));
        let (a, b) = tcp_pair()?;
        let (mut a, mut b) = (slow(a)?, Some(slow(b)?));
        a.set_read_timeout(None).map_err(herr)?;
        let cl = if server {
            accepted(a)?
        } else {
            // the handshake of the other side is already there
            b.as_mut().unwrap().write_all(&response(&accept_for(KEY))).map_err(herr)?;
            a = slow(a)?;
            a.set_read_timeout(None).map_err(herr)?;
            client(a).map_err(dbg)?
        };
        head(b.as_mut().unwrap())?;
        let (mut r, w) = cl.split().map_err(dbg)?;
        let mut w = Some(w);
        // everything the reader sees until its end
        let (tx, rx) = channel();
        std::thread::spawn(move || loop {
            let o = r.recv_message();
            let end = o.is_err();
            if tx.send(o).is_err() || end {
                break;
            }
        });
        let quiet = |d: u64| rx.recv_timeout(Duration::from_millis(d));
        let (mut ended, mut sending) = (false, true);
        for (k, op) in ops.iter().enumerate() {
            c.step();
            match op {
                0 => {
                    if let Some(w) = &mut w {
                        let m = text(&format!("out {}", k));
                        let r = w.send_message(&m);
                        if !sending || b.is_none() {
                            continue;
                        }
                        r.map_err(|e| format!("send while the reader waits: {:?}", e))?;
                        let mut v = vec![0; msg_fr(&m).to(!server, 0).bytes().len()];
                        b.as_mut().unwrap().read_exact(&mut v).map_err(|e| format!("the message does not arrive while the reader waits: {}", e))?;
                        check_all(&v, &[msg_fr(&m)], server)?;
                    }
                }
                1 | 2 => {
                    if let Some(w) = &w {
                        let r = if *op == 1 { w.shutdown() } else { w.shutdown_all() };
                        if sending && b.is_some() {
                            r.map_err(|e| format!("shutdown while the reader waits: {}", e))?;
                        }
                        sending = false;
                        if *op == 2 && !ended {
                            match rx.recv_timeout(PROMPT) {
                                Ok(Err(_)) => ended = true,
                                Ok(Ok(m)) => return Err(format!("received {} from nowhere", show_msg(&m))),
                                Err(_) => return Err("the waiting reader does not notice that both directions are shut down".into()),
                            }
                        }
                    }
                }
                3 => w = None,
                4 => {
                    if let Some(b) = &mut b {
                        let m = text(&format!("in {}", k));
                        let r = b.write_all(&msg_fr(&m).to(server, k).bytes());
                        if ended {
                            continue;
                        }
                        r.map_err(herr)?;
                        match rx.recv_timeout(PROMPT) {
                            Ok(Ok(got)) => ensure!(got == m, "the waiting reader received {}", show_msg(&got)),
                            Ok(Err(e)) => return Err(format!("the waiting reader gets {:?} instead of a message", e)),
                            Err(_) => return Err("the waiting reader does not get the message".into()),
                        }
                    }
                }
                _ => {
                    if b.take().is_some() && !ended {
                        match rx.recv_timeout(PROMPT) {
                            Ok(Err(_)) => ended = true,
                            o => return Err(format!("the waiting reader gets {:?} after the peer closed", o.map(|m| m.map(|m| show_msg(&m))))),
                        }
                    }
                }
            }
        }
        if !ended {
            match quiet(2) {
                Err(RecvTimeoutError::Timeout) => {}
                o => return Err(format!("the waiting reader gets {:?} although nothing came", o.map(|m| m.map(|m| show_msg(&m))))),
            }
            // let its thread end
            drop(b);
            let _ = rx.recv_timeout(PROMPT);
        }
        c.trace(&(server, ended, sending, w.is_none()));
        Ok(())
    });
}
