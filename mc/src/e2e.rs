//! C19: a client and a server of this library, each blocking or asynchronous, each on its own thread, joined by a
//! pipe whose every operation is a scheduling point; one thread runs at a time.
use crate::engine::*;
use crate::ensure;
use crate::fail;
use crate::model::*;
use futures::executor::{self, Notify, NotifyHandle};
use futures::task::Task;
use futures::{Async, Future, Poll, Sink, Stream};
use std::cell::Cell;
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::dataframe::{DataFrame, Opcode};
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{Headers, WebSocketExtensions, WebSocketProtocol};
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::IntoWs as SIntoWs;
use websocket::stream::sync::Splittable;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

thread_local! {
    static ME: Cell<usize> = Cell::new(usize::MAX);
}
fn me() -> usize {
    ME.with(|m| m.get())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Data(usize),
    Space(usize),
    Note,
    Join(usize),
    Done,
}
#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    wclosed: bool,
    rclosed: bool,
    rtask: Option<Task>,
    wtask: Option<Task>,
    total: u64,
}
struct Wd {
    cur: usize,
    st: Vec<St>,
    note: Vec<bool>,
    pipes: [Pipe; 2],
    tape: SharedTape,
    dead: Option<String>,
    ops: u64,
    free: bool,
    how: How,
}
/// the default schedule
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub struct How {
    /// bytes a pipe holds
    cap: usize,
    /// bytes per operation
    chunk: usize,
    /// the other side runs after every operation
    eager: bool,
}
pub struct World {
    m: Mutex<Wd>,
    cv: Vec<Condvar>,
}
const THREADS: usize = 4;
impl World {
    fn new(how: How, tape: SharedTape) -> Arc<World> {
        Arc::new(World {
            m: Mutex::new(Wd {
                cur: 0,
                st: vec![St::Done; THREADS],
                note: vec![false; THREADS],
                pipes: Default::default(),
                tape,
                dead: None,
                ops: 0,
                free: false,
                how,
            }),
            cv: (0..THREADS).map(|_| Condvar::new()).collect(),
        })
    }
    fn lock(&self) -> MutexGuard<'_, Wd> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn kill(&self, g: &mut Wd, why: String) {
        if g.dead.is_none() {
            g.dead = Some(why);
        }
        for c in &self.cv {
            c.notify_all();
        }
    }
    /// the calling thread gives way in state `st`; returns when it is its turn again
    fn give_way<'a>(&'a self, mut g: MutexGuard<'a, Wd>, st: St, to: Option<usize>) -> MutexGuard<'a, Wd> {
        let t = me();
        g.st[t] = st;
        let next = match to {
            Some(n) => n,
            None => {
                let l = others(&g, t, true);
                if l.is_empty() {
                    if st == St::Done && g.st.iter().all(|s| *s == St::Done) {
                        return g;
                    }
                    let why = format!("deadlock: threads {:?}, bytes in flight {:?}", g.st, [g.pipes[0].buf.len(), g.pipes[1].buf.len()]);
                    self.kill(&mut g, why);
                    return g;
                }
                let k = if l.len() > 1 { choose(&g, l.len()) } else { 0 };
                l[k]
            }
        };
        g.cur = next;
        if next != t {
            self.cv[next].notify_all();
        }
        if st == St::Done {
            return g;
        }
        while g.cur != t && g.dead.is_none() {
            g = self.cv[t].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.st[t] = St::Run;
        g
    }
    fn dead(&self) -> Option<String> {
        self.lock().dead.clone()
    }
}
fn choose(g: &Wd, n: usize) -> usize {
    g.tape.lock().unwrap_or_else(|e| e.into_inner()).choose(n)
}
fn runnable(g: &Wd, t: usize) -> bool {
    match g.st[t] {
        St::Run => true,
        St::Data(p) => !g.pipes[p].buf.is_empty() || g.pipes[p].wclosed,
        St::Space(p) => g.pipes[p].buf.len() < g.how.cap || g.pipes[p].rclosed,
        St::Note => g.note[t],
        St::Join(k) => g.st[k] == St::Done,
        St::Done => false,
    }
}
fn others(g: &Wd, t: usize, with_me: bool) -> Vec<usize> {
    let mut l: Vec<usize> = (1..THREADS).map(|k| (t + k) % THREADS).filter(|k| runnable(g, *k)).collect();
    if with_me && runnable(g, t) {
        l.push(t);
    }
    l
}
/// what happens at an operation that could transfer `n` bytes: how many do, or None for "not now"
fn at_point<'a>(w: &'a World, g: MutexGuard<'a, Wd>, n: usize, nb: bool) -> (MutexGuard<'a, Wd>, Option<usize>) {
    if g.dead.is_some() || g.free {
        return (g, Some(n));
    }
    let n = n.min(g.how.chunk);
    let l = others(&g, me(), false);
    // default first, then the alternatives: another thread first (or, if that is the default, this one at once),
    // a single byte, nothing now
    let ns = if l.is_empty() { 0 } else { 1 };
    let nbyte = (n > 1) as usize;
    let c = choose(&g, 1 + ns + nbyte + nb as usize);
    let eager = g.how.eager;
    let (switch, k) = if c == 0 {
        (eager && ns == 1, 0)
    } else if ns == 1 && c == 1 {
        (!eager, 0)
    } else {
        (eager && ns == 1, c - ns)
    };
    let g = if switch { w.give_way(g, St::Run, Some(l[0])) } else { g };
    if k == 1 && nbyte == 1 {
        return (g, Some(1));
    }
    if k == nbyte + 1 || (k == 1 && nbyte == 0) {
        return (g, None);
    }
    (g, Some(n))
}
struct Side {
    w: Arc<World>,
    /// pipe read from, pipe written to
    r: usize,
    t: usize,
}
impl Side {
    fn close_write(&self) {
        let task = {
            let mut g = self.w.lock();
            g.pipes[self.t].wclosed = true;
            g.pipes[self.t].rtask.take()
        };
        if let Some(t) = task {
            t.notify();
        }
    }
}
impl Drop for Side {
    fn drop(&mut self) {
        self.close_write();
        let task = {
            let mut g = self.w.lock();
            g.pipes[self.r].rclosed = true;
            g.pipes[self.r].wtask.take()
        };
        if let Some(t) = task {
            t.notify();
        }
    }
}
/// one end of the pipe
#[derive(Clone)]
pub struct End {
    side: Arc<Side>,
    nb: bool,
}
impl End {
    fn guard(&self) -> io::Result<MutexGuard<'_, Wd>> {
        let w = &self.side.w;
        let mut g = w.lock();
        g.ops += 1;
        if g.ops > 3_000_000 {
            w.kill(&mut g, "livelock: 3000000 transport operations".into());
        }
        if let Some(ref d) = g.dead {
            let d = d.clone();
            drop(g);
            return Err(io::Error::new(ErrorKind::Other, d));
        }
        Ok(g)
    }
}
fn wb() -> io::Error {
    ErrorKind::WouldBlock.into()
}
impl Read for End {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let (w, p) = (&self.side.w, self.side.r);
        loop {
            let g = self.guard()?;
            let avail = g.pipes[p].buf.len();
            if avail == 0 && !g.pipes[p].wclosed {
                if self.nb {
                    let mut g = g;
                    g.pipes[p].rtask = Some(futures::task::current());
                    return Err(wb());
                }
                drop(w.give_way(g, St::Data(p), None));
                continue;
            }
            let (mut g, k) = at_point(w, g, b.len().min(avail), self.nb);
            match k {
                None => {
                    drop(g);
                    futures::task::current().notify();
                    return Err(wb());
                }
                Some(n) => {
                    for x in b[..n].iter_mut() {
                        *x = g.pipes[p].buf.pop_front().unwrap_or(0);
                    }
                    let t = g.pipes[p].wtask.take();
                    drop(g);
                    if let Some(t) = t {
                        t.notify();
                    }
                    return Ok(n);
                }
            }
        }
    }
}
impl Write for End {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let (w, p) = (&self.side.w, self.side.t);
        loop {
            let g = self.guard()?;
            if g.pipes[p].rclosed || g.pipes[p].wclosed {
                return Err(ErrorKind::BrokenPipe.into());
            }
            let space = g.how.cap - g.pipes[p].buf.len();
            if space == 0 {
                if self.nb {
                    let mut g = g;
                    g.pipes[p].wtask = Some(futures::task::current());
                    return Err(wb());
                }
                drop(w.give_way(g, St::Space(p), None));
                continue;
            }
            let (mut g, k) = at_point(w, g, b.len().min(space), self.nb);
            match k {
                None => {
                    drop(g);
                    futures::task::current().notify();
                    return Err(wb());
                }
                Some(n) => {
                    if g.pipes[p].rclosed {
                        return Err(ErrorKind::BrokenPipe.into());
                    }
                    g.pipes[p].buf.extend(&b[..n]);
                    g.pipes[p].total += n as u64;
                    let t = g.pipes[p].rtask.take();
                    drop(g);
                    if let Some(t) = t {
                        t.notify();
                    }
                    return Ok(n);
                }
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for End {}
impl AsyncWrite for End {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        self.side.close_write();
        Ok(Async::Ready(()))
    }
}
impl Splittable for End {
    type Reader = End;
    type Writer = End;
    fn split(self) -> io::Result<(End, End)> {
        Ok((self.clone(), self))
    }
}
struct Noter(Arc<World>);
impl Notify for Noter {
    fn notify(&self, id: usize) {
        let mut g = self.0.lock();
        g.note[id] = true;
    }
}
/// run a future on the calling thread; while it is not ready others run
fn wait<F: Future>(w: &Arc<World>, f: F) -> Result<F::Item, F::Error> {
    let t = me();
    let h = NotifyHandle::from(Arc::new(Noter(w.clone())));
    let mut s = executor::spawn(f);
    loop {
        w.lock().note[t] = false;
        match s.poll_future_notify(&h, t)? {
            Async::Ready(v) => return Ok(v),
            Async::NotReady => {
                let g = w.lock();
                let g = if g.dead.is_none() { w.give_way(g, St::Note, None) } else { g };
                if let Some(d) = g.dead.clone() {
                    drop(g);
                    panic!("library-loop {}", d);
                }
            }
        }
    }
}
type Fm = websocket::client::r#async::Client<End>;
enum Ep {
    S(websocket::sync::Client<End>),
    A(Option<Fm>),
}
impl Ep {
    fn send(&mut self, w: &Arc<World>, m: &OwnedMessage, frag: bool) -> Result<(), WebSocketError> {
        match self {
            Ep::S(c) if frag && (m.is_data()) => {
                let (op, b) = payload_of(m);
                let op = if op == 1 { Opcode::Text } else { Opcode::Binary };
                let n = b.len();
                c.send_dataframe(&DataFrame::new(false, op, b[..n / 2].to_vec()))?;
                c.send_dataframe(&DataFrame::new(false, Opcode::Continuation, b[n / 2..n - n / 3].to_vec()))?;
                c.send_dataframe(&DataFrame::new(true, Opcode::Continuation, b[n - n / 3..].to_vec()))
            }
            Ep::S(c) => c.send_message(m),
            Ep::A(f) => {
                let k = f.take().unwrap();
                *f = Some(wait(w, k.send(m.clone()))?);
                Ok(())
            }
        }
    }
    fn send_all(&mut self, w: &Arc<World>, m: &[OwnedMessage]) -> Result<(), WebSocketError> {
        match self {
            Ep::S(c) => m.iter().map(|m| c.send_message(m)).collect(),
            Ep::A(f) => {
                let k = f.take().unwrap();
                let (mut k, mut i) = (Some(k), 0);
                *f = Some(wait(
                    w,
                    futures::future::poll_fn(|| {
                        while i < m.len() {
                            if k.as_mut().unwrap().start_send(m[i].clone())?.is_not_ready() {
                                return Ok(Async::NotReady);
                            }
                            i += 1;
                        }
                        match k.as_mut().unwrap().poll_complete()? {
                            Async::Ready(()) => Ok::<_, WebSocketError>(Async::Ready(k.take().unwrap())),
                            Async::NotReady => Ok(Async::NotReady),
                        }
                    }),
                )?);
                Ok(())
            }
        }
    }
    fn recv(&mut self, w: &Arc<World>) -> Result<Option<OwnedMessage>, WebSocketError> {
        match self {
            Ep::S(c) => match c.recv_message() {
                Err(WebSocketError::NoDataAvailable) => Ok(None),
                r => r.map(Some),
            },
            Ep::A(f) => {
                let k = f.take().unwrap();
                let (m, k) = wait(w, k.into_future()).map_err(|e| e.0)?;
                *f = Some(k);
                Ok(m)
            }
        }
    }
}
/// what one side believes was agreed
#[derive(PartialEq, Debug, Clone, Default)]
struct Agreed {
    protocols: Vec<String>,
    extensions: Vec<String>,
}
fn agreed(h: &Headers) -> Agreed {
    Agreed {
        protocols: h.get::<WebSocketProtocol>().map_or(vec![], |p| p.0.clone()),
        extensions: h.get::<WebSocketExtensions>().map_or(vec![], |e| e.0.iter().map(show_ext).collect()),
    }
}
fn show_ext(e: &Extension) -> String {
    format!("{:?}/{:?}", e.name, e.params.iter().map(|p| (p.name.clone(), p.value.clone())).collect::<Vec<_>>())
}
#[derive(Clone, Debug)]
struct Deal {
    uri: &'static str,
    protocols: Vec<String>,
    extensions: Vec<Extension>,
    origin: Option<String>,
    /// chosen by the server, of those offered
    use_p: Vec<usize>,
    use_e: Vec<usize>,
    /// a header the server adds
    extra: bool,
    reject: bool,
    limits: Option<(usize, usize)>,
}
impl Default for Deal {
    fn default() -> Deal {
        Deal { uri: "ws://h.test/chat?room=1", protocols: vec![], extensions: vec![], origin: None, use_p: vec![], use_e: vec![], extra: false, reject: false, limits: None }
    }
}
fn client_up(w: &Arc<World>, e: End, asy: bool, d: &Deal) -> Result<(Ep, Agreed, Headers), WebSocketError> {
    let mut b = ClientBuilder::new(d.uri).map_err(|_| WebSocketError::ProtocolError("harness url"))?;
    if !d.protocols.is_empty() {
        b = b.add_protocols(d.protocols.clone());
    }
    if !d.extensions.is_empty() {
        b = b.add_extensions(d.extensions.clone());
    }
    if let Some(ref o) = d.origin {
        b = b.origin(o.clone());
    }
    if let Some((f, m)) = d.limits {
        b = b.max_dataframe_size(f).max_message_size(m);
    }
    if asy {
        let (f, h) = wait(w, b.async_connect_on(e))?;
        Ok((Ep::A(Some(f)), agreed(&h), h))
    } else {
        let c = b.connect_on(e)?;
        let a = Agreed { protocols: c.protocols().to_vec(), extensions: c.extensions().iter().map(show_ext).collect() };
        let h = c.headers().clone();
        Ok((Ep::S(c), a, h))
    }
}
macro_rules! serve {
    ($up:expr, $d:expr) => {{
        let mut up = $up;
        let d: &Deal = $d;
        ensure!(up.protocols() == &d.protocols[..], "offered protocols {:?}, the server sees {:?}", d.protocols, up.protocols());
        ensure!(up.extensions() == &d.extensions[..], "offered extensions {:?}, the server sees {:?}", d.extensions, up.extensions());
        ensure!(up.origin() == d.origin.as_ref().map(|s| &s[..]), "origin {:?}, the server sees {:?}", d.origin, up.origin());
        let host = d.uri.find("://").unwrap() + 3;
        let path = &d.uri[d.uri[host..].find('/').map_or(d.uri.len(), |p| p + host)..];
        ensure!(up.uri() == if path.is_empty() { "/" } else { path }, "resource of {}, the server sees {}", d.uri, up.uri());
        for p in &d.use_p {
            let n = up.protocols()[*p].clone();
            up = up.use_protocol(n);
        }
        for p in &d.use_e {
            let n = up.extensions()[*p].clone();
            up = up.use_extension(n);
        }
        up
    }};
}
/// Err: a failure; Ok(None): rejected
fn server_up(w: &Arc<World>, e: End, asy: bool, d: &Deal) -> Result<Option<(Ep, Agreed)>, String> {
    let mut extra = Headers::new();
    extra.set_raw("X-Served-By", vec![b"mc".to_vec()]);
    if asy {
        let up = wait(w, AIntoWs::into_ws(e)).map_err(|e| format!("the client's request is refused: {:?}", e.3))?;
        let up = serve!(up, d);
        if d.reject {
            wait(w, if d.extra { up.reject_with(&extra) } else { up.reject() }).map_err(|e| format!("reject: {:?}", e))?;
            return Ok(None);
        }
        let f = match (d.extra, d.limits) {
            (false, None) => up.accept(),
            (true, None) => up.accept_with(&extra),
            (false, Some((a, b))) => up.accept_with_limits(a, b),
            (true, Some((a, b))) => up.accept_with_headers_and_limits(&extra, a, b),
        };
        let (f, h) = wait(w, f).map_err(|e| format!("accept: {:?}", e))?;
        Ok(Some((Ep::A(Some(f)), agreed(&h))))
    } else {
        let up = SIntoWs::into_ws(e).map_err(|e| format!("the client's request is refused: {:?}", e.3))?;
        let up = serve!(up, d);
        if d.reject {
            if d.extra { up.reject_with(&extra) } else { up.reject() }.map_err(|e| format!("reject: {:?}", e.1))?;
            return Ok(None);
        }
        let c = match (d.extra, d.limits) {
            (false, None) => up.accept(),
            (true, None) => up.accept_with(&extra),
            (false, Some((a, b))) => up.accept_with_limits(a, b),
            (true, Some((a, b))) => up.accept_with_headers_and_limits(&extra, a, b),
        }
        .map_err(|e| format!("accept: {:?}", e.1))?;
        let a = Agreed { protocols: c.protocols().to_vec(), extensions: c.extensions().iter().map(show_ext).collect() };
        Ok(Some((Ep::S(c), a)))
    }
}
/// run a program per side under the schedule of the tape
fn both<A: Send + 'static, B: Send + 'static>(
    how: How,
    tape: SharedTape,
    modes: (bool, bool),
    c: &mut Case,
    client: impl FnOnce(Arc<World>, End) -> Result<A, String> + Send + 'static,
    server: impl FnOnce(Arc<World>, End) -> Result<B, String> + Send + 'static,
) -> Result<(A, B), String> {
    let w = World::new(how, tape);
    let ce = End { side: Arc::new(Side { w: w.clone(), r: 1, t: 0 }), nb: modes.0 };
    let se = End { side: Arc::new(Side { w: w.clone(), r: 0, t: 1 }), nb: modes.1 };
    {
        let mut g = w.lock();
        g.st[0] = St::Run;
        g.st[1] = St::Run;
    }
    let w2 = w.clone();
    let th = std::thread::spawn(move || on_thread(&w2.clone(), 1, move || server(w2, se)));
    let w3 = w.clone();
    let a = on_thread(&w, 0, move || client(w3, ce));
    let b = th.join().unwrap_or_else(|_| Err(format!("{}: thread panicked", HARNESS)));
    let (ops, dead) = {
        let g = w.lock();
        (g.ops, g.dead.clone())
    };
    c.steps(ops as usize);
    // the cause first: a failure of one side ends the other
    match (a, b) {
        (Ok(a), Ok(b)) => match dead {
            Some(d) => Err(d),
            None => Ok((a, b)),
        },
        (Err(x), Ok(_)) => Err(format!("client: {}", x)),
        (Ok(_), Err(y)) => Err(format!("server: {}", y)),
        (Err(x), Err(y)) => Err(format!("client: {}; server: {}", x, y)),
    }
}
/// the body of one scheduled thread
fn on_thread<T>(w: &Arc<World>, id: usize, f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    ME.with(|m| m.set(id));
    {
        let mut g = w.lock();
        while g.cur != id && g.dead.is_none() {
            g = w.cv[id].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    let r = guarded(f).unwrap_or_else(Err);
    let mut g = w.lock();
    if r.is_err() && g.dead.is_none() {
        // the other side is let go: its transport reports the end
        for p in g.pipes.iter_mut() {
            p.wclosed = true;
            p.rclosed = true;
        }
        g.note.iter_mut().for_each(|n| *n = true);
    }
    if g.dead.is_none() {
        drop(w.give_way(g, St::Done, None));
    }
    ME.with(|m| m.set(usize::MAX));
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Mo {
    /// one message at a time, in a common order
    Steps,
    /// each side sends all of its messages, then receives
    Batch,
    /// each side sends and receives at the same time
    Duplex,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Fin {
    /// close handshake begun by the client or the server
    Client,
    Server,
    /// both at once
    Both,
    /// the client or the server goes without a word
    ClientGone,
    ServerGone,
}
const FINS: [Fin; 5] = [Fin::Client, Fin::Server, Fin::Both, Fin::ClientGone, Fin::ServerGone];
fn close(c: u16, s: &str) -> OwnedMessage {
    OwnedMessage::Close(Some(websocket::CloseData { status_code: c, reason: s.into() }))
}
fn shm(m: &Option<OwnedMessage>) -> String {
    m.as_ref().map_or("the end".into(), show_msg)
}
fn expect(e: &mut Ep, w: &Arc<World>, m: Option<&OwnedMessage>) -> Res {
    let g = e.recv(w).map_err(|x| format!("receiving {}: {:?}", shm(&m.cloned()), x))?;
    ensure!(g.as_ref() == m, "received {} instead of {}", shm(&g), shm(&m.cloned()));
    Ok(())
}
/// one side's program: handshake done, exchange `ops` ((from client, message)), then the end
fn program(mut e: Ep, w: &Arc<World>, client: bool, ops: &[(bool, OwnedMessage)], mode: Mo, fin: Fin, frag: bool) -> Res {
    let mine: Vec<OwnedMessage> = ops.iter().filter(|o| o.0 == client).map(|o| o.1.clone()).collect();
    let theirs: Vec<OwnedMessage> = ops.iter().filter(|o| o.0 != client).map(|o| o.1.clone()).collect();
    match mode {
        Mo::Steps => {
            for (k, (c, m)) in ops.iter().enumerate() {
                if *c == client {
                    e.send(w, m, frag).map_err(|x| format!("sending message {}: {:?}", k, x))?;
                } else {
                    expect(&mut e, w, Some(m))?;
                }
            }
        }
        Mo::Batch => {
            e.send_all(w, &mine).map_err(|x| format!("sending: {:?}", x))?;
            for m in &theirs {
                expect(&mut e, w, Some(m))?;
            }
        }
        Mo::Duplex => return duplex(e, w, client, mine, theirs),
    }
    let (first, second) = (close(1000, "bye"), close(1001, ""));
    let begin = match fin {
        Fin::Client => client,
        Fin::Server => !client,
        Fin::Both => true,
        Fin::ClientGone | Fin::ServerGone => {
            if client == (fin == Fin::ClientGone) {
                return Ok(());
            }
            expect(&mut e, w, None)?;
            return expect(&mut e, w, None);
        }
    };
    if begin {
        e.send(w, &first, false).map_err(|x| format!("sending close: {:?}", x))?;
    }
    if begin && fin != Fin::Both {
        expect(&mut e, w, Some(&second))?;
    } else {
        expect(&mut e, w, Some(&first))?;
        if !begin {
            e.send(w, &second, false).map_err(|x| format!("sending close: {:?}", x))?;
        }
    }
    // the server closes the connection first
    if client {
        expect(&mut e, w, None)?;
    }
    Ok(())
}
/// both directions at once, until the peer's close; the close is sent after the last message
fn duplex(e: Ep, w: &Arc<World>, client: bool, mut mine: Vec<OwnedMessage>, mut theirs: Vec<OwnedMessage>) -> Res {
    mine.push(close(1000, if client { "c" } else { "s" }));
    theirs.push(close(1000, if client { "s" } else { "c" }));
    let got: Vec<OwnedMessage> = match e {
        Ep::A(mut f) => {
            let (sink, stream) = f.take().unwrap().split();
            let n = theirs.len() as u64;
            let out = sink.send_all(futures::stream::iter_ok::<_, WebSocketError>(mine)).map(|x| x.0);
            let inn = stream.take(n).collect();
            let ((_s, got)) = wait(w, out.join(inn)).map_err(|x| format!("both directions: {:?}", x))?;
            got
        }
        Ep::S(c) => {
            let (mut r, mut s) = c.split().map_err(|x| format!("split: {:?}", x))?;
            let id = me() + 2;
            w.lock().st[id] = St::Run;
            let w2 = w.clone();
            let th = std::thread::spawn(move || {
                on_thread(&w2.clone(), id, move || {
                    for m in &mine {
                        s.send_message(m).map_err(|x| format!("sending: {:?}", x))?;
                    }
                    Ok(s)
                })
            });
            let mut got = vec![];
            let mut err = None;
            for _ in 0..theirs.len() {
                match r.recv_message() {
                    Ok(m) => got.push(m),
                    Err(x) => {
                        err = Some(format!("receiving: {:?} after {}", x, got.len()));
                        break;
                    }
                }
            }
            // let the sending thread finish before it is joined
            {
                let g = w.lock();
                if g.dead.is_none() && g.st[id] != St::Done {
                    drop(w.give_way(g, St::Join(id), None));
                }
            }
            let s = th.join().unwrap_or_else(|_| Err(format!("{}: thread panicked", HARNESS)));
            if let Some(e) = err {
                fail!("{}", e);
            }
            s?;
            got
        }
    };
    let show = |v: &[OwnedMessage]| v.iter().map(show_msg).collect::<Vec<_>>().join(", ");
    ensure!(got == theirs, "received {} instead of {}", show(&got), show(&theirs));
    Ok(())
}
fn session(how: How, tape: SharedTape, modes: (bool, bool), ops: &Arc<Vec<(bool, OwnedMessage)>>, mode: Mo, fin: Fin, frag: bool, c: &mut Case) -> Res {
    let (o1, o2) = (ops.clone(), ops.clone());
    both(
        how,
        tape,
        modes,
        c,
        move |w, e| {
            let (ep, _, _) = client_up(&w, e, modes.0, &Deal::default()).map_err(|x| format!("handshake: {:?}", x))?;
            program(ep, &w, true, &o1, mode, fin, frag)
        },
        move |w, e| {
            let (ep, _) = server_up(&w, e, modes.1, &Deal::default())?.ok_or(HARNESS)?;
            program(ep, &w, false, &o2, mode, fin, frag)
        },
    )?;
    Ok(())
}
fn alphabet() -> Vec<OwnedMessage> {
    vec![
        OwnedMessage::Text("h\u{e9}llo".into()),
        OwnedMessage::Binary(patb(126, 1)),
        OwnedMessage::Text(String::new()),
        OwnedMessage::Ping(patb(125, 2)),
        OwnedMessage::Pong(vec![]),
        OwnedMessage::Binary(patb(5000, 3)),
        OwnedMessage::Text(String::from_utf8(pat(65536, 4)).unwrap()),
    ]
}
const MODES: [(bool, bool); 4] = [(false, false), (true, false), (false, true), (true, true)];
fn show_modes(m: (bool, bool)) -> String {
    let n = |a| if a { "asynchronous" } else { "blocking" };
    format!("{} client, {} server", n(m.0), n(m.1))
}
const BIG: usize = 1 << 30;
const HOWS: [How; 8] = [
    How { cap: BIG, chunk: BIG, eager: false },
    How { cap: BIG, chunk: BIG, eager: true },
    How { cap: BIG, chunk: 1, eager: true },
    How { cap: 1, chunk: 1, eager: false },
    How { cap: 7, chunk: 5, eager: true },
    How { cap: 100, chunk: BIG, eager: false },
    How { cap: 4096, chunk: BIG, eager: true },
    How { cap: BIG, chunk: 17, eager: false },
];

fn msgs(l: &[(bool, usize)]) -> Arc<Vec<(bool, OwnedMessage)>> {
    let a = alphabet();
    Arc::new(l.iter().map(|(c, k)| (*c, a[*k].clone())).collect())
}
fn ext(name: &str, ps: &[(&str, Option<&str>)]) -> Extension {
    Extension { name: name.into(), params: ps.iter().map(|(n, v)| Parameter::new((*n).into(), v.map(|v| v.into()))).collect() }
}
/// all sequences without repetition of up to `n` of `k` things
fn arrangements(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        if out[i].len() < n {
            for x in 0..k {
                if !out[i].contains(&x) {
                    let mut v: Vec<usize> = out[i].clone();
                    v.push(x);
                    out.push(v);
                }
            }
        }
        i += 1;
    }
    out
}
fn deals() -> Vec<Deal> {
    let names = ["chat", "super.chat", "x-1"];
    let exts = [ext("deflate", &[]), ext("bits", &[("max", Some("15"))]), ext("multi", &[("a", None), ("b", Some("2")), ("c", None)])];
    let mut v = vec![];
    let base = Deal::default();
    for p in arrangements(3, 3) {
        for u in 0..=p.len() {
            let protocols = p.iter().map(|k| names[*k].to_string()).collect();
            let use_p = if u == 0 { vec![] } else { vec![u - 1] };
            v.push(Deal { protocols, use_p, ..base.clone() });
        }
    }
    for e in arrangements(3, 3) {
        for use_e in arrangements(e.len(), e.len()) {
            let extensions: Vec<Extension> = e.iter().map(|k| exts[*k].clone()).collect();
            v.push(Deal { extensions: extensions.clone(), use_e: use_e.clone(), ..base.clone() });
            v.push(Deal { extensions, use_e, protocols: vec!["chat".into(), "x-1".into()], use_p: vec![1], ..base.clone() });
        }
    }
    // the same names in other cases, repeated, not sorted
    let names = ["Chat", "chat", "ZED", "a1"];
    for l in 1..=3 {
        for k in 0..names.len().pow(l as u32) {
            let p: Vec<String> = (0..l).map(|j| names[k / names.len().pow(j as u32) % names.len()].to_string()).collect();
            for use_p in vec![vec![], vec![0], vec![l - 1], vec![l - 1, 0], vec![0, 0]] {
                v.push(Deal { protocols: p.clone(), use_p, ..base.clone() });
            }
        }
    }
    let exts = [ext("X-Webkit-Deflate", &[("Server_Max", Some("AbC")), ("no_CTX", None)]), ext("x-webkit-deflate", &[("server_max", Some("aBc"))]), ext("Zz", &[("B", Some("2")), ("a", Some("1")), ("B", Some("3"))])];
    for l in 1..=3 {
        for k in 0..exts.len().pow(l as u32) {
            let e: Vec<Extension> = (0..l).map(|j| exts[k / exts.len().pow(j as u32) % exts.len()].clone()).collect();
            for use_e in vec![vec![], vec![0], vec![l - 1, 0], (0..l).collect()] {
                v.push(Deal { extensions: e.clone(), use_e, protocols: vec!["Zp".into(), "ap".into()], use_p: vec![1, 0], ..base.clone() });
            }
        }
    }
    for uri in &["ws://h.test", "ws://h.test/UPPER/lower?Q=Z&a", "ws://h.test/", "ws://h.test/a/b?c=d&e=%20f", "ws://h.test:81/x", "wss://h.test/s", "ws://127.0.0.1/%C3%A9", "ws://[::1]:9/six"] {
        for origin in &[None, Some("http://o.test"), Some("https://o.test:8443")] {
            for k in 0..8 {
                v.push(Deal {
                    uri,
                    origin: origin.map(|o| o.into()),
                    extra: k & 1 == 1,
                    reject: k & 2 == 2,
                    limits: if k & 4 == 4 { Some((1 << 20, 1 << 21)) } else { None },
                    protocols: vec!["chat".into()],
                    use_p: if k & 1 == 1 { vec![0] } else { vec![] },
                    ..base.clone()
                });
            }
        }
    }
    v
}
fn deal(d: &Deal, modes: (bool, bool), how: How, tape: SharedTape, c: &mut Case) -> Res {
    let (d1, d2) = (d.clone(), d.clone());
    let ops = msgs(&[(true, 0), (false, 1)]);
    let (o1, o2) = (ops.clone(), ops);
    let (a, b) = both(
        how,
        tape,
        modes,
        c,
        move |w, e| match client_up(&w, e, modes.0, &d1) {
            Err(x) if d1.reject => {
                ensure!(format!("{:?}", x).contains("StatusCodeError"), "a rejection is reported as {:?}", x);
                Ok(None)
            }
            Err(x) => Err(format!("handshake: {:?}", x)),
            Ok((ep, a, h)) => {
                ensure!(!d1.reject, "rejected, yet connected");
                let x = h.get_raw("X-Served-By").map(|v| v.to_vec());
                ensure!(x == if d1.extra { Some(vec![b"mc".to_vec()]) } else { None }, "the server's own header: {:?}", x);
                program(ep, &w, true, &o1, Mo::Steps, Fin::Client, false)?;
                Ok(Some(a))
            }
        },
        move |w, e| match server_up(&w, e, modes.1, &d2)? {
            None => Ok(None),
            Some((ep, a)) => {
                program(ep, &w, false, &o2, Mo::Steps, Fin::Client, false)?;
                Ok(Some(a))
            }
        },
    )?;
    ensure!(a == b, "the client sees {:?} agreed, the server {:?}", a, b);
    if let Some(a) = a {
        let want = Agreed {
            protocols: d.use_p.iter().map(|k| d.protocols[*k].clone()).collect(),
            extensions: d.use_e.iter().map(|k| show_ext(&d.extensions[*k])).collect(),
        };
        ensure!(a == want, "agreed {:?}, both see {:?}", want, a);
    }
    Ok(())
}
fn fits(ops: &[(bool, usize)], mode: Mo, fin: Fin, how: How) -> bool {
    // both sides write before they read: only if the pipe takes it all
    !(mode == Mo::Batch && how.cap < BIG) && !(fin == Fin::Both && how.cap < 100) && !(mode == Mo::Duplex && fin != Fin::Both)
        // too slow byte by byte
        && !(how.chunk < 100 && ops.iter().any(|o| o.1 >= 6))
}
pub fn c19(x: &Ctx) {
    x.assume("the transport is a reliable ordered byte pipe; application programs which themselves deadlock on a full pipe are not considered");
    let ds = deals();
    x.bound("agreements: every order of up to 3 offered protocols and every choice, every order of up to 3 offered extensions and every choice of some in any order, 7 URLs, 3 origins, own headers, limits, rejection; 4 pairings, 4 delivery patterns");
    x.section("agreements", (ds.len() * 4 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let modes = MODES[ix.take(4)];
        let how = HOWS[[0, 2, 3, 4][ix.take(4)]];
        let d = &ds[ix.take(ds.len())];
        c.note = format!("{}, {:?}, {:?}", show_modes(modes), how, d);
        c.state(&i);
        deal(d, modes, how, Default::default(), c)?;
        c.trace(&(modes, d.reject, &d.use_p, &d.use_e, d.extra));
        Ok(())
    });
    let ls: Vec<usize> = (1..33).chain(crate::rx::sizes_around_powers(x.tier(1 << 13, 1 << 16)).into_iter().filter(|n| *n >= 33)).collect();
    x.bound(&format!("agreements of every size 1..32 and around powers of two to {}: length of a path, protocol, extension name, parameter value or origin, number of protocols, extensions and parameters; 4 pairings, 3 delivery patterns", x.tier(1 << 13, 1 << 16)));
    x.section("agreements/large", (ls.len() * 8 * 4 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let modes = MODES[ix.take(4)];
        let how = HOWS[[0, 5, 6][ix.take(3)]];
        let what = ix.take(8);
        let n = ls[ix.0 as usize];
        if what >= 5 && n > 1100 {
            return Ok(());
        }
        let w: String = (0..n).map(|k| (b'A' + (k * 7 % 26) as u8 + if k % 3 == 0 { 0 } else { 32 }) as char).collect();
        let base = Deal::default();
        let d = match what {
            0 => Deal { uri: Box::leak(format!("ws://h.test/{}", w).into_boxed_str()), ..base },
            1 => Deal { protocols: vec!["p".into(), w, "q".into()], use_p: vec![1, 0], ..base },
            2 => Deal { extensions: vec![ext("e", &[]), ext(&w, &[("a", Some("b"))])], use_e: vec![1], ..base },
            3 => Deal { extensions: vec![ext("e", &[("v", Some(&w)), (&w, None)])], use_e: vec![0], ..base },
            4 => Deal { origin: Some(format!("http://{}.test", w.to_ascii_lowercase())), ..base },
            5 => Deal { protocols: (0..n).map(|k| format!("P{}", k * 7919 % (n + 7))).collect(), use_p: (0..n).rev().step_by(1 + n / 50).collect(), ..base },
            6 => Deal { extensions: (0..n).map(|k| ext(&format!("E{}", k % 90), &[("k", Some(&k.to_string()))])).collect(), use_e: (0..n).rev().collect(), ..base },
            _ => {
                let ps: Vec<String> = (0..n).map(|k| format!("q{}", k * 31 % 97)).collect();
                Deal { extensions: vec![ext("m", &ps.iter().enumerate().map(|(k, p)| (&p[..], if k % 2 == 0 { Some("1") } else { None })).collect::<Vec<_>>())], use_e: vec![0], ..base }
            }
        };
        c.note = format!("{}, {:?}, {} of {}", show_modes(modes), how, ["path", "protocol", "extension name", "parameters", "origin", "protocols", "extensions", "parameters of one"][what], n);
        c.state(&i);
        deal(&d, modes, how, Default::default(), c)?;
        c.trace(&(modes, what, n));
        Ok(())
    });
    let ls: Vec<usize> = crate::rx::sizes_around_powers(x.tier(1 << 20, 1 << 24)).into_iter().filter(|n| *n >= 120).collect();
    x.bound(&format!("one message of every size around powers of two to {} each way, whole or in fragments, 4 pairings, 3 delivery patterns, lock step, batch, both directions at once", x.tier(1 << 20, 1 << 24)));
    x.section("large-messages", (ls.len() * 4 * 3 * 3 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let modes = MODES[ix.take(4)];
        let mode = [Mo::Steps, Mo::Batch, Mo::Duplex][ix.take(3)];
        let how = HOWS[[0, 5, 6][ix.take(3)]];
        let text = ix.take(2) == 1;
        let n = ls[ix.0 as usize];
        if mode == Mo::Batch && how.cap < BIG || how.cap == 100 && n > 70_000 || n > 1 << 21 && (i % 5 != 0) {
            return Ok(());
        }
        let mk = |s: usize| if text { OwnedMessage::Text(String::from_utf8(pat(n, s)).unwrap()) } else { OwnedMessage::Binary(patb(n, s)) };
        let ops = Arc::new(vec![(true, mk(1)), (false, OwnedMessage::Ping(vec![1])), (false, mk(2)), (true, OwnedMessage::Text("after".into()))]);
        let fin = if mode == Mo::Duplex { Fin::Both } else { FINS[n % 5] };
        let fin = if fin == Fin::Both && mode != Mo::Duplex && how.cap < BIG { Fin::Client } else { fin };
        c.note = format!("{}, {:?}, {:?} end {:?}, {} bytes", show_modes(modes), how, mode, fin, n);
        c.state(&i);
        session(how, Default::default(), modes, &ops, mode, fin, n % 2 == 0, c)?;
        c.trace(&(modes, mode, n, text));
        Ok(())
    });
    let ls: Vec<usize> = crate::rx::sizes_around_powers(x.tier(1 << 10, 1 << 14)).into_iter().filter(|n| *n >= 4).collect();
    x.bound(&format!("histories of every number around powers of two to {} of messages: 5 patterns (all from one side, alternating, bursts of 7, all kinds and sizes in turn, fragments with controls between), 4 pairings, 4 delivery patterns, lock step, batch, both directions at once", x.tier(1 << 10, 1 << 14)));
    x.section("long-histories", (ls.len() * 4 * 3 * 4 * 5) as u64, |c, i| {
        let mut ix = Ix(i);
        let modes = MODES[ix.take(4)];
        let mode = [Mo::Steps, Mo::Batch, Mo::Duplex][ix.take(3)];
        let how = HOWS[[0, 1, 5, 6][ix.take(4)]];
        let pattern = ix.take(5);
        let n = ls[ix.0 as usize];
        if mode == Mo::Batch && how.cap < BIG || n > 600 && hash_of(&i) % x.tier(4, 1) != 0 {
            return Ok(());
        }
        let ops: Vec<(bool, OwnedMessage)> = (0..n)
            .map(|k| {
                let who = match pattern {
                    0 => true,
                    1 => k % 2 == 0,
                    2 => k / 7 % 2 == 0,
                    3 => false,
                    _ => k % 3 == 0,
                };
                let m = match (pattern, k % 6) {
                    (0, _) | (1, _) => OwnedMessage::Text(format!("{}", k)),
                    (_, 0) => OwnedMessage::Binary(patb(k % 300, k)),
                    (_, 1) => OwnedMessage::Ping(patb(k % 126, k)),
                    (_, 2) => OwnedMessage::Text(String::from_utf8(pat(k % 1000, k)).unwrap()),
                    (_, 3) => OwnedMessage::Pong(patb((k + 63) % 126, k)),
                    (_, 4) => OwnedMessage::Text(String::new()),
                    _ => OwnedMessage::Binary(patb(120 + k % 12, k)),
                };
                (who, m)
            })
            .collect();
        let ops = Arc::new(ops);
        let fin = if mode == Mo::Duplex { Fin::Both } else { FINS[n % 5] };
        let fin = if fin == Fin::Both && mode != Mo::Duplex && how.cap < BIG { Fin::Client } else { fin };
        c.note = format!("{}, {:?}, {:?} end {:?}, {} messages, pattern {}", show_modes(modes), how, mode, fin, n, pattern);
        c.state(&i);
        session(how, Default::default(), modes, &ops, mode, fin, pattern == 4, c)?;
        c.trace(&(modes, mode, n, pattern));
        Ok(())
    });
    x.bound("bursts: 2, 3, 10 or 120 equal messages of 6 kinds from one side, then one of 0, 9000 or 70000 bytes, then the burst again; either side, 4 pairings, 4 delivery patterns, lock step, batch, both directions at once");
    x.section("bursts", (6 * 4 * 3 * 2 * 4 * 4 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let modes = MODES[ix.take(4)];
        let mode = [Mo::Steps, Mo::Batch, Mo::Duplex][ix.take(3)];
        let how = HOWS[[0, 1, 5, 6][ix.take(4)]];
        let who = ix.take(2) == 1;
        let (kind, n, big) = (ix.take(6), [2usize, 3, 10, 120][ix.take(4)], [0usize, 9000, 70_000][ix.take(3)]);
        if mode == Mo::Batch && how.cap < BIG || how.cap == 100 && big > 9000 {
            return Ok(());
        }
        let one = match kind {
            0 => OwnedMessage::Ping(vec![]),
            1 => OwnedMessage::Ping(patb(125, 3)),
            2 => OwnedMessage::Pong(patb(4, 3)),
            3 => OwnedMessage::Text(String::new()),
            4 => OwnedMessage::Text("again \u{e9}".into()),
            _ => OwnedMessage::Binary(patb(130, 3)),
        };
        let mut ops = vec![(!who, OwnedMessage::Text("other".into()))];
        ops.extend((0..n).map(|_| (who, one.clone())));
        ops.push((who, OwnedMessage::Binary(patb(big, 1))));
        ops.extend((0..n).map(|_| (who, one.clone())));
        let ops = Arc::new(ops);
        let fin = if mode == Mo::Duplex { Fin::Both } else { FINS[hash_of(&i) as usize % 5] };
        let fin = if fin == Fin::Both && mode != Mo::Duplex && how.cap < BIG { Fin::Client } else { fin };
        c.note = format!("{}, {:?}, {:?} end {:?}, {} times {} from the {}, then {} bytes", show_modes(modes), how, mode, fin, n, show_msg(&one), if who { "client" } else { "server" }, big);
        c.state(&i);
        session(how, Default::default(), modes, &ops, mode, fin, false, c)?;
        c.trace(&(modes, mode, n, kind, big));
        Ok(())
    });
    let progs: Vec<(Vec<(bool, usize)>, Mo)> = vec![
        (vec![], Mo::Steps),
        (vec![(true, 0)], Mo::Steps),
        (vec![(false, 0)], Mo::Steps),
        (vec![(true, 0), (false, 1), (true, 3), (false, 4)], Mo::Steps),
        (vec![(false, 1), (false, 2), (true, 1)], Mo::Steps),
        (vec![(true, 0), (true, 1), (false, 3), (false, 0)], Mo::Batch),
        (vec![(true, 5), (false, 5)], Mo::Batch),
        (vec![(true, 0), (false, 1)], Mo::Duplex),
        (vec![(true, 1), (true, 3), (true, 0), (false, 4), (false, 1)], Mo::Duplex),
        (vec![(true, 5), (false, 5), (true, 0), (false, 2)], Mo::Duplex),
    ];
    let mut jobs = vec![];
    for (p, prog) in progs.iter().enumerate() {
        for fin in &FINS {
            for how in &HOWS {
                for m in &MODES {
                    // byte by byte the choices are too many for 5000 bytes
                    if fits(&prog.0, prog.1, *fin, *how) && !(how.chunk < 100 && prog.0.iter().any(|o| o.1 == 5)) {
                        jobs.push((p, *fin, *how, *m));
                    }
                }
            }
        }
    }
    x.bound("schedules: 10 programs (lock step, each side all at once, both directions at the same time), 5 ways to end, 4 pairings, 8 default schedules; every deviation (other side first, one byte only, not ready now) at any one operation; thorough: every two for short programs");
    x.section("schedules", jobs.len() as u64, |c, i| {
        let (p, fin, how, modes) = jobs[i as usize];
        let (ref l, mode) = progs[p];
        let ops = msgs(l);
        c.note = format!("{}, {:?}, program {:?} {:?} end {:?}", show_modes(modes), how, mode, l, fin);
        let slow = how.chunk == 1;
        let bound = if x.thorough && p < 3 && how.chunk > 100 { 2 } else if slow && !x.thorough { 0 } else { 1 };
        let runs = explore(bound, 3_000_000, c, |tape, c| session(how, tape, modes, &ops, mode, fin, i % 2 == 1, c))?;
        c.traces += runs as u64;
        c.state(&i);
        c.trace(&(modes, p, fin));
        Ok(())
    });
    let depth = x.tier(3, 4);
    x.bound("histories: every sequence of up to 3 (4) messages over 7 messages and 2 directions, lock step, in batches, or both directions at once, 4 pairings, delivery pattern and end by rotation");
    x.section("histories", seq_count(14, depth) * 12, |c, i| {
        let mut ix = Ix(i);
        let modes = MODES[ix.take(4)];
        let mode = [Mo::Steps, Mo::Batch, Mo::Duplex][ix.take(3)];
        let l: Vec<(bool, usize)> = seq_of(14, ix.0).iter().map(|k| (k % 2 == 0, k / 2)).collect();
        let r = hash_of(&i) as usize;
        let (mut how, mut fin) = (HOWS[r % 8], FINS[r / 8 % 5]);
        if mode == Mo::Duplex {
            fin = Fin::Both;
        }
        if !fits(&l, mode, fin, how) {
            how = HOWS[if mode == Mo::Batch { r % 2 } else { 5 + r % 2 }];
        }
        c.note = format!("{}, {:?}, {:?} {:?} end {:?} {}", show_modes(modes), how, mode, l, fin, r / 40 % 2);
        c.state(&(modes, mode, &l));
        let ops = msgs(&l);
        session(how, Default::default(), modes, &ops, mode, fin, r / 40 % 2 == 1, c)?;
        c.trace(&(modes, mode, l.len(), fin));
        Ok(())
    });
}
