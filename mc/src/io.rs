//! Scripted in-memory transports: every answer of the environment is owned by the harness.
use crate::engine::SharedTape;
use futures::Poll;
use std::collections::VecDeque;
use std::io::{self, Error, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::stream::sync::Splittable;

#[derive(Clone, Debug)]
pub enum Seg {
    Data(Vec<u8>),
    Fail(ErrorKind),
    /// end of stream from here on
    Eof,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tail {
    Eof,
    WouldBlock,
    Fail(ErrorKind),
}
/// which fault alternatives a tape may choose on each call
#[derive(Clone, Copy, Debug, Default)]
pub struct Menu {
    pub r_short: bool,
    pub r_intr: bool,
    pub r_block: bool,
    pub r_err: bool,
    pub w_short: bool,
    pub w_intr: bool,
    pub w_block: bool,
    pub w_err: bool,
    pub f_block: bool,
    /// a would-block/timeout is only offered when the read position is at one of `marks`
    pub block_at_marks: bool,
}
pub struct State {
    pub input: VecDeque<Seg>,
    pub tail: Tail,
    pub max_read: usize,
    pub output: Vec<u8>,
    pub max_write: usize,
    /// explicit answers for writes: Ok(n) accept up to n, Err(kind)
    pub wscript: VecDeque<Result<usize, ErrorKind>>,
    pub wtail: Option<ErrorKind>,
    pub reads: usize,
    pub writes: usize,
    pub flushes: usize,
    pub consumed: usize,
    pub r_blocked: usize,
    pub w_blocked: usize,
    pub failed: bool,
    pub tape: Option<(SharedTape, Menu)>,
    pub marks: Vec<usize>,
    pub shutdown: bool,
    pub ended: bool,
    /// answers computed from what has been written so far
    pub responder: Option<Box<dyn FnMut(&[u8]) -> Option<Vec<u8>> + Send>>,
    pub block_run: usize,
    pub max_block_run: usize,
    pub dead: bool,
    /// every so many calls answer with this error first
    pub r_every: Option<(usize, ErrorKind)>,
    pub w_every: Option<(usize, ErrorKind)>,
    pub f_every: Option<usize>,
    /// bytes that are still taken before `wtail` applies
    pub budget: Option<usize>,
    /// keeps what is written until it is flushed or there is more than this
    pub hold: Option<usize>,
    pub held: Vec<u8>,
}
impl State {
    fn let_go(&mut self) {
        let held = std::mem::take(&mut self.held);
        self.output.extend_from_slice(&held);
    }
}
#[derive(Clone)]
pub struct Mock(pub Arc<Mutex<State>>);

impl Mock {
    pub fn new(segs: Vec<Seg>, tail: Tail) -> Mock {
        Mock(Arc::new(Mutex::new(State {
            input: segs.into_iter().collect(),
            tail,
            max_read: usize::MAX,
            output: vec![],
            max_write: usize::MAX,
            wscript: VecDeque::new(),
            wtail: None,
            reads: 0,
            writes: 0,
            flushes: 0,
            consumed: 0,
            r_blocked: 0,
            w_blocked: 0,
            failed: false,
            tape: None,
            marks: vec![],
            shutdown: false,
            ended: false,
            responder: None,
            block_run: 0,
            max_block_run: 1,
            dead: false,
            r_every: None,
            w_every: None,
            f_every: None,
            budget: None,
            hold: None,
            held: vec![],
        })))
    }
    pub fn with(bytes: &[u8], tail: Tail) -> Mock {
        Mock::new(vec![Seg::Data(bytes.to_vec())], tail)
    }
    pub fn chunks(bytes: &[u8], cuts: &[usize], tail: Tail) -> Mock {
        Mock::new(split_at(bytes, cuts).into_iter().map(Seg::Data).collect(), tail)
    }
    pub fn taped(self, t: SharedTape, m: Menu) -> Mock {
        self.st().tape = Some((t, m));
        self
    }
    pub fn max_read(self, n: usize) -> Mock {
        self.st().max_read = n;
        self
    }
    pub fn max_write(self, n: usize) -> Mock {
        self.st().max_write = n;
        self
    }
    pub fn st(&self) -> std::sync::MutexGuard<'_, State> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn rb(&self) -> usize {
        self.st().r_blocked
    }
    pub fn wb(&self) -> usize {
        self.st().w_blocked
    }
    pub fn failed(&self) -> bool {
        self.st().failed
    }
    pub fn used(&self) -> usize {
        self.st().consumed
    }
    pub fn push(&self, b: &[u8]) {
        self.st().input.push_back(Seg::Data(b.to_vec()));
    }
    pub fn out(&self) -> Vec<u8> {
        self.st().output.clone()
    }
    pub fn take_out(&self) -> Vec<u8> {
        std::mem::replace(&mut self.st().output, vec![])
    }
    /// bytes not yet handed out by the transport
    pub fn rest(&self) -> Vec<u8> {
        let s = self.st();
        let mut v = vec![];
        for x in &s.input {
            if let Seg::Data(d) = x {
                v.extend_from_slice(d);
            }
        }
        v
    }
    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.st();
        s.reads += 1;
        if s.reads > 4_000_000 {
            panic!("library-loop: endless reading");
        }
        if s.dead {
            s.failed = true;
            return Err(Error::new(ErrorKind::ConnectionReset, "mock"));
        }
        if let Some(mut r) = s.responder.take() {
            let o = s.output.clone();
            if let Some(b) = r(&o) {
                s.input.push_back(Seg::Data(b));
            } else {
                s.responder = Some(r);
            }
        }
        while let Some(Seg::Data(d)) = s.input.front() {
            if d.is_empty() {
                s.input.pop_front();
            } else {
                break;
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((k, e)) = s.r_every {
            if s.reads % k == 0 {
                if e == ErrorKind::WouldBlock {
                    s.r_blocked += 1;
                }
                return Err(e.into());
            }
        }
        let mut limit = s.max_read;
        let avail = match s.input.front() {
            Some(Seg::Data(d)) => d.len().min(buf.len()).min(limit),
            _ => 0,
        };
        if let Some((t, m)) = s.tape.clone() {
            // 0 default, then: short(1), short(half), interrupted, would-block, error
            let mut menu: Vec<u8> = vec![0];
            if m.r_short && avail > 1 {
                menu.push(1);
                if avail > 3 {
                    menu.push(2);
                }
            }
            let marked = !m.block_at_marks || s.marks.contains(&s.consumed);
            if m.r_intr && s.block_run < s.max_block_run {
                menu.push(3);
            }
            if m.r_block && marked && s.block_run < s.max_block_run {
                menu.push(4);
            }
            if m.r_err {
                menu.push(5);
            }
            let c = menu[t.lock().unwrap().choose(menu.len())];
            match c {
                1 => limit = 1,
                2 => limit = avail / 2,
                3 => {
                    s.block_run += 1;
                    return Err(ErrorKind::Interrupted.into());
                }
                4 => {
                    s.block_run += 1;
                    s.r_blocked += 1;
                    return Err(ErrorKind::WouldBlock.into());
                }
                5 => {
                    s.failed = true;
                    s.dead = true;
                    return Err(Error::new(ErrorKind::ConnectionReset, "mock"));
                }
                _ => {}
            }
        }
        s.block_run = 0;
        match s.input.front_mut() {
            None => match s.tail {
                Tail::Eof => {
                    s.ended = true;
                    Ok(0)
                }
                Tail::WouldBlock => {
                    s.r_blocked += 1;
                    Err(ErrorKind::WouldBlock.into())
                }
                Tail::Fail(k) => {
                    s.failed = true;
                    Err(Error::new(k, "mock"))
                }
            },
            Some(Seg::Eof) => {
                s.ended = true;
                Ok(0)
            }
            Some(Seg::Fail(k)) => {
                let k = *k;
                s.input.pop_front();
                if k == ErrorKind::WouldBlock {
                    s.r_blocked += 1;
                } else if k != ErrorKind::Interrupted {
                    s.failed = true;
                }
                Err(Error::new(k, "mock"))
            }
            Some(Seg::Data(d)) => {
                let n = d.len().min(buf.len()).min(limit);
                buf[..n].copy_from_slice(&d[..n]);
                d.drain(..n);
                s.consumed += n;
                Ok(n)
            }
        }
    }
    fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.st();
        s.writes += 1;
        if s.writes > 4_000_000 + 2 * s.output.len() {
            panic!("library-loop: endless writing");
        }
        if s.dead {
            s.failed = true;
            return Err(Error::new(ErrorKind::BrokenPipe, "mock"));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((k, e)) = s.w_every {
            if s.writes % k == 0 {
                if e == ErrorKind::WouldBlock {
                    s.w_blocked += 1;
                }
                return Err(e.into());
            }
        }
        let mut n = buf.len().min(s.max_write);
        if let Some((t, m)) = s.tape.clone() {
            let mut menu: Vec<u8> = vec![0];
            if m.w_short && n > 1 {
                menu.push(1);
                if n > 3 {
                    menu.push(2);
                }
            }
            if m.w_intr && s.block_run < s.max_block_run {
                menu.push(3);
            }
            if m.w_block && s.block_run < s.max_block_run {
                menu.push(4);
            }
            if m.w_err {
                menu.push(5);
            }
            let c = menu[t.lock().unwrap().choose(menu.len())];
            match c {
                1 => n = 1,
                2 => n /= 2,
                3 => {
                    s.block_run += 1;
                    return Err(ErrorKind::Interrupted.into());
                }
                4 => {
                    s.block_run += 1;
                    s.w_blocked += 1;
                    return Err(ErrorKind::WouldBlock.into());
                }
                5 => {
                    s.failed = true;
                    s.dead = true;
                    return Err(Error::new(ErrorKind::BrokenPipe, "mock"));
                }
                _ => {}
            }
        }
        s.block_run = 0;
        match s.wscript.pop_front() {
            Some(Ok(k)) => n = n.min(k),
            Some(Err(k)) => {
                if k == ErrorKind::WouldBlock {
                    s.w_blocked += 1;
                } else if k != ErrorKind::Interrupted {
                    s.failed = true;
                }
                return Err(Error::new(k, "mock"));
            }
            None if s.budget.map_or(false, |b| b > 0) => {
                n = n.min(s.budget.unwrap());
                s.budget = Some(s.budget.unwrap() - n);
            }
            None => {
                if let Some(k) = s.wtail {
                    if k == ErrorKind::WouldBlock {
                        s.w_blocked += 1;
                    } else {
                        s.failed = true;
                    }
                    return Err(Error::new(k, "mock"));
                }
            }
        }
        match s.hold {
            None => s.output.extend_from_slice(&buf[..n]),
            Some(k) => {
                s.held.extend_from_slice(&buf[..n]);
                if s.held.len() > k {
                    s.let_go();
                }
            }
        }
        Ok(n)
    }
    fn do_flush(&self) -> io::Result<()> {
        let mut s = self.st();
        s.flushes += 1;
        if s.dead {
            return Err(Error::new(ErrorKind::BrokenPipe, "mock"));
        }
        if let Some(k) = s.f_every {
            if s.flushes % k == 0 {
                s.w_blocked += 1;
                return Err(ErrorKind::WouldBlock.into());
            }
        }
        if let Some((t, m)) = s.tape.clone() {
            if m.f_block && s.block_run < s.max_block_run && t.lock().unwrap().choose(2) == 1 {
                s.block_run += 1;
                s.w_blocked += 1;
                return Err(ErrorKind::WouldBlock.into());
            }
        }
        s.let_go();
        Ok(())
    }
}
impl Read for Mock {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}
impl Write for Mock {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.do_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.do_flush()
    }
}
impl AsyncRead for Mock {}
impl AsyncWrite for Mock {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        self.st().shutdown = true;
        Ok(futures::Async::Ready(()))
    }
}
impl Splittable for Mock {
    type Reader = Mock;
    type Writer = Mock;
    fn split(self) -> io::Result<(Mock, Mock)> {
        Ok((self.clone(), self))
    }
}

/// split at sorted offsets
pub fn split_at(b: &[u8], cuts: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = 0;
    for &c in cuts {
        let c = c.min(b.len());
        if c > p {
            v.push(b[p..c].to_vec());
            p = c;
        }
    }
    if p < b.len() {
        v.push(b[p..].to_vec());
    }
    v
}
/// bit i set = cut before byte i+1
pub fn cuts_of_mask(m: u64, n: usize) -> Vec<usize> {
    (0..n.saturating_sub(1)).filter(|i| m >> i & 1 == 1).map(|i| i + 1).collect()
}
/// all sorted tuples of up to k cut positions in 1..n, as indexes
pub fn cut_tuples(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut nl = vec![];
        for t in &level {
            let lo = t.last().cloned().unwrap_or(0) + 1;
            for c in lo..n {
                let mut x = t.clone();
                x.push(c);
                nl.push(x);
            }
        }
        out.extend(nl.iter().cloned());
        level = nl;
    }
    out
}

impl hyper::net::NetworkStream for Mock {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> {
        Ok("127.0.0.1:9".parse().unwrap())
    }
    fn set_read_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
}
