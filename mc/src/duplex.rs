//! C15: the two directions of a connection are independent.
use crate::drv::*;
use crate::engine::*;
use crate::ensure;
use crate::http::*;
use crate::io::*;
use crate::model::*;
use crate::tx::{check_all, check_out, msg_fr};
use futures::{executor, Async, Sink, Stream};
use std::io::{ErrorKind, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;
use websocket::client::sync::Client;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::receiver::Reader;
use websocket::sender::Writer;
use websocket::server::upgrade::sync::{IntoWs, RequestStreamPair};
use websocket::stream::ReadWritePair;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

const LIM: (usize, usize) = (130, 260);
/// what the peer of an endpoint of role `server` sends
fn streams(server: bool) -> Vec<Vec<Fr>> {
    let f = |l: Vec<Fr>| -> Vec<Fr> { l.into_iter().enumerate().map(|(i, f)| f.to(server, i)).collect() };
    let mut v = vec![
        f(vec![fr(true, 1, b"one"), fr(true, 2, b"\x00\xff")]),
        f(vec![fr(false, 1, b"ab"), fr(true, 9, b"p"), fr(false, 0, b"cd"), fr(true, 10, b"q"), fr(true, 0, b"ef"), fr(true, 1, b"x")]),
        // over the message limit of 260 (64 per fragment) with the second or third fragment
        f(vec![fr(false, 2, &patb(100, 1)), fr(true, 9, b""), fr(false, 0, &patb(100, 2)), fr(true, 0, b"z"), fr(true, 1, b"after")]),
        f(vec![fr(true, 1, b"t"), fr(true, 2, &patb(131, 1)), fr(true, 1, b"after")]),
        f(vec![fr(false, 1, "h\u{e9}".as_bytes()), fr(true, 8, &[3, 232]), fr(true, 0, b"!")]),
        f(vec![fr(false, 1, &"h\u{e9}".as_bytes()[..2]), fr(true, 9, b"in"), fr(true, 0, &"h\u{e9}".as_bytes()[2..]), fr(true, 2, &patb(130, 5))]),
        f(vec![fr(false, 1, b"a"), fr(true, 9, b"p"), fr(true, 1, b"new")]),
    ];
    // the wrong role's frame at the end of a fragmented message
    let mut w = f(vec![fr(false, 1, b"a"), fr(true, 9, b"p")]);
    w.push(fr(true, 0, b"bad").to(!server, 2));
    w.push(fr(true, 1, b"after").to(server, 3));
    v.push(w);
    v
}
enum End<S: std::io::Read + std::io::Write, R: std::io::Read, W: std::io::Write> {
    Whole(Client<S>),
    Split(Reader<R>, Writer<W>),
    Gone,
}
impl<S, R, W> End<S, R, W>
where
    S: Read + Write + websocket::stream::sync::Splittable<Reader = R, Writer = W>,
    R: Read,
    W: Write,
{
    fn split(&mut self) -> Res {
        *self = match std::mem::replace(self, End::Gone) {
            End::Whole(c) => {
                let (r, w) = c.split().map_err(|e| format!("split failed: {}", e))?;
                End::Split(r, w)
            }
            o => o,
        };
        Ok(())
    }
    fn recv(&mut self) -> Result<OwnedMessage, WebSocketError> {
        match self {
            End::Whole(c) => c.recv_message(),
            End::Split(r, _) => r.recv_message(),
            End::Gone => unreachable!(),
        }
    }
    fn recv_iter(&mut self) -> Option<Result<OwnedMessage, WebSocketError>> {
        match self {
            End::Whole(c) => c.incoming_messages().next(),
            End::Split(r, _) => r.incoming_messages().next(),
            End::Gone => unreachable!(),
        }
    }
    fn send(&mut self, m: &OwnedMessage) -> Result<(), WebSocketError> {
        match self {
            End::Whole(c) => c.send_message(m),
            End::Split(_, w) => w.send_message(m),
            End::Gone => unreachable!(),
        }
    }
    fn send_df(&mut self, m: &DataFrame) -> Result<(), WebSocketError> {
        match self {
            End::Whole(c) => c.send_dataframe(m),
            End::Split(_, w) => w.send_dataframe(m),
            End::Gone => unreachable!(),
        }
    }
}
fn connect<S: Read + Write>(s: S, server: bool) -> Result<Client<S>, String> {
    connect_lim(s, server, LIM)
}
fn connect_lim<S: Read + Write>(s: S, server: bool, lim: (usize, usize)) -> Result<Client<S>, String> {
    if server {
        let up = RequestStreamPair(s, good_request()).into_ws().map_err(|(_, _, e)| format!("valid request refused: {:?}", e))?;
        up.accept_with_limits(lim.0, lim.1).map_err(|(_, e)| format!("accept failed: {:?}", e))
    } else {
        let mut b = ClientBuilder::new("ws://example.com/")
            .map_err(|e| e.to_string())?
            .key(KEY_BYTES)
            .max_dataframe_size(lim.0)
                .max_message_size(lim.1);
        b.connect_on(s).map_err(|e| format!("valid response refused: {:?}", e))
    }
}
fn hello(server: bool) -> Vec<u8> {
    if server {
        vec![]
    } else {
        response(&accept_for(KEY))
    }
}

fn history<S, R, W>(mk: impl Fn(&Mock) -> S, server: bool, lim: (usize, usize), frames: &[Fr], arrival: usize, ops: &[usize], at: usize, c: &mut Case) -> Res
where
    S: Read + Write + websocket::stream::sync::Splittable<Reader = R, Writer = W>,
    R: Read,
    W: Write,
{
    let bytes = wire(frames);
    let mut segs = vec![Seg::Data(hello(server))];
    match arrival {
        0 => {
            let mut all = hello(server);
            all.extend(&bytes);
            segs = vec![Seg::Data(all)];
        }
        1 => {
            for f in frames {
                segs.push(Seg::Fail(ErrorKind::WouldBlock));
                segs.push(Seg::Data(f.bytes()));
            }
        }
        _ => segs.push(Seg::Data(bytes.clone())),
    }
    let io = Mock::new(segs, Tail::Eof);
    if arrival == 2 {
        io.st().max_read = 1;
        io.st().max_write = 3;
    }
    let mut e: End<S, R, W> = End::Whole(connect_lim(mk(&io), server, lim)?);
    io.take_out();
    let mut obs: Vec<Obs> = vec![];
    let mut dead = false;
    let mut want: Vec<Fr> = vec![];
    let mut n = 0;
    for (k, op) in ops.iter().enumerate() {
        if k == at {
            e.split()?;
        }
        c.step();
        n += 1;
        match op {
            0 => {
                if dead {
                    continue;
                }
                let o = if k % 2 == 0 {
                    res_obs(e.recv())
                } else {
                    match e.recv_iter() {
                        Some(r) => res_obs(r),
                        None => Obs::NoData,
                    }
                };
                match o {
                    Obs::Pending => {}
                    Obs::Msg(_) => obs.push(o),
                    o => {
                        dead = true;
                        obs.push(o)
                    }
                }
            }
            1 => {
                let m = if n % 2 == 0 { OwnedMessage::Text(format!("m{}", n)) } else { OwnedMessage::Pong(patb(n % 126, 3)) };
                e.send(&m).map_err(|x| format!("send {}: {:?}", n, x))?;
                want.push(msg_fr(&m));
            }
            2 => {
                let d = DataFrame::new(n % 2 == 0, Opcode::Binary, patb(n % 41 * 50, n));
                e.send_df(&d).map_err(|x| format!("send {}: {:?}", n, x))?;
                want.push(fr(n % 2 == 0, 2, &patb(n % 41 * 50, n)));
            }
            _ => {
                let r = e.send(&OwnedMessage::Ping(vec![7; 126]));
                ensure!(r.is_err(), "a ping over 125 bytes was sent");
            }
        }
    }
    if at == ops.len() {
        e.split()?;
    }
    // the sending direction: exactly what was sent, whatever was received
    check_all(&io.out(), &want, server)?;
    // the receiving direction: drain, then compare with the model of the stream alone
    let mut idle = 0;
    while !dead {
        c.step();
        match res_obs(e.recv()) {
            Obs::Pending => {
                idle += 1;
                ensure!(idle < 50 + frames.len(), "receiving never continues");
            }
            o => {
                dead = !matches!(o, Obs::Msg(_));
                obs.push(o)
            }
        }
    }
    check_obs(&bytes, RxModel::limits(server, lim.0 as u64, lim.1 as u64), Ending::SyncEof, &obs)?;
    // sending still works after the receiving direction ended
    e.send(&OwnedMessage::Text("last".into())).map_err(|x| format!("send after the receiving direction ended: {:?}", x))?;
    want.push(fr(true, 1, b"last"));
    check_all(&io.out(), &want, server)?;
    c.trace(&(server, arrival, obs.len(), want.len(), at.min(7)));
    Ok(())
}

pub fn c15(x: &Ctx) {
    x.assume("a would-block inside a frame on a blocking connection is outside the property; Linux semantics of shutdown on loopback TCP");
    let depth = x.tier(5, 7);
    x.bound("blocking: every sequence of up to 5 (7) of {receive, send message, send frame, refused send}, split before any of them, at the end or never, 8 incoming streams (fragments, interleaved control frames, limit and role violations), 3 arrival patterns, both roles, 2 kinds of splittable streams");
    let ns = streams(true).len();
    x.section("histories", seq_count(4, depth) * (ns * 3 * 2 * 2 * (depth + 2)) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let pair = ix.take(2) == 1;
        let arrival = ix.take(3);
        let s = ix.take(ns);
        let at = ix.take(depth + 2);
        let ops = seq_of(4, ix.0);
        if at > ops.len() && at != depth + 1 {
            return Ok(());
        }
        let frames = &streams(server)[s];
        c.state(&(server, pair, arrival, s, at, &ops));
        c.note = format!(
            "server={} pair={} arrival {} ops {:?} (0 receive 1 send message 2 send frame 3 refused send) split before {} stream {}",
            server,
            pair,
            arrival,
            ops,
            at,
            show(frames)
        );
        if pair {
            history(|io: &Mock| ReadWritePair(io.clone(), io.clone()), server, LIM, frames, arrival, &ops, at, c)
        } else {
            history(|io: &Mock| io.clone(), server, LIM, frames, arrival, &ops, at, c)
        }
    });

    wide(x);
    // asynchronous: operations and transport events
    let ad = x.tier(6, 8);
    x.bound("asynchronous: every sequence of up to 6 (8) of {poll, start send, flush, input arrives, output of 5 bytes or everything becomes possible}, 3 streams, both roles, split before any operation or never");
    x.section("async-histories", seq_count(6, ad) * (3 * 2 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let s = ix.take(3);
        let at = [0, 2, 4, 99][ix.take(4)];
        let ops = seq_of(6, ix.0);
        let frames = &streams(server)[[0, 1, 4][s]];
        c.note = format!("server={} ops {:?} (0 poll 1 send 2 flush 3 input 4 five bytes 5 all output) split before {} stream {}", server, ops, at, show(frames));
        c.state(&(server, s, at, &ops));
        async_history(server, frames, &ops, at, c)
    });
    broken_half(x);
    tcp(x);
    crate::stall::halves(x);
}

/// one direction of the transport fails or is stuck: the other carries on
fn broken_half(x: &Ctx) {
    const FAULT: [&str; 10] = [
        "writes would block",
        "writes are refused (broken pipe)",
        "writes time out",
        "writes take 3 bytes and no more",
        "flushes would block",
        "writes and flushes would block",
        "reads would block",
        "reads fail (reset)",
        "reads time out",
        "nothing more comes",
    ];
    const KINDS: [&str; 3] = ["one stream", "a pair of streams", "framed over a pair of streams"];
    let depth = x.tier(4, 6);
    x.bound("one direction of the transport stuck or broken in 10 ways from any point of a history of up to 4 (6) receives (directly or by the iterator), sends of messages or frames, and the split: the other direction is exact; blocking over one stream or a pair, and asynchronous over a pair, both roles");
    let from = depth + 1;
    x.section("broken-half", seq_count(5, depth) * (2 * KINDS.len() * FAULT.len() * from) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let kind = ix.take(KINDS.len());
        let fault = ix.take(FAULT.len());
        let at = ix.take(from);
        let ops = seq_of(5, ix.0);
        if at > ops.len() {
            return Ok(());
        }
        c.note = format!("server={} {}, {} from operation {} of {:?} (0 receive 1 iterator 2 send message 3 send frame 4 split)", server, KINDS[kind], FAULT[fault], at, ops);
        c.state(&(server, kind, fault, at, &ops));
        let incoming = |k: usize| if k % 3 == 1 { OwnedMessage::Ping(pat(k, 1)) } else { OwnedMessage::Text(format!("in {}", k)) };
        let input: Vec<Vec<u8>> = (0..depth).map(|k| msg_fr(&incoming(k)).to(server, k).bytes()).collect();
        let outgoing = |k: usize| OwnedMessage::Binary(pat(k * 30, k));
        // a pair keeps its directions in two streams, each of which refuses what is not its part
        let rd = Mock::new(vec![Seg::Data(hello(server))], Tail::WouldBlock);
        let wr = if kind == 0 { rd.clone() } else { Mock::new(vec![], Tail::Fail(ErrorKind::Other)) };
        if kind != 0 {
            rd.st().wtail = Some(ErrorKind::Other);
            rd.st().budget = Some(0);
        }
        let breaks_reads = fault >= 6;
        let (mut got, mut sent): (usize, Vec<Fr>) = (0, vec![]);
        // (what arrives is there when it is asked for)
        let strike = || {
            let mut w = wr.st();
            match fault {
                0 => w.wtail = Some(ErrorKind::WouldBlock),
                1 => w.wtail = Some(ErrorKind::BrokenPipe),
                2 => w.wtail = Some(ErrorKind::TimedOut),
                3 => {
                    w.wtail = Some(ErrorKind::WouldBlock);
                    w.budget = Some(3)
                }
                4 => w.f_every = Some(1),
                5 => {
                    w.wtail = Some(ErrorKind::WouldBlock);
                    w.f_every = Some(1)
                }
                _ => {
                    drop(w);
                    let mut r = rd.st();
                    r.input.clear();
                    r.tail = [Tail::WouldBlock, Tail::Fail(ErrorKind::ConnectionReset), Tail::Fail(ErrorKind::TimedOut), Tail::Eof][fault - 6];
                }
            }
        };
        if kind < 2 {
            // blocking
            fn run<S, R, W>(
                s: S,
                server: bool,
                ops: &[usize],
                at: usize,
                breaks_reads: bool,
                strike: impl Fn(),
                arrive: impl Fn(usize),
                incoming: impl Fn(usize) -> OwnedMessage,
                outgoing: impl Fn(usize) -> OwnedMessage,
                wr: &Mock,
                c: &mut Case,
            ) -> Result<(usize, Vec<Fr>), String>
            where
                S: Read + Write + websocket::stream::sync::Splittable<Reader = R, Writer = W>,
                R: Read,
                W: Write,
            {
                let mut e = End::Whole(connect(s, server)?);
                wr.take_out();
                let (mut got, mut sent) = (0, vec![]);
                for (k, op) in ops.iter().enumerate() {
                    c.step();
                    if k == at {
                        strike();
                    }
                    let broken = k >= at;
                    match op {
                        0 | 1 => {
                            if !(broken && breaks_reads) {
                                arrive(got);
                            }
                            let r = if *op == 0 { e.recv() } else { e.recv_iter().unwrap_or_else(|| Err(WebSocketError::ProtocolError("the iterator ended"))) };
                            if broken && breaks_reads {
                                ensure!(r.is_err(), "received {:?} from nowhere", r);
                            } else {
                                match r {
                                    Ok(m) => ensure!(m == incoming(got), "received {} as message {}", show_msg(&m), got),
                                    Err(er) => return Err(format!("message {} is there, but {:?} is reported", got, er)),
                                }
                                got += 1;
                            }
                        }
                        2 | 3 => {
                            let m = outgoing(k);
                            let (opc, data) = payload_of(&m);
                            let r = if *op == 2 { e.send(&m) } else { e.send_df(&DataFrame::new(true, Opcode::new(opc).unwrap(), data)) };
                            if !broken || breaks_reads {
                                r.map_err(|er| format!("send reports {:?} although only the other direction is broken", er))?;
                            }
                            sent.push(msg_fr(&m));
                        }
                        _ => e.split()?,
                    }
                }
                Ok((got, sent))
            }
            let arrive = |k: usize| rd.push(&input[k]);
            let r = if kind == 0 {
                run(rd.clone(), server, &ops, at, breaks_reads, &strike, arrive, incoming, outgoing, &wr, c)?
            } else {
                run(ReadWritePair(rd.clone(), wr.clone()), server, &ops, at, breaks_reads, &strike, arrive, incoming, outgoing, &wr, c)?
            };
            got = r.0;
            sent = r.1;
        } else {
            let pair = ReadWritePair(rd.clone(), wr.clone());
            let fut = if server {
                use websocket::server::upgrade::r#async::Upgrade as AUp;
                AUp { headers: hyper::header::Headers::new(), stream: pair, request: good_request(), buffer: bytes::BytesMut::new() }.accept()
            } else {
                ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES).async_connect_on(pair)
            };
            let f = run_future(fut, 100)?.map_err(|e| format!("handshake over a pair: {:?}", e))?.0;
            wr.take_out();
            let mut whole = Some(executor::spawn(f));
            let n = noop();
            let mut halves: Option<(_, _)> = None;
            for (k, op) in ops.iter().enumerate() {
                c.step();
                if k == at {
                    strike();
                }
                let broken = k >= at;
                match op {
                    0 | 1 => {
                        if !(broken && breaks_reads) {
                            rd.push(&input[got]);
                        }
                        let r = match (&mut whole, &mut halves) {
                            (Some(w), _) => w.poll_stream_notify(&n, 0),
                            (_, Some((r, _))) => {
                                let r: &mut executor::Spawn<futures::stream::SplitStream<_>> = r;
                                r.poll_stream_notify(&n, 0)
                            }
                            _ => unreachable!(),
                        };
                        if broken && breaks_reads {
                            ensure!(!matches!(r, Ok(Async::Ready(Some(_)))), "received {:?} from nowhere", r);
                            // an ended or failed stream is not polled again
                            if !matches!(r, Ok(Async::NotReady)) {
                                break;
                            }
                        } else {
                            match r {
                                Ok(Async::Ready(Some(m))) => ensure!(m == incoming(got), "received {} as message {}", show_msg(&m), got),
                                o => return Err(format!("message {} is there, but {:?} is reported", got, o)),
                            }
                            got += 1;
                        }
                    }
                    2 | 3 => {
                        let m = outgoing(k);
                        let flush = *op == 3;
                        let (a, b) = match (&mut whole, &mut halves) {
                            (Some(w), _) => (w.start_send_notify(m.clone(), &n, 0).map(|a| a.is_ready()), if flush { w.poll_flush_notify(&n, 0).map(|a| a.is_ready()) } else { Ok(true) }),
                            (_, Some((_, w))) => {
                                let w: &mut executor::Spawn<futures::stream::SplitSink<_>> = w;
                                (w.start_send_notify(m.clone(), &n, 0).map(|a| a.is_ready()), if flush { w.poll_flush_notify(&n, 0).map(|a| a.is_ready()) } else { Ok(true) })
                            }
                            _ => unreachable!(),
                        };
                        if !broken || breaks_reads {
                            ensure!(matches!(a, Ok(true)) && matches!(b, Ok(true)), "send reports {:?} {:?} although only the other direction is broken", a, b);
                        }
                        sent.push(msg_fr(&m));
                    }
                    _ => {
                        if let Some(w) = whole.take() {
                            let (s, r) = w.into_inner().split();
                            halves = Some((executor::spawn(r), executor::spawn(s)));
                        }
                    }
                }
            }
            if breaks_reads || at >= ops.len() {
                let r = match (&mut whole, &mut halves) {
                    (Some(w), _) => w.poll_flush_notify(&n, 0).map(|a| a.is_ready()),
                    (_, Some((_, w))) => w.poll_flush_notify(&n, 0).map(|a| a.is_ready()),
                    _ => unreachable!(),
                };
                ensure!(matches!(r, Ok(true)), "flush reports {:?} although only the other direction is broken", r);
            }
        }
        // what was sent before or beside the fault is there, and only frames
        let out = wr.out();
        if breaks_reads || at >= ops.len() {
            check_all(&out, &sent, server)?;
        } else {
            check_out(&out, &sent, server)?;
        }
        c.trace(&(got, sent.len(), out.len()));
        Ok(())
    });
}

type Half = (
    Box<dyn FnMut() -> Result<Async<Option<OwnedMessage>>, WebSocketError>>,
    Box<dyn FnMut(OwnedMessage) -> Result<bool, WebSocketError>>,
    Box<dyn FnMut() -> Result<bool, WebSocketError>>,
);
fn parts(f: Fd) -> Half {
    let (w, r) = f.split();
    let mut r = executor::spawn(r);
    let w = std::rc::Rc::new(std::cell::RefCell::new(executor::spawn(w)));
    let w2 = w.clone();
    (
        Box::new(move || r.poll_stream_notify(&noop(), 0)),
        Box::new(move |m| w.borrow_mut().start_send_notify(m, &noop(), 0).map(|a| a.is_ready())),
        Box::new(move || w2.borrow_mut().poll_flush_notify(&noop(), 0).map(|a| a.is_ready())),
    )
}
fn async_history(server: bool, frames: &[Fr], ops: &[usize], at: usize, c: &mut Case) -> Res {
    async_history_lim(server, LIM, frames, ops, at, 0, c)
}
fn async_history_lim(server: bool, lim: (usize, usize), frames: &[Fr], ops: &[usize], at: usize, big: usize, c: &mut Case) -> Res {
    let io = Mock::new(vec![], Tail::WouldBlock);
    let f = async_client(&io, server, Some(lim))?;
    io.st().wtail = Some(ErrorKind::WouldBlock);
    let mut whole = Some(executor::spawn(f));
    let mut halves: Option<Half> = None;
    let bytes = wire(frames);
    // pieces: half frames
    let mut cuts = vec![];
    let mut p = 0;
    for f in frames {
        let n = f.bytes().len();
        cuts.push(p + n / 2);
        cuts.push(p + n);
        p += n;
    }
    let pieces = split_at(&bytes, &cuts);
    // messages and the number of pieces that complete them
    let mut model = RxModel::limits(server, lim.0 as u64, lim.1 as u64);
    let mut due: Vec<(usize, OwnedMessage)> = vec![];
    for (k, f) in frames.iter().enumerate() {
        let b = f.bytes();
        let h = parse_header(&b).0.unwrap();
        if let Some(m) = model.on_frame(&h, &f.payload).msg {
            due.push((2 * (k + 1), m));
        }
    }
    let mut arrived = 0;
    let mut got = 0;
    let mut want: Vec<Fr> = vec![];
    let mut budget = 0;
    let n = noop();
    for (k, op) in ops.iter().enumerate() {
        if k == at {
            if let Some(s) = whole.take() {
                halves = Some(parts(s.into_inner()));
            }
        }
        c.step();
        match op {
            0 => {
                let r = match (&mut whole, &mut halves) {
                    (Some(w), _) => w.poll_stream_notify(&n, 0),
                    (_, Some(h)) => (h.0)(),
                    _ => unreachable!(),
                }
                .map_err(|e| format!("op {}: receive failed: {:?}", k, e))?;
                let ready = due.get(got).map_or(false, |d| d.0 <= arrived);
                match r {
                    Async::Ready(Some(m)) => {
                        ensure!(ready && m == due[got].1, "op {}: received {} instead of {:?}", k, show_msg(&m), due.get(got).map(|d| show_msg(&d.1)));
                        got += 1;
                    }
                    Async::Ready(None) => return Err(format!("op {}: the stream ended", k)),
                    Async::NotReady => ensure!(!ready, "op {}: nothing received although {} has arrived", k, show_msg(&due[got].1)),
                }
            }
            1 => {
                let m = if big > 0 { OwnedMessage::Binary(patb(big, k)) } else { OwnedMessage::Text(format!("m{}", k)) };
                let r = match (&mut whole, &mut halves) {
                    (Some(w), _) => w.start_send_notify(m.clone(), &n, 0).map(|a| a.is_ready()),
                    (_, Some(h)) => (h.1)(m.clone()),
                    _ => unreachable!(),
                }
                .map_err(|e| format!("op {}: send failed: {:?}", k, e))?;
                if !r {
                    // only a full output buffer may refuse
                    let all = check_out(&io.out(), &want, server)?;
                    ensure!(all.0 < want.len() || all.2, "op {}: message not accepted although all output is written", k);
                    continue;
                }
                want.push(msg_fr(&m));
            }
            2 => {
                let r = match (&mut whole, &mut halves) {
                    (Some(w), _) => w.poll_flush_notify(&n, 0).map(|a| a.is_ready()),
                    (_, Some(h)) => (h.2)(),
                    _ => unreachable!(),
                }
                .map_err(|e| format!("op {}: flush failed: {:?}", k, e))?;
                let all = check_out(&io.out(), &want, server)?;
                ensure!(r == (all.0 == want.len() && !all.2), "op {}: flush {} but {} of {} frames written", k, r, all.0, want.len());
                let left = io.st().wscript.len();
                ensure!(r || left == 0, "op {}: flush stopped although the transport accepts more", k);
            }
            3 => {
                if let Some(p) = pieces.get(arrived) {
                    io.push(p);
                    arrived += 1;
                }
            }
            4 => io.st().wscript.push_back(Ok(5)),
            _ => {
                budget += 1;
                io.st().wscript.extend((0..8).map(|_| Ok(1000)));
            }
        }
        check_out(&io.out(), &want, server)?;
    }
    // let everything through
    {
        let mut st = io.st();
        st.wtail = None;
        for p in &pieces[arrived..] {
            st.input.push_back(Seg::Data(p.clone()));
        }
        st.tail = Tail::Eof;
    }
    loop {
        c.step();
        let r = match (&mut whole, &mut halves) {
            (Some(w), _) => w.poll_stream_notify(&n, 0),
            (_, Some(h)) => (h.0)(),
            _ => unreachable!(),
        }
        .map_err(|e| format!("draining: {:?}", e))?;
        match r {
            Async::Ready(Some(m)) => {
                ensure!(got < due.len() && m == due[got].1, "received {}", show_msg(&m));
                got += 1;
            }
            Async::Ready(None) => break,
            Async::NotReady => return Err("not ready at the end of the stream".into()),
        }
    }
    ensure!(got == due.len(), "only {} of {} messages received", got, due.len());
    for _ in 0..2 {
        c.step();
        let r = match (&mut whole, &mut halves) {
            (Some(w), _) => w.poll_flush_notify(&n, 0).map(|a| a.is_ready()),
            (_, Some(h)) => (h.2)(),
            _ => unreachable!(),
        }
        .map_err(|e| format!("flush: {:?}", e))?;
        if r {
            break;
        }
    }
    check_all(&io.out(), &want, server)?;
    c.trace(&(server, got, want.len(), budget.min(2), at));
    Ok(())
}

/// frames of a conversation of `n` frames towards an endpoint of role `server`
fn long_stream(server: bool, kind: usize, n: usize) -> Vec<Fr> {
    let mut v = vec![];
    for k in 0..n {
        let f = match kind {
            // single messages of every type
            0 => [fr(true, 1, b"text"), fr(true, 2, &patb(k % 100, k)), fr(true, 9, b"p"), fr(true, 10, &patb(k % 126, k))][k % 4].clone(),
            // fragmented messages of three with a ping inside
            1 => [fr(false, 1, &pat(k % 60, k)), fr(true, 9, &[k as u8]), fr(false, 0, b"mid"), fr(true, 0, &pat(k % 30, k))][k % 4].clone(),
            // one message of all frames
            _ => fr(k + 1 == n, if k == 0 { 2 } else { 0 }, &patb(k % 5, k)),
        };
        v.push(f.to(server, k));
    }
    if kind == 1 {
        while v.len() % 4 != 0 {
            v.pop();
        }
    }
    v
}
fn wide(x: &Ctx) {
    x.bound("receives by message and by frame, single and by iterator, mixed with sends in every sequence of up to 5 (6): what is received equals what the same receives give on a connection that never sends and is never split");
    let depth = x.tier(5, 6);
    let ns = streams(true).len();
    x.section("mixed-reads", seq_count(6, depth) * (ns * 2 * (depth + 2)) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let s = ix.take(ns);
        let at = ix.take(depth + 2);
        let ops = seq_of(6, ix.0);
        if at > ops.len() && at != depth + 1 || !ops.iter().any(|o| *o < 4) {
            return Ok(());
        }
        let frames = &streams(server)[s];
        c.state(&(server, s, at, &ops));
        c.note = format!(
            "server={} ops {:?} (0 receive message 1 frame 2 message by iterator 3 frame by iterator 4 send message 5 send frame) split before {} stream {}",
            server,
            ops,
            at,
            show(frames)
        );
        let run = |ops: &[usize], at: usize, c: &mut Case| -> Result<(Vec<String>, Vec<u8>, Vec<Fr>), String> {
            let mut all = hello(server);
            all.extend(wire(frames));
            let io = Mock::new(vec![Seg::Data(all)], Tail::Eof);
            let mut e = End::Whole(connect(io.clone(), server)?);
            io.take_out();
            let (mut got, mut want) = (vec![], vec![]);
            let note = |r: Result<String, WebSocketError>| r.unwrap_or_else(|e| format!("error {:?}", e));
            for (k, op) in ops.iter().enumerate() {
                if k == at {
                    e.split()?;
                }
                c.step();
                match op {
                    0 => got.push(note(e.recv().map(|m| format!("{:?}", m)))),
                    1 => got.push(note(
                        match &mut e {
                            End::Whole(c) => c.recv_dataframe(),
                            End::Split(r, _) => r.recv_dataframe(),
                            End::Gone => unreachable!(),
                        }
                        .map(|m| format!("{:?}", m)),
                    )),
                    2 => got.push(match e.recv_iter() {
                        Some(r) => note(r.map(|m| format!("{:?}", m))),
                        None => "end".into(),
                    }),
                    3 => {
                        let r = match &mut e {
                            End::Whole(c) => c.incoming_dataframes().next(),
                            End::Split(r, _) => r.incoming_dataframes().next(),
                            End::Gone => unreachable!(),
                        };
                        got.push(match r {
                            Some(r) => note(r.map(|m| format!("{:?}", m))),
                            None => "end".into(),
                        })
                    }
                    4 => {
                        let m = OwnedMessage::Binary(patb(k * 40, k));
                        e.send(&m).map_err(|x| format!("op {}: {:?}", k, x))?;
                        want.push(msg_fr(&m));
                    }
                    _ => {
                        e.send_df(&DataFrame::new(k % 2 == 0, Opcode::Text, pat(k * 30, k))).map_err(|x| format!("op {}: {:?}", k, x))?;
                        want.push(fr(k % 2 == 0, 1, &pat(k * 30, k)));
                    }
                }
            }
            if at == ops.len() {
                e.split()?;
            }
            // the rest
            for _ in 0..2 * frames.len() + 2 {
                c.step();
                let r = e.recv();
                let stop = matches!(r, Err(WebSocketError::NoDataAvailable));
                got.push(note(r.map(|m| format!("{:?}", m))));
                if stop {
                    break;
                }
            }
            Ok((got, io.out(), want))
        };
        let only: Vec<usize> = ops.iter().cloned().filter(|o| *o < 4).collect();
        let (alone, out, _) = run(&only, 99, c)?;
        ensure!(out.is_empty(), "receiving wrote {}", hex(&out));
        let (got, out, want) = run(&ops, at, c)?;
        ensure!(got == alone, "received {:?} but {:?} without sends and split", got, alone);
        check_all(&out, &want, server)?;
        c.trace(&(server, s, got.len(), want.len(), at.min(3)));
        Ok(())
    });

    x.bound("long conversations: every repeating pattern of up to 4 operations, 16-200 (1500) operations in all, 3 kinds of streams as long, split before the first, the middle or the last operation or never; large messages: every payload length around powers of two up to 256 KiB (4 MiB) in and out, whole and in 3 fragments, split at every point of 6 histories");
    let lens: Vec<usize> = if x.thorough { vec![16, 33, 64, 130, 257, 512, 1500] } else { vec![16, 33, 64, 200] };
    x.section("long", (seq_count(4, 4) as usize * lens.len() * 3 * 2 * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let pair = ix.take(2) == 1;
        let kind = ix.take(3);
        let n = lens[ix.take(lens.len())];
        let at = [0, n / 2, n - 1, n + 1][ix.take(4)];
        let pat = seq_of(4, ix.0);
        if pat.is_empty() {
            return Ok(());
        }
        let ops: Vec<usize> = (0..n).map(|k| pat[k % pat.len()]).collect();
        let frames = long_stream(server, kind, n);
        c.note = format!("server={} {} operations repeating {:?} (0 receive 1 send message 2 send frame 3 refused send) stream kind {} of {} frames split before {}", server, n, pat, kind, frames.len(), at);
        c.state(&(server, pair, kind, n, at, &pat));
        let lim = (1000, 1 << 20);
        let arrival = 1 + (kind + pat.len()) % 2;
        if pair {
            history(|io: &Mock| ReadWritePair(io.clone(), io.clone()), server, lim, &frames, arrival, &ops, at, c)
        } else {
            history(|io: &Mock| io.clone(), server, lim, &frames, if arrival == 2 { 0 } else { 1 }, &ops, at, c)
        }
        .map_err(cut)
    });
    let sizes: Vec<usize> = crate::rx::sizes_around_powers(x.tier(1 << 18, 1 << 22)).into_iter().filter(|n| *n > 100).collect();
    let hist: [&[usize]; 6] = [&[0, 1, 0], &[1, 0, 2, 0], &[0, 0, 1, 2], &[2, 2, 0, 0], &[0, 2, 3, 0, 1], &[1]];
    x.section("large", (sizes.len() * 6 * 2 * 6 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let at = ix.take(6);
        let ops = hist[ix.take(6)];
        let arrival = ix.take(3);
        let n = sizes[ix.0 as usize];
        if at > ops.len() && at != 5 || arrival == 2 && n > 20000 {
            return Ok(());
        }
        let f: Vec<Fr> = vec![fr(true, 2, &patb(n, 1)), fr(false, 2, &patb(n / 3, 2)), fr(true, 9, b"in"), fr(false, 0, &patb(n / 3, 3)), fr(true, 0, &patb(n / 3, 4)), fr(true, 1, &pat(n, 5))]
            .into_iter()
            .enumerate()
            .map(|(k, f)| f.to(server, k))
            .collect();
        c.note = format!("server={} payloads of {} arrival {} ops {:?} split before {}", server, n, arrival, ops, at);
        c.state(&(server, n, arrival, ops, at));
        // limits that the messages just respect
        history(|io: &Mock| io.clone(), server, (n, n + 192), &f, arrival, ops, at, c).map_err(cut)?;
        // and a frame limit that the first frame does not
        history(|io: &Mock| io.clone(), server, (n - 1, 4 * n), &f, arrival, ops, at, c).map_err(cut)
    });
    x.section("async-large", (sizes.len() * 2 * 6 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let at = [0, 1, 5, 99][ix.take(4)];
        let h = ix.take(6);
        let n = sizes[ix.0 as usize];
        let ops: [&[usize]; 6] = [
            &[1, 3, 0, 2, 4, 5, 3, 3, 0, 5, 0, 2],
            &[3, 3, 0, 1, 0, 1, 5, 2, 2, 0, 1],
            &[1, 1, 5, 1, 1, 2, 3, 3, 3, 0, 0, 5],
            &[3, 3, 3, 3, 3, 1, 0, 1, 0, 1, 0, 2, 5, 2],
            &[5, 5, 5, 1, 2, 3, 3, 0, 1, 2, 3, 3, 3, 0],
            &[1, 4, 2, 4, 2, 1, 4, 2, 5, 2, 3, 3, 0, 1],
        ];
        let f: Vec<Fr> = vec![fr(true, 2, &patb(n, 1)), fr(false, 2, &patb(n / 3, 2)), fr(true, 9, b"in"), fr(false, 0, &patb(n / 3, 3)), fr(true, 0, &patb(n / 3, 4)), fr(true, 1, &pat(n, 5))]
            .into_iter()
            .enumerate()
            .map(|(k, f)| f.to(server, k))
            .collect();
        c.note = format!("server={} payloads of {} ops {:?} (0 poll 1 send 2 flush 3 input 4 five bytes 5 output) split before {}", server, n, ops[h], at);
        c.state(&(server, n, at, h));
        async_history_lim(server, (n, n + 192), &f, ops[h], at, n, c).map_err(cut)
    });
    x.section("async-long", (seq_count(6, 3) as usize * 2 * 3 * lens.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let kind = ix.take(3);
        let n = lens[ix.take(lens.len())];
        let pat = seq_of(6, ix.0);
        if pat.is_empty() {
            return Ok(());
        }
        let at = [n / 2, 0, 9999][pat.len() % 3];
        let ops: Vec<usize> = (0..n).map(|k| pat[k % pat.len()]).collect();
        let frames = long_stream(server, kind, n);
        c.note = format!("server={} {} operations repeating {:?} (0 poll 1 send 2 flush 3 input 4 five bytes 5 output) stream kind {} split before {}", server, n, pat, kind, at);
        c.state(&(server, kind, n, &pat));
        async_history_lim(server, (1000, 1 << 20), &frames, &ops, at, 0, c).map_err(cut)
    });
}
fn cut(e: String) -> String {
    if e.len() > 600 {
        format!("{}...", e.chars().take(600).collect::<String>())
    } else {
        e
    }
}

// ---- shutdown on real sockets

fn herr<E: std::fmt::Display>(e: E) -> String {
    format!("{}: loopback: {}", HARNESS, e)
}
const TO: Option<Duration> = Some(Duration::from_secs(20));
/// (endpoint's socket, peer's socket)
pub fn tcp_pair() -> Result<(TcpStream, TcpStream), String> {
    let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
    let a = TcpStream::connect(l.local_addr().map_err(herr)?).map_err(herr)?;
    let (b, _) = l.accept().map_err(herr)?;
    for s in &[&a, &b] {
        s.set_read_timeout(TO).map_err(herr)?;
        s.set_write_timeout(TO).map_err(herr)?;
        s.set_nodelay(true).map_err(herr)?;
    }
    Ok((a, b))
}
fn read_head(s: &mut TcpStream) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut b = [0];
    while !v.ends_with(b"\r\n\r\n") {
        match s.read(&mut b) {
            Ok(1) => v.push(b[0]),
            o => return Err(format!("handshake head incomplete: {:?}", o)),
        }
    }
    Ok(v)
}
fn tcp(x: &Ctx) {
    let depth = x.tier(3, 4);
    x.bound("loopback TCP: every sequence of up to 3 (4) of {send, receive, shut down sending, receiving, both (from either half), drop a half}, split and whole, both roles");
    const OPS: [&str; 8] = ["send", "receive", "shut down sending", "shut down receiving", "shut down both", "shut down both (other half)", "drop reader", "drop writer"];
    x.section("shutdown", 2 * 2 * seq_count(8, depth), |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let split = ix.take(2) == 1;
        let ops = seq_of(8, ix.0);
        if !split && ops.iter().any(|o| *o > 4) {
            return Ok(());
        }
        c.note = format!("server={} split={} {:?}", server, split, ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>());
        c.state(&(server, split, &ops));
        let (a, mut b) = tcp_pair()?;
        if !server {
            b.write_all(&hello(false)).map_err(herr)?;
        }
        let (la, pa) = (a.local_addr().map_err(herr)?, a.peer_addr().map_err(herr)?);
        let cl = connect(a, server)?;
        read_head(&mut b)?;
        ensure!(cl.local_addr().ok() == Some(la) && cl.peer_addr().ok() == Some(pa), "addresses differ from the socket's");
        let mut whole = None;
        let mut r = None;
        let mut w = None;
        if split {
            let (x, y) = cl.split().map_err(|e| format!("split failed: {}", e))?;
            r = Some(x);
            w = Some(y);
        } else {
            whole = Some(cl);
        }
        let (mut w_open, mut r_open) = (true, true);
        let mut want = vec![];
        for (k, op) in ops.iter().enumerate() {
            c.step();
            let fail = |e: std::io::Error, was: bool| -> Res {
                // a second shutdown may be told that the connection is gone
                if was || e.kind() != ErrorKind::NotConnected {
                    return Err(format!("op {} failed: {}", k, e));
                }
                Ok(())
            };
            match op {
                0 => {
                    let m = OwnedMessage::Text(format!("m{}", k));
                    let s = match (&mut whole, &mut w) {
                        (Some(c), _) => c.send_message(&m),
                        (_, Some(w)) => w.send_message(&m),
                        _ => continue,
                    };
                    ensure!(s.is_ok() == w_open, "op {}: send gave {:?} with the sending direction {}", k, s, if w_open { "open" } else { "shut down" });
                    if w_open {
                        want.push(msg_fr(&m));
                    }
                }
                1 => {
                    if whole.is_none() && r.is_none() {
                        continue;
                    }
                    if r_open {
                        b.write_all(&fr(true, 1, format!("r{}", k).as_bytes()).to(server, k).bytes()).map_err(herr)?;
                    }
                    let o = match (&mut whole, &mut r) {
                        (Some(c), _) => c.recv_message(),
                        (_, Some(r)) => r.recv_message(),
                        _ => continue,
                    };
                    match o {
                        Ok(m) => ensure!(r_open && m == OwnedMessage::Text(format!("r{}", k)), "op {}: received {}", k, show_msg(&m)),
                        Err(WebSocketError::NoDataAvailable) if !r_open => {}
                        Err(e) => return Err(format!("op {}: receive gave {:?} with the receiving direction {}", k, e, if r_open { "open" } else { "shut down" })),
                    }
                }
                2 => {
                    let s = match (&whole, &w) {
                        (Some(c), _) => c.shutdown_sender(),
                        (_, Some(w)) => w.shutdown(),
                        _ => continue,
                    };
                    if let Err(e) = s {
                        fail(e, w_open)?;
                    }
                    w_open = false;
                }
                3 => {
                    let s = match (&whole, &r) {
                        (Some(c), _) => c.shutdown_receiver(),
                        (_, Some(r)) => r.shutdown(),
                        _ => continue,
                    };
                    if let Err(e) = s {
                        fail(e, r_open)?;
                    }
                    r_open = false;
                }
                4 | 5 => {
                    let s = match (&whole, &r, &w) {
                        (Some(c), _, _) => c.shutdown(),
                        (_, Some(r), _) if *op == 4 => r.shutdown_all(),
                        (_, _, Some(w)) if *op == 5 => w.shutdown_all(),
                        _ => continue,
                    };
                    if let Err(e) = s {
                        fail(e, r_open && w_open)?;
                    }
                    r_open = false;
                    w_open = false;
                }
                6 => {
                    r = None;
                }
                _ => {
                    w = None;
                }
            }
        }
        // what the peer sees: every frame, then the end exactly if the sending direction was shut down (or all was dropped)
        let gone = split && r.is_none() && w.is_none();
        let mut got = vec![];
        let mut buf = [0; 4096];
        let ended;
        if w_open && !gone {
            let n: usize = want.iter().map(|f: &Fr| f.clone().to(!server, 0).bytes().len()).sum();
            while got.len() < n {
                match b.read(&mut buf) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => got.extend_from_slice(&buf[..k]),
                }
            }
            b.set_nonblocking(true).map_err(herr)?;
            match b.read(&mut buf) {
                Err(ref e) if e.kind() == ErrorKind::WouldBlock => ended = false,
                Ok(0) => ended = true,
                o => return Err(format!("the peer reads {:?} after all frames", o)),
            }
            ensure!(!ended, "the peer sees the end although sending was not shut down");
        } else {
            loop {
                match b.read(&mut buf) {
                    Ok(0) => break,
                    Ok(k) => got.extend_from_slice(&buf[..k]),
                    Err(ref e) if gone && e.kind() == ErrorKind::ConnectionReset => break,
                    Err(e) => return Err(format!("the peer does not see the end of the shut-down direction: {}", e)),
                }
            }
        }
        if !(gone && got.is_empty()) {
            check_all(&got, &want, server)?;
        }
        c.trace(&(server, split, w_open, r_open, want.len(), gone));
        Ok(())
    });
}
