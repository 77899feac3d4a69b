//! Opening handshake as a stream: C13 (byte conservation), C20 (resolution), and the header codecs (C14).
use crate::drv::*;
use crate::engine::*;
use crate::ensure;
use crate::http::*;
use crate::io::*;
use crate::model::*;
use crate::srv::{addr, why, SyncInto, Why};
use bytes::BytesMut;
use futures::executor;
use futures::{Async, Future, Sink, Stream};
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use std::io::{ErrorKind, Read, Write};
use tokio_codec::{Framed, FramedParts};
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::codec::ws::MessageCodec;
use websocket::receiver::Reader;
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs};
use websocket::server::upgrade::HyperIntoWsError;
use websocket::stream::ReadWritePair;
use websocket::ws::util::update_framed_codec;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

pub const EPS: [&str; 5] = ["blocking server", "hyper server", "asynchronous server", "blocking client", "asynchronous client"];
pub fn is_server(ep: usize) -> bool {
    ep < 3
}
/// A valid handshake head for the peer of endpoint `ep`, `pad` more bytes long than the shortest
pub fn head(ep: usize, pad: usize) -> Vec<u8> {
    let mut v = if is_server(ep) { request("/chat") } else { response(&accept_for(KEY)) };
    if pad > 0 {
        v.truncate(v.len() - 2);
        v.extend_from_slice(format!("X-Pad: {}\r\n\r\n", "p".repeat(pad.saturating_sub(9))).as_bytes());
    }
    v
}
/// Handshake, then receive to the end. Err: the handshake failed (text).
pub fn converse(ep: usize, io: &Mock, c: &mut Case) -> Result<Vec<Obs>, String> {
    c.step();
    match ep {
        0 => {
            let u = io.clone().into_ws_sync().map_err(|e| format!("valid request refused: {:?}", e.3))?;
            let mut cl = u.accept().map_err(|e| format!("accept failed: {:?}", e.1))?;
            Ok(sync_obs(|| cl.recv_message(), c, 1_000_000))
        }
        1 => {
            let mut m = io.clone();
            let ns: &mut dyn NetworkStream = &mut m;
            let mut br = BufReader::new(ns);
            let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| format!("hyper request: {:?}", e))?;
            let u = HyperRequest(rq).into_ws().map_err(|e| format!("valid request refused: {:?}", e.1))?;
            let mut cl = u.accept().map_err(|e| format!("accept failed: {:?}", e.1))?;
            Ok(sync_obs(|| cl.recv_message(), c, 1_000_000))
        }
        2 => {
            let u = run_future(AIntoWs::into_ws(io.clone()), 1_000_000)?.map_err(|e| format!("valid request refused: {:?}", e.3))?;
            let (f, _) = run_future(u.accept(), 1_000_000)?.map_err(|e| format!("accept failed: {:?}", e))?;
            Ok(poll_stream(&mut executor::spawn(f), 12, c))
        }
        3 => {
            let mut b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
            let mut cl = b.connect_on(io.clone()).map_err(|e| format!("valid response refused: {:?}", e))?;
            Ok(sync_obs(|| cl.recv_message(), c, 1_000_000))
        }
        _ => {
            let b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
            let (f, _) = run_future(b.async_connect_on(io.clone()), 1_000_000)?.map_err(|e| format!("valid response refused: {:?}", e))?;
            Ok(poll_stream(&mut executor::spawn(f), 12, c))
        }
    }
}
/// (frames of the peer, messages they make)
fn tails(server: bool) -> Vec<(Vec<Fr>, Vec<OwnedMessage>)> {
    let f = |l: Vec<Fr>| -> Vec<Fr> { l.into_iter().enumerate().map(|(i, f)| f.to(server, i)).collect() };
    vec![
        (f(vec![]), vec![]),
        (f(vec![fr(true, 1, b"hi")]), vec![OwnedMessage::Text("hi".into())]),
        (
            f(vec![fr(false, 1, b"ab"), fr(true, 9, b"p"), fr(true, 0, b"cd"), fr(true, 8, &[3, 232])]),
            vec![
                OwnedMessage::Ping(b"p".to_vec()),
                OwnedMessage::Text("abcd".into()),
                OwnedMessage::Close(Some(websocket::CloseData::new(1000, String::new()))),
            ],
        ),
        (f(vec![fr(true, 2, b"\r\n\r\n"), fr(true, 10, b"")]), vec![OwnedMessage::Binary(b"\r\n\r\n".to_vec()), OwnedMessage::Pong(vec![])]),
        (
            f(vec![fr(true, 2, &patb(5000, 3)), fr(true, 1, b"end")]),
            vec![OwnedMessage::Binary(patb(5000, 3)), OwnedMessage::Text("end".into())],
        ),
        (
            f((0..40).map(|i| fr(true, 2, &patb(200 + i, i))).collect()),
            (0..40).map(|i| OwnedMessage::Binary(patb(200 + i, i))).collect(),
        ),
    ]
}
fn segs(bytes: &[u8], cuts: &[usize], pending: bool) -> Vec<Seg> {
    let mut o = vec![];
    for s in split_at(bytes, cuts) {
        if pending && !o.is_empty() {
            o.push(Seg::Fail(ErrorKind::WouldBlock));
        }
        o.push(Seg::Data(s));
    }
    o
}
fn expect(ep: usize, obs: &[Obs], want: &[OwnedMessage]) -> Res {
    let mut w: Vec<Obs> = want.iter().cloned().map(Obs::Msg).collect();
    w.push(if ep == 2 || ep == 4 { Obs::End } else { Obs::NoData });
    ensure!(obs == &w[..], "{}: received [{}], the peer sent [{}] and ended", EPS[ep], show_obs(obs), show_obs(&w));
    Ok(())
}
fn buffered(b: Option<(Vec<u8>, usize, usize)>) -> Vec<u8> {
    match b {
        Some((b, p, c)) => b[p..c].to_vec(),
        None => vec![],
    }
}

pub fn c13(x: &Ctx) {
    x.bound("heads of about 130-180 bytes with 4 pipelined tails: all pairs of cuts (thorough: all pairs, and all triples with one cut within 4 bytes of the head's end), 5 endpoints, with and without not-ready answers between the pieces");
    let small = 4;
    // longest head+tail in the family, to size the index space
    let maxlen = (0..5).map(|e| (0..small).map(|t| head(e, 0).len() + wire(&tails(is_server(e))[t].0).len()).max().unwrap()).max().unwrap();
    x.section("cuts", (maxlen * maxlen * small * 5 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = ix.take(5);
        let pending = ix.take(2) == 1;
        let t = ix.take(small);
        let a = ix.take(maxlen);
        let b = ix.take(maxlen);
        if (pending && ep != 2 && ep != 4) || b < a {
            return Ok(());
        }
        let (frames, want) = &tails(is_server(ep))[t];
        let mut bytes = head(ep, 0);
        let hl = bytes.len();
        bytes.extend(wire(frames));
        if b >= bytes.len() {
            return Ok(());
        }
        c.note = format!("{}: head {} bytes, cuts {} {}, not-ready between pieces: {}, then {}", EPS[ep], hl, a, b, pending, show(frames));
        c.state(&(ep, t, a, b));
        let io = Mock::new(segs(&bytes, &[a, b], pending), Tail::Eof);
        let o = converse(ep, &io, c)?;
        expect(ep, &o, want)?;
        c.trace(&(ep, t, pending));
        Ok(())
    });
    if x.thorough {
        x.section("cuts/three", (9 * maxlen * maxlen * small * 5) as u64, |c, i| {
            let mut ix = Ix(i);
            let ep = ix.take(5);
            let t = ix.take(small);
            let near = ix.take(9);
            let a = ix.take(maxlen);
            let b = ix.take(maxlen);
            let (frames, want) = &tails(is_server(ep))[t];
            let mut bytes = head(ep, 0);
            let m = bytes.len() + near - 4;
            bytes.extend(wire(frames));
            if a >= b || b >= bytes.len() || m >= bytes.len() {
                return Ok(());
            }
            let mut cuts = vec![a, b, m];
            cuts.sort();
            c.note = format!("{}: cuts {:?} then {}", EPS[ep], cuts, show(frames));
            c.state(&(ep, t, &cuts));
            let io = Mock::new(segs(&bytes, &cuts, ep == 2 || ep == 4), Tail::Eof);
            let o = converse(ep, &io, c)?;
            expect(ep, &o, want)?;
            c.trace(&(ep, t));
            Ok(())
        });
    }
    x.bound("heads padded to end around 4096, 8192 and 12288 bytes (every length within 20, thorough 64), 6 tails, read sizes 1, 100, 4095, 4096, 4097, unlimited");
    let w = x.tier(20usize, 64);
    x.section("buffer-boundaries", (3 * (2 * w) * 6 * 6 * 5) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = ix.take(5);
        let t = ix.take(6);
        let chunk = [usize::MAX, 1, 100, 4095, 4096, 4097][ix.take(6)];
        let len = [4096, 8192, 12288][ix.take(3)] - w + ix.take(2 * w);
        let (frames, want) = &tails(is_server(ep))[t];
        let base = head(ep, 0).len();
        let mut bytes = head(ep, len - base);
        ensure!(bytes.len() == len, "{}: head length {} not {}", HARNESS, bytes.len(), len);
        bytes.extend(wire(frames));
        c.note = format!("{}: head {} bytes, read size {}, then {} frames", EPS[ep], len, chunk, frames.len());
        c.state(&(ep, t, chunk, len));
        let io = Mock::with(&bytes, Tail::Eof).max_read(chunk);
        let o = converse(ep, &io, c)?;
        expect(ep, &o, want)?;
        c.trace(&(ep, t, chunk));
        Ok(())
    });
    // long tails
    let sizes: Vec<usize> = crate::rx::sizes_around_powers(x.tier(1 << 20, 1 << 23)).into_iter().filter(|n| *n > 60).collect();
    x.bound(&format!("pipelined tails of one message of every size around powers of two to {}, or of that many bytes in small messages, with heads of 3 sizes, read sizes 1460, 4096, 65536 and unlimited, the first piece ending at 6 places", x.tier(1 << 20, 1 << 23)));
    x.section("large-tails", (sizes.len() * 5 * 2 * 3 * 4 * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = ix.take(5);
        let many = ix.take(2) == 1;
        let hp = [0usize, 1000, 9000][ix.take(3)];
        let chunk = [usize::MAX, 1460, 4096, 65536][ix.take(4)];
        let first = ix.take(6);
        let n = sizes[ix.0 as usize];
        if n > 70_000 && (first > 1 || hp == 1000 || many && chunk != 4096) || n > 1 << 21 && hp > 0 {
            return Ok(());
        }
        let server = is_server(ep);
        let (mut frames, mut want) = (vec![], vec![]);
        if many {
            let (mut left, mut k) = (n, 0);
            while left > 0 {
                let m = (k * 37 % 700).min(left);
                frames.push(fr(true, 2, &patb(m, k)));
                want.push(OwnedMessage::Binary(patb(m, k)));
                left -= m;
                k += 1;
            }
        } else {
            frames.push(fr(true, 2, &patb(n, 1)));
            want.push(OwnedMessage::Binary(patb(n, 1)));
        }
        frames.push(fr(true, 1, b"end"));
        want.push(OwnedMessage::Text("end".into()));
        let mut bytes = head(ep, hp);
        let hl = bytes.len();
        bytes.extend(wire(&frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect::<Vec<_>>()));
        let cut = [hl, bytes.len(), hl + 1, 4096, hl + n / 2, bytes.len() - 1][first].min(bytes.len());
        c.note = format!("{}: head of {} bytes, then {} bytes ({}), read size {}, first piece to {}", EPS[ep], hl, n, if many { "small messages" } else { "one message" }, chunk, cut);
        c.state(&i);
        let io = Mock::new(segs(&bytes, &[cut], false), Tail::Eof).max_read(chunk);
        let o = converse(ep, &io, c)?;
        expect(ep, &o, &want)?;
        c.trace(&(ep, many, n));
        Ok(())
    });
    x.bound("every length 0..9000 (step 1 to 300, then 7) of the bytes following the head, given at once or in reads of 4096: taken out again whole after no message, before answering, or from a refused request");
    let amounts: Vec<usize> = (0..300).chain((300..9000).step_by(x.tier(7, 1))).collect();
    x.section("amounts", (amounts.len() * 5 * 3 * 3 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = ix.take(5);
        let how = ix.take(3);
        let hp = [0usize, 3900, 4096][ix.take(3)];
        let chunk = [usize::MAX, 4096][ix.take(2)];
        let n = amounts[ix.0 as usize];
        if how > 0 && !is_server(ep) {
            return Ok(());
        }
        let tail = patb(n, 5);
        let mut bytes = head(ep, hp);
        if how == 2 {
            let s = String::from_utf8(bytes).unwrap().replacen("Upgrade: websocket", "Upgrade: h2c", 1);
            bytes = s.into_bytes();
        }
        bytes.extend(&tail);
        c.note = format!("{}: head padded by {}, {} bytes after it, read size {}, {}", EPS[ep], hp, n, chunk, ["connected", "unanswered", "refused"][how]);
        c.state(&i);
        c.step();
        let io = Mock::with(&bytes, Tail::Eof).max_read(chunk);
        let of = |b: Option<websocket::server::upgrade::sync::Buffer>| b.map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
        let mut rest = match (ep, how) {
            (0, 2) => match io.clone().into_ws_sync() {
                Ok(_) => return Err("invalid request accepted".into()),
                Err((_, _, b, _)) => of(b),
            },
            (0, _) => {
                let u = io.clone().into_ws_sync().map_err(|e| format!("valid request refused: {:?}", e.3))?;
                if how == 1 {
                    of(u.buffer)
                } else {
                    buffered(u.accept().map_err(|e| format!("accept: {:?}", e.1))?.into_stream().1)
                }
            }
            (1, _) => {
                let mut m = io.clone();
                let ns: &mut dyn NetworkStream = &mut m;
                let mut br = BufReader::new(ns);
                let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| format!("hyper request: {:?}", e))?;
                match (HyperRequest(rq).into_ws(), how) {
                    (Ok(u), 0) => buffered(u.accept().map_err(|e| format!("accept: {:?}", e.1))?.into_stream().1),
                    (Ok(u), 1) => of(u.buffer),
                    (Err((r, _)), 2) => {
                        let rd = r.deconstruct().5.into_inner();
                        let (buf, p, e) = rd.take_buf();
                        buf[p..e].to_vec()
                    }
                    (r, _) => return Err(format!("accepted: {}", r.is_ok())),
                }
            }
            (2, 2) => match run_future(AIntoWs::into_ws(io.clone()), 100_000)? {
                Ok(_) => return Err("invalid request accepted".into()),
                Err((_, _, b, _)) => b.to_vec(),
            },
            (2, _) => {
                let u = run_future(AIntoWs::into_ws(io.clone()), 100_000)?.map_err(|e| format!("valid request refused: {:?}", e.3))?;
                if how == 1 {
                    u.buffer.to_vec()
                } else {
                    let (f, _) = run_future(u.accept(), 100_000)?.map_err(|e| format!("accept: {:?}", e))?;
                    f.into_parts().read_buf.to_vec()
                }
            }
            (3, _) => {
                let mut b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
                buffered(b.connect_on(io.clone()).map_err(|e| format!("valid response refused: {:?}", e))?.into_stream().1)
            }
            _ => {
                let b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
                let (f, _) = run_future(b.async_connect_on(io.clone()), 100_000)?.map_err(|e| format!("valid response refused: {:?}", e))?;
                f.into_parts().read_buf.to_vec()
            }
        };
        rest.extend(io.rest());
        ensure!(rest == tail, "{} bytes after the head, expected {}; first difference at {:?}", rest.len(), tail.len(), rest.iter().zip(&tail).position(|(a, b)| a != b));
        c.trace(&(ep, how, n));
        Ok(())
    });
    x.bound("taking a blocking connection apart after every number of messages 0..60 of a stream of 60, read sizes 1, 1000 and unlimited, into_stream, reader, split");
    x.section("taken-apart/long", 61 * 3 * 3 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let how = ix.take(3);
        let chunk = [usize::MAX, 1000, 1][ix.take(3)];
        let k = ix.0 as usize;
        let ep = if server { 0 } else { 3 };
        let frames: Vec<Fr> = (0..60).map(|j| fr(true, 2, &patb(j * 41 % 500, j)).to(server, j)).collect();
        let mut bytes = head(ep, 0);
        let at = bytes.len() + wire(&frames[..k]).len();
        bytes.extend(wire(&frames));
        c.note = format!("server={} after {} messages, read size {}, way {}", server, k, chunk, how);
        c.state(&i);
        let io = Mock::with(&bytes, Tail::Eof).max_read(chunk);
        let mut cl = if server {
            IntoWs::into_ws(ReadWritePair(io.clone(), io.clone())).map_err(|e| format!("refused {:?}", e.3))?.accept().map_err(|e| format!("accept {:?}", e.1))?
        } else {
            let mut b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
            b.connect_on(ReadWritePair(io.clone(), io.clone())).map_err(|e| format!("connect {:?}", e))?
        };
        for j in 0..k {
            c.step();
            let m = cl.recv_message().map_err(|e| format!("message {}: {:?}", j, e))?;
            ensure!(m == OwnedMessage::Binary(patb(j * 41 % 500, j)), "message {} is {}", j, show_msg(&m));
        }
        let rest = match how {
            0 => {
                let mut r = buffered(cl.into_stream().1);
                r.extend(io.rest());
                r
            }
            1 => {
                let mut r = vec![];
                cl.reader_mut().read_to_end(&mut r).map_err(|e| e.to_string())?;
                r
            }
            _ => {
                let (mut r, _w) = cl.split().map_err(|e| e.to_string())?;
                let o = sync_obs(|| r.recv_message(), c, 100);
                let want: Vec<OwnedMessage> = (k..60).map(|j| OwnedMessage::Binary(patb(j * 41 % 500, j))).collect();
                return expect(ep, &o, &want);
            }
        };
        ensure!(rest == bytes[at..], "{} unread bytes, expected {}", rest.len(), bytes.len() - at);
        c.trace(&(how, server, k));
        Ok(())
    });
    x.bound("codec change with up to 200 KB of buffered input and unwritten output around powers of two");
    let bs: Vec<usize> = crate::rx::sizes_around_powers(x.tier(1 << 17, 1 << 19)).into_iter().filter(|n| *n > 60).collect();
    x.section("codec-change/large", (bs.len() * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let kind = ix.take(4);
        let n = bs[ix.0 as usize];
        let (nr, nw) = [(n, 0), (0, n), (n, n), (n, 3 * n / 4)][kind];
        let frames = vec![fr(true, 2, &patb(nr, 2)).to(server, 1), fr(true, 1, b"end").to(server, 2)];
        let bytes = wire(&frames);
        let pend = patb(nw, 9);
        c.note = format!("server={} buffered input {} unwritten output {}", server, nr, nw);
        c.state(&i);
        c.step();
        for have in &[nr / 2, nr, bytes.len()] {
            let io = Mock::with(&bytes[*have..], Tail::Eof).max_write(10_000);
            let mut p = FramedParts::new(io.clone(), HttpServerCodec);
            p.read_buf = BytesMut::from(&bytes[..*have]);
            p.write_buf = BytesMut::from(&pend[..]);
            let f = update_framed_codec(Framed::from_parts(p), MessageCodec::<OwnedMessage>::default(ctx(server)));
            let f = run_future(f.send(OwnedMessage::Text("new".into())), 100_000)?.map_err(|e| format!("send: {:?}", e))?;
            let out = io.out();
            ensure!(out.starts_with(&pend), "unwritten bytes lost");
            let fr = parse_wire(&out[pend.len()..]).map_err(|e| format!("frame after the codec change: {}", e))?;
            ensure!(fr.len() == 1 && fr[0].payload == b"new" && fr[0].mask.is_some() == !server, "frame after the codec change");
            let o = poll_stream(&mut executor::spawn(f), 2, c);
            expect(2, &o, &[OwnedMessage::Binary(patb(nr, 2)), OwnedMessage::Text("end".into())])?;
        }
        c.trace(&(server, kind, n));
        Ok(())
    });
    x.bound("taking a connection apart after k messages: into_stream and split of blocking clients of both roles, all single cuts x every k; the upgrade's buffer before answering; a refused request's buffer");
    let lens: Vec<usize> = (0..5).map(|e| (0..5).map(|t| head(e, 0).len() + wire(&tails(is_server(e))[t].0).len()).max().unwrap()).collect();
    let maxcut = 400;
    let _ = lens;
    x.section("taken-apart", (maxcut * 4 * 4 * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let ep = if server { 0 } else { 3 };
        let how = ix.take(4);
        let t = 1 + ix.take(4);
        let k = ix.take(4);
        let cut = ix.take(maxcut);
        let (frames, want) = &tails(server)[t];
        let mut bytes = head(ep, 0);
        let hl = bytes.len();
        bytes.extend(wire(frames));
        if k > want.len() || cut >= bytes.len() {
            return Ok(());
        }
        c.note = format!("server={} cut {} head {} after {} messages of {} way {}", server, cut, hl, k, show(frames), how);
        c.state(&(server, how, t, k, cut));
        let io = Mock::new(segs(&bytes, &[cut], false), Tail::Eof);
        macro_rules! connect {
            ($s:expr) => {{
                let mut cl = if server {
                    let u = IntoWs::into_ws($s).map_err(|e| format!("refused {:?}", e.3))?;
                    u.accept().map_err(|e| format!("accept {:?}", e.1))?
                } else {
                    let mut b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
                    b.connect_on($s).map_err(|e| format!("connect {:?}", e))?
                };
                for j in 0..k {
                    c.step();
                    let m = cl.recv_message().map_err(|e| format!("message {}: {:?}", j, e))?;
                    ensure!(m == want[j], "message {} is {}", j, show_msg(&m));
                }
                cl
            }};
        }
        // bytes that belong to the first k messages; a fragment already taken into a message in progress cannot be returned
        let consumed_min = {
            let mut n = hl;
            let mut done = 0;
            for f in frames {
                if done == k {
                    break;
                }
                n += f.bytes().len();
                if f.fin {
                    done += 1;
                }
            }
            n
        };
        match how {
            0 => {
                let cl = connect!(io.clone());
                let (mut s, b) = cl.into_stream();
                let mut rest = buffered(b);
                rest.extend(io.rest());
                ensure!(rest == bytes[consumed_min..], "unread bytes after taking the stream out: {} expected {}", hex(&rest), hex(&bytes[consumed_min..]));
                let o = io.out().len();
                s.write_all(b"xx").map_err(|e| e.to_string())?;
                ensure!(io.out().len() == o + 2, "not the original stream");
            }
            1 => {
                // the connection's reader must yield the buffered bytes as well
                let mut cl = connect!(io.clone());
                let mut rest = vec![];
                cl.reader_mut().read_to_end(&mut rest).map_err(|e| e.to_string())?;
                ensure!(rest == bytes[consumed_min..], "unread bytes through reader_mut: {} expected {}", hex(&rest), hex(&bytes[consumed_min..]));
            }
            2 => {
                let cl = connect!(ReadWritePair(io.clone(), io.clone()));
                let (mut r, mut wr) = cl.split().map_err(|e| e.to_string())?;
                let o = sync_obs(|| r.recv_message(), c, 100);
                expect(ep, &o, &want[k..])?;
                let n = io.out().len();
                wr.send_message(&OwnedMessage::Text("x".into())).map_err(|e| format!("{:?}", e))?;
                let out = io.out()[n..].to_vec();
                let got = parse_wire(&out).map_err(|e| format!("frame sent after splitting: {}", e))?;
                ensure!(got.len() == 1 && got[0].payload == b"x" && got[0].mask.is_some() == !server, "frame sent after splitting: {}", hex(&out));
            }
            _ => {
                let cl = connect!(io.clone());
                let (r, _w) = cl.split().map_err(|e| e.to_string())?;
                // the halves are public: what is unread must still be all there
                let Reader { stream, .. } = r;
                let (_, b, p, e) = stream.into_parts();
                let mut rest = buffered(Some((b, p, e)));
                rest.extend(io.rest());
                ensure!(rest == bytes[consumed_min..], "unread bytes in a split reader: {} expected {}", hex(&rest), hex(&bytes[consumed_min..]));
            }
        }
        c.trace(&(how, server, t, k));
        Ok(())
    });
    let rb: [u8; 9] = [b'\r', b'\n', 0, b' ', b'G', b':', 0x81, 0x88, 0xff];
    let d = x.tier(4, 5);
    x.bound(&format!("the first bytes after the head: all strings to length {} over {:02x?} and runs of 5 to 40 of each, in the same piece as the head, in the next, or half and half, at all 5 endpoints; taken out again untouched", d, rb));
    let strings = seq_count(rb.len(), d);
    x.section("raw-tails", (strings + (rb.len() * 36) as u64) * 15, |c, i| {
        let mut ix = Ix(i);
        let ep = ix.take(5);
        let cutting = ix.take(3);
        let tail: Vec<u8> = if ix.0 < strings {
            seq_of(rb.len(), ix.0).iter().map(|k| rb[*k]).collect()
        } else {
            let k = (ix.0 - strings) as usize;
            vec![rb[k % rb.len()]; 5 + k / rb.len()]
        };
        let mut bytes = head(ep, 0);
        let cut = bytes.len() + match cutting {
            0 => tail.len(),
            1 => 0,
            _ => tail.len() / 2,
        };
        bytes.extend(&tail);
        c.note = format!("{}: {} after the head, {} of these bytes in the same piece", EPS[ep], hex(&tail), cut + tail.len() - bytes.len());
        c.state(&(ep, cutting, &tail));
        c.step();
        let io = Mock::new(segs(&bytes, &[cut], false), Tail::Eof);
        let mut rest = match ep {
            0 => {
                let u = io.clone().into_ws_sync().map_err(|e| format!("valid request refused: {:?}", e.3))?;
                buffered(u.accept().map_err(|e| format!("accept: {:?}", e.1))?.into_stream().1)
            }
            1 => {
                let mut m = io.clone();
                let ns: &mut dyn NetworkStream = &mut m;
                let mut br = BufReader::new(ns);
                let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| format!("hyper request: {:?}", e))?;
                let u = HyperRequest(rq).into_ws().map_err(|e| format!("valid request refused: {:?}", e.1))?;
                buffered(u.accept().map_err(|e| format!("accept: {:?}", e.1))?.into_stream().1)
            }
            2 => {
                let u = run_future(AIntoWs::into_ws(io.clone()), 100_000)?.map_err(|e| format!("valid request refused: {:?}", e.3))?;
                let (f, _) = run_future(u.accept(), 100_000)?.map_err(|e| format!("accept: {:?}", e))?;
                f.into_parts().read_buf.to_vec()
            }
            3 => {
                let mut b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
                buffered(b.connect_on(io.clone()).map_err(|e| format!("valid response refused: {:?}", e))?.into_stream().1)
            }
            _ => {
                let b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
                let (f, _) = run_future(b.async_connect_on(io.clone()), 100_000)?.map_err(|e| format!("valid response refused: {:?}", e))?;
                f.into_parts().read_buf.to_vec()
            }
        };
        rest.extend(io.rest());
        ensure!(rest == tail, "bytes after the head: {} expected {}", hex(&rest), hex(&tail));
        c.trace(&(ep, cutting));
        Ok(())
    });
    // an upgrade before it is answered, and refused requests
    x.bound("the stream and buffer of an unanswered upgrade and of a refused request (8 violations), all single cuts x 3 tails, read sizes 1 and unlimited, blocking, asynchronous and hyper");
    let bad: &[(&str, &str, Why)] = &[
        ("", "", Why::Io),
        ("GET /chat", "POST /chat", Why::Method),
        ("HTTP/1.1", "HTTP/1.0", Why::Http),
        ("Version: 13", "Version: 12", Why::Version),
        ("Sec-WebSocket-Key: ", "X-Other: ", Why::Key),
        ("Upgrade: websocket\r\n", "", Why::NoUpgrade),
        ("Upgrade: websocket", "Upgrade: h2c", Why::BadUpgrade),
        ("Connection: Upgrade\r\n", "", Why::NoConnection),
        ("Connection: Upgrade", "Connection: close", Why::BadConnection),
    ];
    x.section("unanswered", (bad.len() * 3 * 2 * 3 * maxcut) as u64, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(bad.len());
        let ep = ix.take(3);
        let chunk = [usize::MAX, 1][ix.take(2)];
        let t = 1 + ix.take(3);
        let cut = ix.take(maxcut);
        let (from, to, reason) = bad[v];
        let h = String::from_utf8(head(ep, 0)).unwrap();
        ensure!(v == 0 || h.contains(from), "{}: head does not contain {}", HARNESS, from);
        let h = if v == 0 { h } else { h.replacen(from, to, 1) };
        let tail = wire(&tails(true)[t].0);
        let mut bytes = h.clone().into_bytes();
        bytes.extend(&tail);
        if cut >= bytes.len() || (chunk == 1 && cut > 0) {
            return Ok(());
        }
        c.note = format!("{}: cut {} read size {} head {:?} tail {}", EPS[ep], cut, chunk, h, hex(&tail));
        c.state(&(v, ep, chunk, t, cut));
        c.step();
        let io = Mock::new(segs(&bytes, &[cut], false), Tail::Eof).max_read(chunk);
        let check = |rq: &websocket::server::upgrade::Request, buf: &[u8]| -> Res {
            let hd = parse_head(h.as_bytes())?;
            ensure!(format!("{} {} {}", rq.subject.0, rq.subject.1, rq.version) == hd.start, "returned request line {} {}", rq.subject.0, rq.subject.1);
            for (n, val) in &hd.headers {
                let raw = rq.headers.get_raw(n).map(|r| r.to_vec()).unwrap_or_default();
                ensure!(raw.len() == 1 && raw[0] == val.as_bytes(), "returned request lacks header {}: {}", n, val);
            }
            ensure!(rq.headers.len() == hd.headers.len(), "returned request has {} headers", rq.headers.len());
            let mut rest = buf.to_vec();
            rest.extend(io.rest());
            ensure!(rest == tail, "bytes after the head: {} expected {}", hex(&rest), hex(&tail));
            Ok(())
        };
        match ep {
            0 => match io.clone().into_ws_sync() {
                Ok(u) => {
                    ensure!(v == 0, "invalid request accepted");
                    let b = u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
                    check(&u.request, &b)?;
                }
                Err((_, rq, b, e)) => {
                    ensure!(v != 0 && why(&e) == reason, "refused for {:?}", e);
                    let b = b.map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
                    match rq {
                        None => return Err("the refused request was not returned".into()),
                        Some(rq) => check(&rq, &b)?,
                    }
                }
            },
            1 => {
                let mut m = io.clone();
                let ns: &mut dyn NetworkStream = &mut m;
                let mut br = BufReader::new(ns);
                let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| e.to_string())?;
                match HyperRequest(rq).into_ws() {
                    Ok(u) => {
                        ensure!(v == 0, "invalid request accepted");
                        let b = u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
                        check(&u.request, &b)?;
                    }
                    Err((r, e)) => {
                        ensure!(v != 0 && why(&e) == reason, "refused for {:?}", e);
                        let (_, m, hs, uri, ver, rd) = r.deconstruct();
                        let rd = rd.into_inner();
                        let (buf, p, e) = rd.take_buf();
                        check(&hyper::http::h1::Incoming { version: ver, subject: (m, uri), headers: hs }, &buf[p..e])?;
                    }
                }
            }
            _ => match run_future(AIntoWs::into_ws(io.clone()), 100_000)? {
                Ok(u) => {
                    ensure!(v == 0, "invalid request accepted");
                    check(&u.request, &u.buffer)?;
                }
                Err((_, rq, b, e)) => {
                    ensure!(v != 0 && why(&e) == reason, "refused for {:?}", e);
                    match rq {
                        None => return Err("the refused request was not returned".into()),
                        Some(rq) => check(&rq, &b)?,
                    }
                }
            },
        }
        c.trace(&(v, ep, t));
        Ok(())
    });
    // codec change
    x.bound("codec change of a framed stream: every amount of buffered input x every amount of unwritten output x 3 codecs x both roles, also after real operation left those bytes there");
    x.section("codec-change", 64 * 64 * 3 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let old = ix.take(3);
        let nr = ix.take(64);
        let nw = ix.take(64);
        let (frames, want) = &tails(server)[2];
        let bytes = wire(frames);
        if nr > bytes.len() {
            return Ok(());
        }
        let pend = pat(nw, 9);
        c.note = format!("server={} codec {} buffered input {} unwritten output {}", server, old, nr, nw);
        c.state(&(server, old, nr, nw));
        c.step();
        let io = Mock::with(&bytes[nr..], Tail::Eof);
        macro_rules! change {
            ($codec:expr) => {{
                let mut p = FramedParts::new(io.clone(), $codec);
                p.read_buf = BytesMut::from(&bytes[..nr]);
                p.write_buf = BytesMut::from(&pend[..]);
                update_framed_codec(Framed::from_parts(p), MessageCodec::<OwnedMessage>::default(ctx(server)))
            }};
        }
        let f = match old {
            0 => change!(HttpServerCodec),
            1 => change!(HttpClientCodec),
            _ => change!(websocket::codec::ws::DataFrameCodec::<websocket::dataframe::DataFrame>::default(ctx(!server))),
        };
        let f = run_future(f.send(OwnedMessage::Text("new".into())), 1000)?.map_err(|e| format!("send: {:?}", e))?;
        let out = io.out();
        ensure!(out.starts_with(&pend), "unwritten bytes lost: {} expected {} first", hex(&out), hex(&pend));
        let fr = parse_wire(&out[pend.len()..]).map_err(|e| format!("frame after the codec change: {}", e))?;
        ensure!(fr.len() == 1 && fr[0].payload == b"new" && fr[0].mask.is_some() == !server, "frame after the codec change: {}", hex(&out));
        let o = poll_stream(&mut executor::spawn(f), 2, c);
        expect(2, &o, want)?;
        c.trace(&(server, old));
        Ok(())
    });
    // bytes left by real operation: a blocked transport keeps sent messages in the write buffer
    x.section("codec-change/live", 40 * 40 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let accept = ix.take(40);
        let cut = ix.take(40);
        let (frames, want) = &tails(server)[2];
        let bytes = wire(frames);
        if cut >= bytes.len() {
            return Ok(());
        }
        c.note = format!("server={} transport accepts {} bytes, then blocks; input cut at {}", server, accept, cut);
        c.state(&(server, accept, cut));
        let io = Mock::new(vec![], Tail::WouldBlock);
        let mut s = executor::spawn(async_client(&io, server, None)?);
        {
            let mut st = io.st();
            st.input.push_back(Seg::Data(bytes[..cut].to_vec()));
            st.input.push_back(Seg::Fail(ErrorKind::WouldBlock));
            st.input.push_back(Seg::Data(bytes[cut..].to_vec()));
            st.input.push_back(Seg::Eof);
            st.max_write = 1;
            st.wscript = (0..accept).map(|_| Ok(1)).chain(std::iter::repeat(Err(ErrorKind::WouldBlock)).take(3)).collect();
        }
        let n = noop();
        for k in 0..2 {
            let m = OwnedMessage::Binary(pat(8, k));
            ensure!(s.start_send_notify(m, &n, 0).map_err(|e| format!("{:?}", e))?.is_ready(), "not accepted");
            let _ = s.poll_flush_notify(&n, 0).map_err(|e| format!("{:?}", e))?;
        }
        let mut got = vec![];
        loop {
            c.step();
            match s.poll_stream_notify(&n, 0).map_err(|e| format!("{:?}", e))? {
                Async::Ready(Some(m)) => got.push(m),
                _ => break,
            }
        }
        let f = update_framed_codec(s.into_inner(), MessageCodec::<OwnedMessage>::default(ctx(server)));
        let f = run_future(f.send(OwnedMessage::Text("new".into())), 1000)?.map_err(|e| format!("send: {:?}", e))?;
        crate::tx::check_all(&io.out(), &[fr(true, 2, &pat(8, 0)), fr(true, 2, &pat(8, 1)), fr(true, 1, b"new")], server)?;
        // a message in progress belongs to the old codec: only judge cuts that leave none
        let inside = {
            let a = frames[0].bytes().len();
            let b: usize = frames[..3].iter().map(|f| f.bytes().len()).sum();
            cut >= a && cut < b
        };
        if !inside {
            let o = poll_stream(&mut executor::spawn(f), 2, c);
            expect(2, &o, &want[got.len()..])?;
        }
        c.trace(&(server, got.len()));
        Ok(())
    });
}

// ---------------------------------------------------------------- C20

#[derive(Debug, Clone, PartialEq, Hash)]
enum Out {
    Ok,
    /// refused by a readable head (server: validation; client: status or headers)
    Refused,
    /// malformed, too long, ended or failed
    Err,
    Waiting,
}
/// One handshake attempt; an asynchronous one is polled until it is ready or the transport has nothing more.
fn attempt(ep: usize, io: &Mock, c: &mut Case) -> Result<Out, String> {
    c.step();
    let srv = |e: &HyperIntoWsError| if matches!(e, HyperIntoWsError::Io(_) | HyperIntoWsError::Parsing(_)) { Out::Err } else { Out::Refused };
    // a response that was read and has another status; anything else is some error
    let cli = |e: &WebSocketError| {
        use websocket::result::WebSocketOtherError as O;
        if let WebSocketError::Other(b) = e {
            if let Some(O::StatusCodeError(_)) | Some(O::RedirectError(..)) = b.downcast_ref::<O>() {
                return Out::Refused;
            }
        }
        Out::Err
    };
    Ok(match ep {
        0 => match io.clone().into_ws_sync() {
            Ok(_) => Out::Ok,
            Err(e) => {
                if blocked(io) && matches!(e.3, HyperIntoWsError::Io(ref e) if e.kind() == ErrorKind::WouldBlock) {
                    return Ok(Out::Waiting);
                }
                srv(&e.3)
            }
        },
        2 => {
            let mut f = executor::spawn(AIntoWs::into_ws(io.clone()));
            match pump(&mut f, io)? {
                None => Out::Waiting,
                Some(Ok(_)) => Out::Ok,
                Some(Err(e)) => srv(&e.3),
            }
        }
        3 => {
            let mut b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
            match b.connect_on(io.clone()) {
                Ok(_) => Out::Ok,
                Err(e) => {
                    if blocked(io) && format!("{:?}", e).contains("WouldBlock") {
                        return Ok(Out::Waiting);
                    }
                    cli(&e)
                }
            }
        }
        _ => {
            let b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
            let mut f = executor::spawn(b.async_connect_on(io.clone()));
            match pump(&mut f, io)? {
                None => Out::Waiting,
                Some(Ok(_)) => Out::Ok,
                Some(Err(e)) => cli(&e),
            }
        }
    })
}
fn blocked(io: &Mock) -> bool {
    io.rb() > 0
}
fn pump<F: Future>(f: &mut executor::Spawn<F>, io: &Mock) -> Result<Option<Result<F::Item, F::Error>>, String> {
    let n = noop();
    for _ in 0..1_000_000 {
        let left = io.st().input.len();
        let (r0, w0) = (io.rb(), io.wb());
        match f.poll_future_notify(&n, 0) {
            Ok(Async::Ready(x)) => return Ok(Some(Ok(x))),
            Err(e) => return Ok(Some(Err(e))),
            Ok(Async::NotReady) => {
                ensure!(io.rb() > r0 || io.wb() > w0, "the handshake is not ready although the transport was: nothing would wake it");
                if left == 0 {
                    return Ok(None);
                }
            }
        }
    }
    Err("the handshake never resolves".into())
}
const EP4: [usize; 4] = [0, 2, 3, 4];
fn other(ep: usize) -> usize {
    match ep {
        0 => 2,
        2 => 0,
        3 => 4,
        _ => 3,
    }
}
fn heads(ep: usize) -> Vec<(Vec<u8>, Out)> {
    let h = |s: &str| s.as_bytes().to_vec();
    let mut v = vec![(head(ep, 0), Out::Ok), (head(ep, 60), Out::Ok)];
    if is_server(ep) {
        v.push((h("POST / HTTP/1.1\r\nHost: x\r\n\r\n"), Out::Refused));
        v.push((h("GET / HTTP/1.1\r\n\r\n"), Out::Refused));
        v.push((h("GET / HTTP/1.0\r\nA: b\r\n\r\n"), Out::Refused));
        v.push((h("GET /\u{20}\r\nA b\r\n\r\n"), Out::Err));
        v.push((h("GET / HTTP/1.1\r\nA b\r\n\r\n"), Out::Err));
        v.push((h("GET / HTTP/3.7\r\nA: b\r\n\r\n"), Out::Err));
        v.push((h("\u{0}\u{1}\u{2} / HTTP/1.1\r\nA: b\r\n\r\n"), Out::Err));
    } else {
        v.push((h("HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"), Out::Refused));
        v.push((h("HTTP/1.1 301 M\r\nLocation: http://x\r\n\r\n"), Out::Refused));
        v.push((h("HTTP/1.1 101 S\r\n\r\n"), Out::Err));
        v.push((h("HTTP/1.1 200\r\n\r\n"), Out::Refused));
        v.push((h("HTTP/1.1 abc x\r\nA: b\r\n\r\n"), Out::Err));
        v.push((h("HTTX/1.1 101 x\r\nA: b\r\n\r\n"), Out::Err));
        v.push((h("HTTP/1.1 101 x\r\nA b\r\n\r\n"), Out::Err));
    }
    v
}

pub fn c20(x: &Ctx) {
    x.assume("not judged: heads with bare line feeds, heads larger than the blocking parser's 400 KiB buffer, interrupted reads during the handshake");
    x.bound("9 heads per role; every prefix followed by end of stream, 3 kinds of errors or silence, in pieces cut at every position, 2 endpoints per role");
    let nh = 9;
    let maxlen = 240;
    x.section("prefixes", (4 * nh * maxlen * maxlen * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = EP4[ix.take(4)];
        let hk = ix.take(nh);
        let end = ix.take(4);
        let p = ix.take(maxlen);
        let cut = ix.take(maxlen);
        let (h, _) = &heads(ep)[hk];
        if p >= h.len() || (cut > 0 && cut >= p) {
            return Ok(());
        }
        c.state(&(ep, hk, end, p, cut));
        let tail = [Tail::Eof, Tail::Fail(ErrorKind::ConnectionReset), Tail::Fail(ErrorKind::TimedOut), Tail::WouldBlock][end];
        c.note = format!("{}: first {} bytes of {:?} cut at {} then {:?}", EPS[ep], p, String::from_utf8_lossy(h), cut, tail);
        let io = Mock::new(segs(&h[..p], &[cut], false), tail);
        let o = attempt(ep, &io, c)?;
        let w = io.out();
        if is_server(ep) {
            ensure!(w.is_empty(), "the server wrote during an incomplete handshake");
        }
        match tail {
            Tail::WouldBlock => ensure!(o == Out::Waiting || o == Out::Err, "an incomplete head gave {:?}", o),
            _ => ensure!(o == Out::Err, "a truncated handshake gave {:?}", o),
        }
        if matches!(tail, Tail::WouldBlock) && hk < 5 && (ep == 2 || ep == 4) {
            ensure!(o == Out::Waiting, "an incomplete valid head gave {:?}", o);
        }
        c.trace(&(ep, hk, end, &o));
        Ok(())
    });
    x.bound("complete heads with 0-3 leading blank lines: every pair of cuts, byte by byte and whole, decided at the last byte with the transport still open");
    x.section("complete", (4 * nh * 4 * maxlen * maxlen) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = EP4[ix.take(4)];
        let hk = ix.take(nh);
        let blanks = ix.take(4);
        let a = ix.take(maxlen);
        let b = ix.take(maxlen);
        let (h, want) = &heads(ep)[hk];
        let mut v = b"\r\n".repeat(blanks);
        v.extend(h);
        if b >= v.len() || (a > b) {
            return Ok(());
        }
        c.state(&(ep, hk, blanks, a, b));
        c.note = format!("{}: {} blank lines then {:?} cuts {} {}", EPS[ep], blanks, String::from_utf8_lossy(h), a, b);
        let asy = ep == 2 || ep == 4;
        let io = Mock::new(segs(&v, &[a, b], asy), Tail::WouldBlock);
        if a == 0 && b == 0 {
            io.st().max_read = 1;
        }
        let o = attempt(ep, &io, c)?;
        ensure!(o == *want, "{:?}, expected {:?}", o, want);
        c.trace(&(ep, hk, blanks));
        Ok(())
    });
    x.bound("1 to 300 headers (all counts), 500, 1000, 3000: both parsers decide at the last byte, alike, and up to 90 headers are accepted");
    let counts: Vec<usize> = (4..300).chain(vec![500, 1000, 3000]).collect();
    x.section("header-count", (counts.len() * 2 * 4 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = EP4[ix.take(2) * 2];
        let n = counts[ix.take(counts.len())];
        let chunk = [usize::MAX, 1000, 4096, 7][ix.take(4)];
        let wide = [0, 1, 40][ix.take(3)];
        if n > 400 && chunk == 7 {
            return Ok(());
        }
        let mut h = head(ep, 0);
        h.truncate(h.len() - 2);
        for k in 4..n {
            h.extend_from_slice(format!("H{}: {}\r\n", k, "v".repeat(wide)).as_bytes());
        }
        h.extend_from_slice(b"\r\n");
        c.state(&(ep, n, chunk, wide));
        c.note = format!("{}: about {} headers of width {} in reads of {}", EPS[ep], n, wide, chunk);
        let a = attempt(ep, &Mock::with(&h, Tail::WouldBlock).max_read(chunk), c)?;
        let b = attempt(other(ep), &Mock::with(&h, Tail::WouldBlock).max_read(chunk), c)?;
        ensure!(a != Out::Waiting && b != Out::Waiting, "a complete head was not decided: blocking {:?}, asynchronous {:?}", a, b);
        ensure!(a == b, "blocking {:?}, asynchronous {:?}", a, b);
        if n <= 90 {
            ensure!(a == Out::Ok, "{} headers gave {:?}", n, a);
        }
        c.trace(&(ep, n > 100, &a));
        Ok(())
    });
    let pads: Vec<usize> = (10..x.tier(700usize, 5000)).chain(crate::rx::sizes_around_powers(1 << 18).into_iter().filter(|n| *n >= 700)).collect();
    x.bound("heads with one header, target or reason of every length to 700 (5000) and around powers of two to 2^18, or that many blank lines (to 3000) before: decided at the last byte, one byte before it still undecided, and cut short an error; read sizes 1, 1460 and unlimited, with 0 to 2 not-ready answers between any two reads");
    x.section("lengths", (pads.len() * 4 * 4 * 5) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = EP4[ix.take(4)];
        let what = ix.take(4);
        let how = ix.take(5);
        let n = pads[ix.0 as usize];
        let chunk = [usize::MAX, 1, 1460, 1, 1460][how];
        if n > 1500 && chunk == 1 && n % 7 != 0 || what == 2 && n > 3000 || chunk == 1 && n > 5000 {
            return Ok(());
        }
        let w: String = (0..n).map(|k| (b'a' + (k * 7 % 26) as u8) as char).collect();
        let h = String::from_utf8(head(ep, 0)).unwrap();
        let h = match what {
            0 => h.replacen("\r\n", &format!("\r\nX-Long: {}\r\n", w), 1),
            1 if is_server(ep) => h.replacen("/chat", &format!("/{}", w), 1),
            1 => h.replacen("\r\n", &format!(" {}\r\n", w), 1),
            2 => format!("{}{}", "\r\n".repeat(n), h),
            _ => h.replacen("\r\n", &format!("\r\nX-{}: y\r\n", w), 1),
        }
        .into_bytes();
        let asy = ep == 2 || ep == 4;
        c.note = format!("{}: {} of {}, read size {}", EPS[ep], ["header value", "target or reason", "blank lines", "header name"][what], n, chunk);
        c.state(&i);
        let mk = |b: &[u8], tail: Tail| -> Mock {
            let io = if asy && how >= 3 {
                let mut v = vec![];
                for (k, p) in b.chunks(chunk).enumerate() {
                    for _ in 0..(k + n) % 3 {
                        v.push(Seg::Fail(ErrorKind::WouldBlock));
                    }
                    v.push(Seg::Data(p.to_vec()));
                }
                Mock::new(v, tail)
            } else {
                Mock::with(b, tail)
            };
            io.max_read(chunk)
        };
        let o = attempt(ep, &mk(&h, Tail::WouldBlock), c)?;
        ensure!(o == Out::Ok, "complete head: {:?}", o);
        let short = &h[..h.len() - 1];
        let o = attempt(ep, &mk(short, Tail::WouldBlock), c)?;
        ensure!(o == Out::Waiting || o == Out::Err && !asy, "one byte before the end: {:?}", o);
        for cut in &[h.len() - 1, h.len() - 2, h.len() - 4, h.len() / 2] {
            let o = attempt(ep, &mk(&h[..*cut], Tail::Eof), c)?;
            ensure!(o == Out::Err, "ended after {} of {} bytes: {:?}", cut, h.len(), o);
            let o = attempt(ep, &mk(&h[..*cut], Tail::Fail(ErrorKind::ConnectionReset)), c)?;
            ensure!(o == Out::Err, "failed after {} of {} bytes: {:?}", cut, h.len(), o);
        }
        c.trace(&(ep, what, n));
        Ok(())
    });
    x.bound("all single-byte replacements and insertions (256 values at every position) of a short request and response head: no panic, blocking and asynchronous agree, never success on a truncated head");
    let short = |ep: usize| -> Vec<u8> {
        if is_server(ep) {
            format!("GET /a HTTP/1.1\r\nUpgrade:websocket\r\nConnection:Upgrade\r\nSec-WebSocket-Key:{}\r\n\r\n", KEY).into_bytes()
        } else {
            response(&accept_for(KEY))
        }
    };
    x.section("edits", (2 * 2 * 200 * 256) as u64, |c, i| {
        let mut ix = Ix(i);
        let ep = EP4[ix.take(2) * 2];
        let ins = ix.take(2) == 1;
        let pos = ix.take(200);
        let val = ix.take(256) as u8;
        let mut h = short(ep);
        if pos >= h.len() {
            return Ok(());
        }
        if ins {
            h.insert(pos, val);
        } else {
            h[pos] = val;
        }
        c.state(&(ep, ins, pos, val));
        c.note = format!("{}: {:?}", EPS[ep], String::from_utf8_lossy(&h));
        // after the edit the head may be incomplete: then it must fail at the end of the stream
        let a = attempt(ep, &Mock::with(&h, Tail::Eof), c)?;
        let b = attempt(other(ep), &Mock::with(&h, Tail::Eof), c)?;
        let bare = (0..h.len()).any(|k| h[k] == b'\n' && (k == 0 || h[k - 1] != b'\r'));
        ensure!(a != Out::Waiting && b != Out::Waiting, "not resolved at the end of the stream");
        if !bare {
            ensure!(a == b, "blocking {:?}, asynchronous {:?}", a, b);
            let complete = h.windows(4).any(|w| w == b"\r\n\r\n");
            ensure!(complete || a == Out::Err, "an incomplete head gave {:?}", a);
            // a complete head must be decided without waiting for more
            if complete && h.ends_with(b"\r\n\r\n") {
                for e in [ep, other(ep)] {
                    let o = attempt(e, &Mock::with(&h, Tail::WouldBlock), c)?;
                    ensure!(o == a, "{} with the transport open: {:?}, at the end of the stream: {:?}", EPS[e], o, a);
                }
            }
        }
        c.trace(&(ep, &a, &b));
        Ok(())
    });
    x.bound("all strings up to length 7 (8) over the start-line alphabet {G, SP, /, HTTP/1.1, CR LF, :, a} completed by a blank line, for the server");
    let toks: [&[u8]; 7] = [b"GET", b" ", b"/", b"HTTP/1.1", b"\r\n", b":", b"a"];
    x.section("start-lines", seq_count(7, x.tier(7, 8)), |c, i| {
        let t = seq_of(7, i);
        let mut h: Vec<u8> = t.iter().flat_map(|k| toks[*k].iter().cloned()).collect();
        h.extend_from_slice(b"\r\n\r\n");
        c.state(&i);
        c.note = format!("{:?}", String::from_utf8_lossy(&h));
        let a = attempt(0, &Mock::with(&h, Tail::Eof), c)?;
        let b = attempt(2, &Mock::with(&h, Tail::Eof), c)?;
        ensure!(a == b, "blocking {:?}, asynchronous {:?}", a, b);
        ensure!(a == Out::Err || a == Out::Refused, "not a handshake, but {:?}", a);
        c.trace(&a);
        Ok(())
    });
    x.bound("heads of up to 300 KB: both parsers accept, at read sizes 1000, 4096 and unlimited");
    x.section("large-heads", 8 * 3 * 4, |c, i| {
        let mut ix = Ix(i);
        let ep = EP4[ix.take(4)];
        let pad = [4000, 8192, 16384, 40000, 65535, 65536, 131072, 300000][ix.take(8)];
        let chunk = [usize::MAX, 1000, 4096][ix.take(3)];
        c.state(&(ep, pad, chunk));
        c.note = format!("{}: head padded by {} bytes in reads of {}", EPS[ep], pad, chunk);
        let o = attempt(ep, &Mock::with(&head(ep, pad), Tail::WouldBlock).max_read(chunk), c)?;
        ensure!(o == Out::Ok, "{:?}", o);
        c.trace(&(ep, pad));
        Ok(())
    });
    // not-ready answers at every point of the asynchronous handshake, both directions
    x.bound("asynchronous handshakes: every schedule with at most 3 (4) short or not-ready or failing reads and writes");
    let bound = x.tier(3, 4);
    x.section("async-schedules", 2 * 3, |c, i| {
        let mut ix = Ix(i);
        let ep = [2, 4][ix.take(2)];
        let chunk = [usize::MAX, 50, 20][ix.take(3)];
        c.note = format!("{}: reads of {}", EPS[ep], chunk);
        explore(bound, 3_000_000, c, |tape, c| {
            let io = Mock::with(&head(ep, 0), Tail::Eof).max_read(chunk).max_write(chunk);
            io.st().max_block_run = 2;
            io.st().tape = Some((tape, Menu { r_short: true, r_block: true, r_err: true, w_short: true, w_block: true, w_err: true, f_block: true, ..Default::default() }));
            let o = attempt_full(ep, &io, c)?;
            let f = io.failed();
            ensure!((o == Out::Ok) != f, "transport failed: {}, handshake {:?}", f, o);
            c.state(&(ep, chunk));
            c.trace(&(ep, &o, io.out().len()));
            Ok(())
        })
        .map(|_| ())
    });
}
/// the handshake including the server's answer
fn attempt_full(ep: usize, io: &Mock, c: &mut Case) -> Result<Out, String> {
    if ep == 4 {
        let b = ClientBuilder::new("ws://example.com/").map_err(|e| e.to_string())?.key(KEY_BYTES);
        c.step();
        return Ok(match run_future(b.async_connect_on(io.clone()), 100_000)? {
            Ok(_) => Out::Ok,
            Err(_) => Out::Err,
        });
    }
    c.step();
    match run_future(AIntoWs::into_ws(io.clone()), 100_000)? {
        Err(_) => Ok(Out::Err),
        Ok(u) => Ok(match run_future(u.accept(), 100_000)? {
            Ok(_) => Out::Ok,
            Err(_) => Out::Err,
        }),
    }
}
#[allow(unused)]
fn keep<S: Stream>(_: S) {}
