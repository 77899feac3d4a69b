//! Sending side: C02, C03, C16, C21, C22.
use crate::drv::*;
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::{ensure, fail};
use bytes::BytesMut;
use futures::{executor, Async, AsyncSink};
use std::collections::HashSet;
use std::borrow::Cow;
use std::io::{ErrorKind, Write};
use tokio_codec::Encoder;
use websocket::codec::ws::{DataFrameCodec, MessageCodec};
use websocket::dataframe::{DataFrame, Opcode};
use websocket::message::{CloseData, Message, Type};
use websocket::result::{WebSocketError, WebSocketResult};
use websocket::sender::{Sender, Writer};
use websocket::ws::dataframe::DataFrame as DfTrait;
use websocket::ws::util::mask::{mask_data, Masker};
use websocket::ws::Message as MsgTrait;
use websocket::ws::Sender as SenderTrait;
use websocket::OwnedMessage;

/// Compare what was written with the frames that were accepted, byte by byte, masking factored out.
/// Returns (complete frames seen, keys) ; Err when `out` is not a prefix of a correct encoding.
pub fn check_out(out: &[u8], want: &[Fr], server: bool) -> Result<(usize, Vec<[u8; 4]>, bool), String> {
    let mut pos = 0;
    let mut keys = vec![];
    for (i, f) in want.iter().enumerate() {
        if pos == out.len() {
            return Ok((i, keys, false));
        }
        let mut g = f.clone();
        g.mask = None;
        let mut exp = g.bytes();
        let hl = exp.len() - f.payload.len();
        let mut hlen = hl;
        if !server {
            exp[1] |= 0x80;
            let k: Vec<u8> = (0..4).map(|j| out.get(pos + hl + j).cloned().unwrap_or(0)).collect();
            let key = [k[0], k[1], k[2], k[3]];
            let pl: Vec<u8> = f.payload.iter().enumerate().map(|(j, b)| b ^ key[j & 3]).collect();
            exp.truncate(hl);
            exp.extend_from_slice(&k);
            exp.extend_from_slice(&pl);
            hlen += 4;
            keys.push(key);
        }
        let n = exp.len().min(out.len() - pos);
        if out[pos..pos + n] != exp[..n] {
            let d = (0..n).find(|j| out[pos + j] != exp[*j]).unwrap();
            return Err(format!(
                "byte {} of frame {} ({}) is {:02x}, expected {:02x} (header {} bytes)",
                d,
                i,
                f.show(),
                out[pos + d],
                exp[d],
                hlen
            ));
        }
        pos += n;
        if n < exp.len() {
            return Ok((i, keys, true));
        }
    }
    if pos != out.len() {
        return Err(format!("{} bytes after the last of {} frames: {}", out.len() - pos, want.len(), hex(&out[pos..])));
    }
    Ok((want.len(), keys, false))
}
/// exactly these frames, all complete
pub fn check_all(out: &[u8], want: &[Fr], server: bool) -> Result<Vec<[u8; 4]>, String> {
    let (n, k, part) = check_out(out, want, server)?;
    ensure!(n == want.len() && !part, "only {} of {} frames were completely written ({} bytes)", n, want.len(), out.len());
    Ok(k)
}
pub fn msg_fr(m: &OwnedMessage) -> Fr {
    let (op, p) = payload_of(m);
    fr(true, op, &p)
}

/// A frame type of the user's own, writing its payload in pieces.
#[derive(Clone)]
pub struct Custom {
    fin: bool,
    rsv: [bool; 3],
    op: u8,
    data: Vec<u8>,
    cuts: Vec<usize>,
    /// 0 write_all, 1 write loop, 2 write_all + flush after each piece, 3 empty writes between
    how: usize,
}
impl DfTrait for Custom {
    fn is_last(&self) -> bool {
        self.fin
    }
    fn opcode(&self) -> u8 {
        self.op
    }
    fn reserved(&self) -> &[bool; 3] {
        &self.rsv
    }
    fn size(&self) -> usize {
        self.data.len()
    }
    fn write_payload(&self, w: &mut dyn Write) -> WebSocketResult<()> {
        for p in split_at(&self.data, &self.cuts) {
            match self.how {
                0 => w.write_all(&p)?,
                1 => {
                    let mut q = &p[..];
                    while !q.is_empty() {
                        let n = w.write(q)?;
                        q = &q[n..];
                    }
                }
                2 => {
                    w.write_all(&p)?;
                    w.flush()?;
                }
                _ => {
                    w.write_all(&[])?;
                    w.write_all(&p)?;
                    let _ = w.write(&[])?;
                }
            }
        }
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> {
        self.data
    }
}
/// user-defined message type wrapping a frame
pub struct CustomMsg(Custom);
impl MsgTrait for CustomMsg {
    fn serialize(&self, w: &mut dyn Write, masked: bool) -> WebSocketResult<()> {
        self.0.write_to(w, masked)
    }
    fn message_size(&self, masked: bool) -> usize {
        self.0.frame_size(masked)
    }
    fn from_dataframes<D: DfTrait>(_: Vec<D>) -> WebSocketResult<Self> {
        Err(WebSocketError::ProtocolError("unused"))
    }
}

pub enum Item {
    Owned(OwnedMessage),
    Msg(Message<'static>),
    Df(DataFrame),
    Custom(Custom),
}
const ENTRIES: usize = 7;
const ENTRY_NAMES: [&str; ENTRIES] =
    ["write_to/serialize", "Sender", "Client", "split Writer", "codec encode", "handshaken Framed", "write_to a short-writing stream"];

fn st<T>(r: WebSocketResult<T>) -> Result<(), String> {
    r.map(|_| ()).map_err(|e| format!("{:?}", e))
}
/// Send one item; (result of the call, bytes that reached the transport)
fn emit(entry: usize, server: bool, it: &Item, c: &mut Case) -> Result<(Result<(), String>, Vec<u8>), String> {
    c.step();
    let masked = !server;
    Ok(match entry {
        0 | 6 => {
            let mut v = vec![];
            let io = Mock::new(vec![], Tail::WouldBlock).max_write(3);
            let mut w2 = io.clone();
            let w: &mut dyn Write = if entry == 0 { &mut v } else { &mut w2 };
            let r = match it {
                Item::Owned(m) => st(m.serialize(w, masked)),
                Item::Msg(m) => st(m.serialize(w, masked)),
                Item::Df(d) => st(d.write_to(w, masked)),
                Item::Custom(d) => st(d.write_to(w, masked)),
            };
            (r, if entry == 0 { v } else { io.take_out() })
        }
        1 => {
            let mut v = vec![];
            let mut s = Sender::new(masked);
            ensure!(s.is_masked() == masked, "Sender::is_masked wrong");
            let r = match it {
                Item::Owned(m) => st(s.send_message(&mut v, m)),
                Item::Msg(m) => st(s.send_message(&mut v, m)),
                Item::Df(d) => st(s.send_dataframe(&mut v, d)),
                Item::Custom(d) => st(s.send_dataframe(&mut v, d)),
            };
            (r, v)
        }
        2 => {
            let io = Mock::new(vec![], Tail::Eof);
            let mut cl = sync_client(&io, server, None)?;
            let r = match it {
                Item::Owned(m) => st(cl.send_message(m)),
                Item::Msg(m) => st(cl.send_message(m)),
                Item::Df(d) => st(cl.send_dataframe(d)),
                Item::Custom(d) => st(cl.send_dataframe(d)),
            };
            (r, io.take_out())
        }
        3 => {
            let io = Mock::new(vec![], Tail::Eof);
            let (_r, mut w): (_, Writer<Mock>) = sync_client(&io, server, None)?.split().map_err(|e| e.to_string())?;
            let r = match it {
                Item::Owned(m) => st(w.send_message(m)),
                Item::Msg(m) => st(w.send_message(m)),
                Item::Df(d) => st(w.send_dataframe(d)),
                Item::Custom(d) => st(w.send_dataframe(d)),
            };
            (r, io.take_out())
        }
        4 => {
            let mut b = BytesMut::new();
            let r = encode(server, it, &mut b);
            (r, b.to_vec())
        }
        _ => {
            let io = Mock::new(vec![], Tail::WouldBlock);
            let m = match it {
                Item::Owned(m) => m.clone(),
                Item::Msg(m) => OwnedMessage::from(m.clone()),
                _ => {
                    // frames travel through a framed frame codec
                    use tokio_codec::Decoder;
                    let b: Box<dyn DfTrait> = match it {
                        Item::Df(d) => Box::new(d.clone()),
                        Item::Custom(d) => Box::new(d.clone()),
                        _ => unreachable!(),
                    };
                    let f = DataFrameCodec::<Box<dyn DfTrait>>::new(ctx(server)).framed(io.clone());
                    let mut s = executor::spawn(f);
                    let n = noop();
                    let r = match s.start_send_notify(b, &n, 0) {
                        Ok(AsyncSink::Ready) => Ok(()),
                        Ok(AsyncSink::NotReady(_)) => fail!("idle sink not ready"),
                        Err(e) => Err(format!("{:?}", e)),
                    };
                    match s.poll_flush_notify(&n, 0) {
                        Ok(Async::Ready(())) => {}
                        o => fail!("flush over a ready transport: {:?}", o.is_ok()),
                    }
                    return Ok((r, io.take_out()));
                }
            };
            let mut s = executor::spawn(async_client(&io, server, None)?);
            let n = noop();
            let r = match s.start_send_notify(m, &n, 0) {
                Ok(AsyncSink::Ready) => Ok(()),
                Ok(AsyncSink::NotReady(_)) => fail!("idle sink not ready"),
                Err(e) => Err(format!("{:?}", e)),
            };
            match s.poll_flush_notify(&n, 0) {
                Ok(Async::Ready(())) => {}
                o => fail!("flush over a ready transport: {:?}", o.is_ok()),
            }
            (r, io.take_out())
        }
    })
}
fn encode(server: bool, it: &Item, b: &mut BytesMut) -> Result<(), String> {
    match it {
        Item::Owned(m) => st(MessageCodec::<OwnedMessage>::default(ctx(server)).encode(m.clone(), b)),
        Item::Msg(m) => st(MessageCodec::<Message<'static>>::new(ctx(server)).encode(m.clone(), b)),
        Item::Df(d) => st(DataFrameCodec::<Box<dyn DfTrait>>::new(ctx(server)).encode(Box::new(d.clone()), b)),
        Item::Custom(d) => {
            let mut b2 = b.clone();
            let before = b.len();
            let r = st(DataFrameCodec::<Box<dyn DfTrait>>::new(ctx(server)).encode(Box::new(d.clone()), b));
            // and through a user-defined message type
            let r2 = st(MessageCodec::<CustomMsg>::new(ctx(server)).encode(CustomMsg(d.clone()), &mut b2));
            if r.is_ok() != r2.is_ok() || b.len() != b2.len() || b2[..before] != b[..before] {
                return Err("custom message and custom frame disagree".into());
            }
            r
        }
    }
}
fn size_of(it: &Item, masked: bool) -> (usize, usize) {
    match it {
        Item::Owned(m) => (m.message_size(masked), m.frame_size(masked)),
        Item::Msg(m) => (m.message_size(masked), m.frame_size(masked)),
        Item::Df(d) => (d.frame_size(masked), d.frame_size(masked)),
        Item::Custom(d) => (d.frame_size(masked), d.frame_size(masked)),
    }
}
fn judge(entry: usize, server: bool, it: &Item, want: &Fr, c: &mut Case) -> Res {
    let (r, out) = emit(entry, server, it, c)?;
    let refuse = want.op >= 8 && want.payload.len() > 125;
    c.state(&(entry, server, want.fin, want.rsv, want.op, want.payload.len(), hash_of(&want.payload)));
    c.trace(&(r.is_ok(), out.len()));
    if refuse {
        ensure!(r.is_err(), "an oversized control frame was accepted");
        ensure!(out.is_empty(), "a refused control frame emitted {} bytes: {}", out.len(), hex(&out));
        return Ok(());
    }
    ensure!(r.is_ok(), "sending failed: {:?}", r);
    check_all(&out, std::slice::from_ref(want), server)?;
    let (a, b) = size_of(it, !server);
    ensure!(a == out.len() && b == out.len(), "announced size {}/{} but {} bytes were emitted", a, b, out.len());
    // decoding yields the value back
    let mut d = FrameDec::new(!server);
    d.feed(&out, c);
    if want.fin || want.op < 8 {
        ensure!(
            d.err.is_none() && d.out.len() == 1 && d.buf.is_empty(),
            "own frame decoder on the emitted bytes: {:?} err {:?}",
            d.out.len(),
            d.err
        );
        let f = &d.out[0];
        ensure!(
            f.finished == want.fin
                && f.opcode as u8 == want.op
                && f.reserved == [want.rsv & 4 != 0, want.rsv & 2 != 0, want.rsv & 1 != 0]
                && f.data == want.payload,
            "decoding the emitted frame gives something else"
        );
    }
    let as_msg = match it {
        Item::Owned(m) => Some(m.clone()),
        Item::Msg(m) => Some(OwnedMessage::from(m.clone())),
        _ => None,
    };
    if let Some(m) = as_msg {
        let mut d = AsyncDec::new(!server, DEF);
        d.feed(&out, c);
        ensure!(d.obs == vec![Obs::Msg(m)], "decoding the emitted message gives [{}]", show_obs(&d.obs));
    }
    Ok(())
}
fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}
/// the six message kinds as owned / borrowed / owned-Cow values
fn make_item(kind: usize, repr: usize, n: usize) -> Option<(Item, Fr)> {
    let txt = pat(n, kind);
    let bin = patb(n, kind);
    let (m, want): (OwnedMessage, Fr) = match kind {
        0 => (OwnedMessage::Text(String::from_utf8(txt.clone()).unwrap()), fr(true, 1, &txt)),
        1 => (OwnedMessage::Binary(bin.clone()), fr(true, 2, &bin)),
        2 => (OwnedMessage::Ping(bin.clone()), fr(true, 9, &bin)),
        3 => (OwnedMessage::Pong(bin.clone()), fr(true, 10, &bin)),
        4 => {
            if n > 0 {
                return None;
            }
            (OwnedMessage::Close(None), fr(true, 8, b""))
        }
        _ => {
            if n < 2 {
                return None;
            }
            let code = 1000 + (n as u16 % 3000);
            let mut p = code.to_be_bytes().to_vec();
            p.extend_from_slice(&txt[2..]);
            (
                OwnedMessage::Close(Some(CloseData::new(code, String::from_utf8(txt[2..].to_vec()).unwrap()))),
                fr(true, 8, &p),
            )
        }
    };
    let it = match repr {
        0 => Item::Owned(m),
        1 => Item::Msg(match kind {
            0 => Message::text(String::from_utf8(txt).unwrap()),
            1 => Message::binary(bin),
            2 => Message::ping(bin),
            3 => Message::pong(bin),
            4 => Message::close(),
            _ => Message::close_because(1000 + (n as u16 % 3000), String::from_utf8(txt[2..].to_vec()).unwrap()),
        }),
        _ => {
            if n > 300 {
                return None;
            }
            Item::Msg(match kind {
                0 => Message::text(std::str::from_utf8(leak(txt)).unwrap()),
                1 => Message::binary(leak(bin)),
                2 => Message::ping(leak(bin)),
                3 => Message::pong(leak(bin)),
                4 => Message::close(),
                _ => Message::close_because(1000 + (n as u16 % 3000), std::str::from_utf8(&leak(txt)[2..]).unwrap()),
            })
        }
    };
    Some((it, want))
}

pub fn c02(x: &Ctx) {
    // dense small lengths
    let small = 301;
    x.bound("messages: 6 kinds x 3 representations x lengths 0..=300 dense, around 65535 dense (thorough 65400..65700), around every power of two up to 2 MiB (thorough 16 MiB) and 16 MiB + 1, x both roles x 7 entry points");
    x.section("messages/small", (small * 6 * 3 * 2 * ENTRIES) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(ENTRIES);
        let server = ix.take(2) == 1;
        let repr = ix.take(3);
        let kind = ix.take(6);
        let n = ix.take(small);
        let (it, want) = match make_item(kind, repr, n) {
            Some(x) => x,
            None => return Ok(()),
        };
        c.note = format!("{} server={} repr {} {}", ENTRY_NAMES[entry], server, repr, want.show());
        judge(entry, server, &it, &want, c)
    });
    let mut big: Vec<usize> = x.tier((65520..65550).collect(), (65400..65700).collect());
    big.extend_from_slice(&[1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65400, 65700, 70000, 131071, 131072]);
    // around every power of two and a few round numbers beyond
    for k in 9..x.tier(22, 25) {
        let p = 1usize << k;
        big.extend_from_slice(&[p - 2, p - 1, p, p + 1, p + 2, p + p / 2 + 3]);
    }
    big.extend_from_slice(&[1000, 9999, 10_000, 65_000, 99_999, 100_000, 100_001, 1_000_000, 1_000_003, (1 << 24) + 1]);
    big.sort();
    big.dedup();
    let big = &big;
    x.section("messages/large", (big.len() * 2 * 2 * 2 * ENTRIES) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(ENTRIES);
        let server = ix.take(2) == 1;
        let repr = ix.take(2);
        let kind = ix.take(2);
        let n = *ix.pick(big);
        if n > 1 << 20 && (repr + kind + entry) % 3 != 0 {
            return Ok(());
        }
        let (it, want) = make_item(kind, repr, n).unwrap();
        c.note = format!("{} server={} repr {} {}", ENTRY_NAMES[entry], server, repr, want.show());
        judge(entry, server, &it, &want, c)
    });
    x.bound("contents: all payloads of one and two bytes, every byte value at every place of a 9 byte payload, all 65536 close codes without and with a reason, x both roles, representations and entry points in rotation");
    x.section("messages/contents", (65536 + 256 + 256 * 9 + 65536 * 2) * 4, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let owned = ix.take(2) == 1;
        let k = ix.0;
        let entry = (k % ENTRIES as u64) as usize;
        let (m, want) = if k < 65536 + 256 + 256 * 9 {
            let p: Vec<u8> = if k < 65536 {
                vec![(k >> 8) as u8, k as u8]
            } else if k < 65536 + 256 {
                vec![k as u8]
            } else {
                let j = k - 65536 - 256;
                let mut p = b"payload s".to_vec();
                p[(j / 256) as usize] = j as u8;
                p
            };
            match ((k / 7) % 3, String::from_utf8(p.clone())) {
                (0, Ok(s)) => (OwnedMessage::Text(s), fr(true, 1, &p)),
                (1, _) => (OwnedMessage::Ping(p.clone()), fr(true, 9, &p)),
                (2, _) => (OwnedMessage::Pong(p.clone()), fr(true, 10, &p)),
                _ => (OwnedMessage::Binary(p.clone()), fr(true, 2, &p)),
            }
        } else {
            let j = k - (65536 + 256 + 256 * 9);
            let code = (j / 2) as u16;
            let reason = if j % 2 == 0 { "" } else { "why \u{e9}" };
            let p = [&code.to_be_bytes()[..], reason.as_bytes()].concat();
            (OwnedMessage::Close(Some(CloseData::new(code, reason.into()))), fr(true, 8, &p))
        };
        let it = if owned {
            Item::Owned(m)
        } else {
            // built by hand, not converted
            Item::Msg(match m {
                OwnedMessage::Text(s) => Message::text(s),
                OwnedMessage::Binary(b) => Message::binary(b),
                OwnedMessage::Ping(b) => Message::ping(b),
                OwnedMessage::Pong(b) => Message::pong(b),
                OwnedMessage::Close(Some(d)) => Message::close_because(d.status_code, d.reason),
                OwnedMessage::Close(None) => Message::close(),
            })
        };
        c.note = format!("{} server={} owned {} {}", ENTRY_NAMES[entry], server, owned, want.show());
        judge(entry, server, &it, &want, c)
    });
    x.bound("one endpoint (Client, Writer, Sender, codec; both roles) sending 3000 (thorough 40000) messages of changing kind and size, one in seven refused");
    let long = x.tier(3000usize, 40_000);
    x.section("long-history", 8, |c, i| {
        let server = i % 2 == 1;
        let entry = i / 2;
        c.note = format!("entry {} server={}", entry, server);
        let io = Mock::new(vec![], Tail::Eof);
        let mut client = None;
        let mut writer = None;
        let mut sender = Sender::new(!server);
        let mut mcodec = MessageCodec::<OwnedMessage>::default(ctx(server));
        let mut buf = BytesMut::new();
        match entry {
            0 => client = Some(sync_client(&io, server, None)?),
            1 => writer = Some(sync_client(&io, server, None)?.split().map_err(|e| e.to_string())?),
            _ => {}
        }
        for k in 0..long {
            c.step();
            let n = if k % 97 == 96 { 70_000 + k % 5 } else { (k * 31) % 400 };
            let kind = k % 6;
            let (it, f) = match make_item(kind, 0, if kind == 4 { 0 } else { n.max(2) }) {
                Some(x) => x,
                None => continue,
            };
            let m = match it {
                Item::Owned(m) => m,
                _ => unreachable!(),
            };
            let r = match entry {
                0 => st(client.as_mut().unwrap().send_message(&m)),
                1 => st(writer.as_mut().unwrap().1.send_message(&m)),
                2 => st(sender.send_message(&mut io.clone(), &m)),
                _ => st(mcodec.encode(m, &mut buf)),
            };
            let refuse = f.op >= 8 && f.payload.len() > 125;
            ensure!(r.is_ok() != refuse, "send {} {} gave {:?}", k, f.show(), r);
            // the encoder's buffer is emptied now and then only
            let out = if entry == 3 {
                let all = buf.to_vec();
                if k % 50 == 49 {
                    buf.clear();
                }
                all
            } else {
                io.take_out()
            };
            let want = if refuse { vec![] } else { vec![f] };
            if entry == 3 {
                let n = want.iter().map(|f| f.clone().to(!server, 0).bytes().len()).sum::<usize>();
                ensure!(out.len() >= n, "send {}: {} bytes in the buffer", k, out.len());
                check_all(&out[out.len() - n..], &want, server).map_err(|e| format!("send {}: {}", k, e))?;
            } else {
                check_all(&out, &want, server).map_err(|e| format!("send {}: {}", k, e))?;
            }
            c.state(&(i, k));
        }
        c.trace(&i);
        Ok(())
    });
    x.bound("data frames: 16 opcodes x FIN x 8 reserved-bit values x 16 boundary lengths x both roles x 7 entry points");
    let lens: [usize; 16] = [0, 1, 2, 3, 4, 5, 124, 125, 126, 127, 128, 255, 256, 65535, 65536, 65537];
    x.section("data-frames", (16 * 2 * 8 * 16 * 2 * ENTRIES) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(ENTRIES);
        let server = ix.take(2) == 1;
        let rsv = ix.take(8) as u8;
        let fin = ix.take(2) == 1;
        let op = ix.take(16) as u8;
        let n = *ix.pick(&lens);
        if n > 1000 && rsv != 0 && rsv != 5 && !x.thorough {
            return Ok(());
        }
        let data = patb(n, 3);
        let d = DataFrame {
            finished: fin,
            reserved: [rsv & 4 != 0, rsv & 2 != 0, rsv & 1 != 0],
            opcode: Opcode::new(op).ok_or("opcode nibble refused")?,
            data: data.clone(),
        };
        ensure!(d.opcode as u8 == op, "Opcode::new({}) is {:?}", op, d.opcode);
        let want = fr(fin, op, &data).rsv(rsv);
        c.note = format!("{} server={} {}", ENTRY_NAMES[entry], server, want.show());
        judge(entry, server, &Item::Df(d), &want, c)
    });
    x.bound("frame headers written on their own: 256 first bytes x masked or not x declared lengths around every boundary and power of two to 2^63, read back; bodies of every opcode and flag joined with their header");
    let mut hl: Vec<u64> = (0..260).collect();
    for p in 8..63u32 {
        for d in 0..3 {
            hl.push((1u64 << p) - 1 + d);
        }
    }
    hl.push((1u64 << 63) - 1);
    let hl = &hl;
    x.section("headers", (256 * 3 * hl.len()) as u64, |c, i| {
        use websocket::ws::util::header::*;
        let mut ix = Ix(i);
        let b0 = ix.take(256) as u8;
        let mask = [None, Some([0x12, 0, 0xff, 0x80]), Some([0; 4])][ix.take(3)];
        let n = hl[ix.0 as usize];
        let mut flags = DataFrameFlags::empty();
        for (bit, f) in &[(0x80, DataFrameFlags::FIN), (0x40, DataFrameFlags::RSV1), (0x20, DataFrameFlags::RSV2), (0x10, DataFrameFlags::RSV3)] {
            if b0 & bit != 0 {
                flags.insert(*f);
            }
        }
        let op = b0 & 15;
        c.note = format!("first byte {:02x} mask {:?} length {}", b0, mask, n);
        c.step();
        let h = || DataFrameHeader { flags, opcode: op, mask, len: n };
        let mut out = vec![];
        let r = write_header(&mut out, h());
        if op >= 8 && n > 125 {
            ensure!(r.is_err() && out.is_empty(), "an oversized control frame header was written");
            return Ok(());
        }
        r.map_err(|e| format!("refused: {:?}", e))?;
        let m = if mask.is_some() { 0x80u8 } else { 0 };
        let mut want = vec![b0];
        if n < 126 {
            want.push(m | n as u8);
        } else if n < 65536 {
            want.push(m | 126);
            want.extend_from_slice(&(n as u16).to_be_bytes());
        } else {
            want.push(m | 127);
            want.extend_from_slice(&n.to_be_bytes());
        }
        if let Some(k) = mask {
            want.extend_from_slice(&k);
        }
        ensure!(out == want, "wrote {}, expected {}", hex(&out), hex(&want));
        if op < 8 || b0 & 0x80 != 0 {
            let mut rd = &want[..];
            let g = read_header(&mut rd).map_err(|e| format!("read back: {:?}", e))?;
            ensure!(rd.is_empty() && g == h(), "read back {:?}", g);
        }
        if n < 128 {
            let body = patb(n as usize, 5);
            for want_mask in &[true, false] {
                let r = DataFrame::read_dataframe_body(h(), body.clone(), *want_mask);
                match r {
                    Err(_) => ensure!(*want_mask != mask.is_some(), "body with the right masking refused"),
                    Ok(d) => {
                        ensure!(*want_mask == mask.is_some(), "body with the wrong masking accepted");
                        let k = mask.unwrap_or([0; 4]);
                        let plain: Vec<u8> = body.iter().enumerate().map(|(i, b)| b ^ k[i % 4]).collect();
                        ensure!(d.data == plain && d.finished == (b0 & 0x80 != 0) && d.opcode as u8 == op, "frame {:?}", d);
                        ensure!(d.reserved == [b0 & 0x40 != 0, b0 & 0x20 != 0, b0 & 0x10 != 0], "reserved bits {:?}", d.reserved);
                    }
                }
            }
        }
        c.state(&i);
        c.trace(&want);
        Ok(())
    });
    x.bound("user-defined frames: payload 0..=max bytes, every way to cut it into pieces, 4 ways to write the pieces, opcodes 0,2,9,11 x FIN x both roles x 7 entry points");
    let maxn = x.tier(8, 11);
    let mut shapes: Vec<(usize, Vec<usize>)> = vec![];
    for n in 0..=maxn {
        for m in 0..1u64 << (n as u32).saturating_sub(1) {
            shapes.push((n, cuts_of_mask(m, n)));
        }
    }
    for n in [125usize, 126, 127, 65535, 65536] {
        for c1 in [1usize, 2, 3, 4, 5, 63, 124] {
            shapes.push((n, vec![c1]));
            shapes.push((n, vec![c1, c1 + 1]));
            shapes.push((n, (1..n).step_by(c1.max(3)).collect()));
        }
    }
    let shapes = &shapes;
    let cops: [(bool, u8); 5] = [(true, 2), (false, 1), (true, 9), (false, 0), (true, 0xb)];
    x.section("custom-frames", (shapes.len() * 4 * 5 * 2 * ENTRIES) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(ENTRIES);
        let server = ix.take(2) == 1;
        let how = ix.take(4);
        let (fin, op) = cops[ix.take(5)];
        let (n, cuts) = ix.pick(shapes).clone();
        if n > 1000 && how > 1 {
            return Ok(());
        }
        let data = patb(n, 1);
        let rsv = (n % 8) as u8;
        let want = fr(fin, op, &data).rsv(rsv);
        c.note = format!("{} server={} how {} cuts {:?} {}", ENTRY_NAMES[entry], server, how, &cuts[..cuts.len().min(12)], want.show());
        let d = Custom { fin, rsv: [rsv & 4 != 0, rsv & 2 != 0, rsv & 1 != 0], op, data, cuts, how };
        judge(entry, server, &Item::Custom(d), &want, c)
    });
    x.bound("asynchronous output buffer: prior content 0..=12 bytes x spare capacity 0..=40 and boundary values x 3 buffer histories x payload lengths");
    let plens: [usize; 14] = [0, 1, 2, 3, 7, 15, 31, 64, 125, 126, 127, 200, 65535, 65536];
    let spare: Vec<usize> = (0..=40).chain(vec![124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 4096, 65535, 65536, 70000]).collect();
    let spare = &spare;
    x.section("buffer-states", (plens.len() * spare.len() * 13 * 3 * 2 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let hist = ix.take(3);
        let server = ix.take(2) == 1;
        let what = ix.take(4);
        let prior = ix.take(13);
        let sp = *ix.pick(spare);
        let n = *ix.pick(&plens);
        if n > 1000 && prior > 2 && !x.thorough {
            return Ok(());
        }
        let data = pat(n, 2);
        let (it, want) = match what {
            0 => (Item::Owned(OwnedMessage::Text(String::from_utf8(data.clone()).unwrap())), fr(true, 1, &data)),
            1 => (Item::Df(DataFrame::new(false, Opcode::Binary, data.clone())), fr(false, 2, &data)),
            2 => (
                Item::Custom(Custom { fin: true, rsv: [false; 3], op: 2, data: data.clone(), cuts: vec![1, 2, 5], how: 0 }),
                fr(true, 2, &data),
            ),
            _ => (Item::Msg(Message::ping(data.clone())), fr(true, 9, &data)),
        };
        let pre = patb(prior, 9);
        let mut b = match hist {
            0 => BytesMut::with_capacity(prior + sp),
            1 => {
                // the front was taken away and is still alive
                let mut b = BytesMut::with_capacity(prior + sp + 16);
                b.extend_from_slice(&[7; 16]);
                let front = b.split_to(16);
                std::mem::forget(front);
                b
            }
            _ => {
                // the front was taken and dropped: the buffer may reclaim it
                let mut b = BytesMut::with_capacity(prior + sp + 5);
                b.extend_from_slice(&[7; 5]);
                drop(b.take());
                b
            }
        };
        b.extend_from_slice(&pre);
        c.step();
        c.note = format!("server={} history {} prior {} spare {} {}", server, hist, prior, sp, want.show());
        let r = encode(server, &it, &mut b);
        c.state(&(server, hist, prior, sp, n, what));
        c.trace(&(r.is_ok(), b.len()));
        ensure!(b.len() >= prior && b[..prior] == pre[..], "earlier contents of the buffer changed: {}", hex(&b));
        if want.op >= 8 && n > 125 {
            ensure!(r.is_err(), "an oversized control frame was accepted");
            ensure!(b.len() == prior, "a refused control frame emitted {} bytes", b.len() - prior);
            return Ok(());
        }
        ensure!(r.is_ok(), "encoding failed: {:?}", r);
        check_all(&b[prior..], &[want], server).map(|_| ())
    });
    // sequences of sends on one endpoint, refused ones included
    let alpha: Vec<(Item, Fr)> = vec![
        make_item(0, 0, 5).unwrap(),
        make_item(1, 1, 126).unwrap(),
        make_item(2, 0, 126).unwrap(), // refused
        make_item(5, 1, 130).unwrap(), // refused
        make_item(3, 0, 125).unwrap(),
        make_item(4, 0, 0).unwrap(),
        make_item(0, 1, 0).unwrap(),
    ];
    let alpha = &alpha;
    let depth = x.tier(4, 6);
    x.bound("histories of sends over 7 messages (2 of them refused) on one Client, Writer, Sender and codec");
    x.section("send-histories", seq_count(alpha.len(), depth) * 8, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let entry = ix.take(4);
        let s = seq_of(alpha.len(), ix.0);
        c.note = format!("entry {} server={} sends {:?}", entry, server, s);
        let io = Mock::new(vec![], Tail::Eof);
        let mut client = None;
        let mut writer = None;
        let mut sender = Sender::new(!server);
        let mut mcodec = MessageCodec::<OwnedMessage>::default(ctx(server));
        let mut buf = BytesMut::new();
        match entry {
            0 => client = Some(sync_client(&io, server, None)?),
            1 => writer = Some(sync_client(&io, server, None)?.split().map_err(|e| e.to_string())?),
            _ => {}
        }
        let mut want = vec![];
        for k in &s {
            c.step();
            let (it, f) = &alpha[*k];
            let om: OwnedMessage = match it {
                Item::Owned(m) => m.clone(),
                Item::Msg(m) => m.clone().into(),
                _ => unreachable!(),
            };
            let r = match entry {
                0 => match it {
                    Item::Msg(m) => st(client.as_mut().unwrap().send_message(m)),
                    _ => st(client.as_mut().unwrap().send_message(&om)),
                },
                1 => match it {
                    Item::Msg(m) => st(writer.as_mut().unwrap().1.send_message(m)),
                    _ => st(writer.as_mut().unwrap().1.send_message(&om)),
                },
                2 => match it {
                    Item::Msg(m) => st(sender.send_message(&mut io.clone(), m)),
                    _ => st(sender.send_message(&mut io.clone(), &om)),
                },
                _ => st(mcodec.encode(om, &mut buf)),
            };
            let refuse = f.op >= 8 && f.payload.len() > 125;
            ensure!(r.is_ok() != refuse, "send {:?} gave {:?}", f.show(), r);
            if !refuse {
                want.push(f.clone());
            }
            let out = if entry == 3 { buf.to_vec() } else { io.out() };
            check_all(&out, &want, server)?;
            c.state(&(entry, server, want.iter().map(|f| f.op).collect::<Vec<_>>()));
        }
        c.trace(&(s.len(), want.len()));
        Ok(())
    });
    wide_c02(x);
}

/// print the keys of a few client frames (run as a child process)
pub fn probe_keys() -> i32 {
    let mut c = Case::default();
    for k in 0..8 {
        let (_, out) = emit(k % 5, false, &Item::Owned(OwnedMessage::Text("k".into())), &mut c).unwrap();
        println!("{}", hex(&out[2..6]));
    }
    0
}

pub fn c03(x: &Ctx) {
    // a. keys of every client entry point and frame class
    let classes: Vec<(u8, bool, usize)> = {
        let mut v = vec![];
        for op in [0u8, 1, 2, 8, 9, 10, 5] {
            for n in [0usize, 1, 2, 4, 125, 126, 300, 65535, 65536] {
                if op >= 8 && n > 125 {
                    continue;
                }
                v.push((op, true, n));
                if op < 8 {
                    v.push((op, false, n));
                }
            }
        }
        v
    };
    let classes = &classes;
    let sends = 64usize;
    x.bound("64 consecutive sends of every frame class (7 opcodes x FIN x 9 lengths) through each of 7 entry points in both roles; keys compared pairwise and per byte");
    x.section("role-and-keys", (classes.len() * ENTRIES * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(ENTRIES);
        let server = ix.take(2) == 1;
        let (op, fin, n) = *ix.pick(classes);
        if n > 60000 && (entry == 6 || entry == 3) {
            return Ok(());
        }
        let data = pat(n, 1);
        let want = fr(fin, op, &data);
        c.note = format!("{} server={} {}", ENTRY_NAMES[entry], server, want.show());
        let mut keys = vec![];
        for k in 0..sends {
            let it = if fin && (op == 1 || op == 2 || op == 9) && k % 2 == 0 {
                match op {
                    1 => Item::Owned(OwnedMessage::Text(String::from_utf8(data.clone()).unwrap())),
                    2 => Item::Msg(Message::binary(data.clone())),
                    _ => Item::Owned(OwnedMessage::Ping(data.clone())),
                }
            } else {
                Item::Df(DataFrame::new(fin, Opcode::new(op).unwrap(), data.clone()))
            };
            let (r, out) = emit(entry, server, &it, c)?;
            ensure!(r.is_ok(), "send failed {:?}", r);
            let k = check_all(&out, std::slice::from_ref(&want), server)?;
            keys.extend(k);
        }
        c.state(&(entry, server, op, fin, n));
        c.trace(&(keys.len() > 0));
        if !server {
            judge_keys(&keys)?;
        }
        Ok(())
    });
    // keys on one long-lived endpoint: client object, writer, framed, codec
    x.section("keys-of-one-connection", 4 * 3, |c, i| {
        let mut ix = Ix(i);
        let e = ix.take(4);
        let n = [0usize, 1, 200][ix.take(3)];
        let total = x.tier(256, 2000);
        let io = Mock::new(vec![], Tail::WouldBlock);
        let data = pat(n, 0);
        let m = OwnedMessage::Binary(data.clone());
        let want: Vec<Fr> = (0..total).map(|_| fr(true, 2, &data)).collect();
        c.note = format!("entry {} payload {} bytes x {}", e, n, total);
        let out;
        match e {
            0 => {
                let mut cl = sync_client(&io, false, None)?;
                for _ in 0..total {
                    cl.send_message(&m).map_err(|e| format!("{:?}", e))?;
                }
                out = io.out();
            }
            1 => {
                let (_r, mut w) = sync_client(&io, false, None)?.split().map_err(|e| e.to_string())?;
                for _ in 0..total {
                    w.send_message(&m).map_err(|e| format!("{:?}", e))?;
                }
                out = io.out();
            }
            2 => {
                let mut s = executor::spawn(async_client(&io, false, None)?);
                let nt = noop();
                for _ in 0..total {
                    match s.start_send_notify(m.clone(), &nt, 0) {
                        Ok(AsyncSink::Ready) => {}
                        _ => fail!("sink not ready"),
                    }
                }
                let _ = s.poll_flush_notify(&nt, 0);
                out = io.out();
            }
            _ => {
                let mut k = MessageCodec::<OwnedMessage>::default(ctx(false));
                let mut b = BytesMut::new();
                for _ in 0..total {
                    k.encode(m.clone(), &mut b).map_err(|e| format!("{:?}", e))?;
                }
                out = b.to_vec();
            }
        }
        c.steps(total);
        c.state(&(e, n));
        c.trace(&e);
        let keys = check_all(&out, &want, false)?;
        judge_keys(&keys)?;
        judge_unpredictable(&keys.iter().map(|k| k.to_vec()).collect::<Vec<_>>())
    });
    x.bound("2000 keys of one thread: linear complexity of every bit position and of all bits in a row");
    x.section("keys-linear", 2, |c, i| {
        let io = Mock::new(vec![], Tail::WouldBlock);
        let n = 2000;
        let want: Vec<Fr> = (0..n).map(|_| fr(true, 2, b"k")).collect();
        let m = OwnedMessage::Binary(b"k".to_vec());
        let out = if i == 0 {
            let mut cl = sync_client(&io, false, None)?;
            for _ in 0..n {
                cl.send_message(&m).map_err(|e| format!("{:?}", e))?;
            }
            io.out()
        } else {
            let mut k = MessageCodec::<OwnedMessage>::default(ctx(false));
            let mut b = BytesMut::new();
            for _ in 0..n {
                k.encode(m.clone(), &mut b).map_err(|e| format!("{:?}", e))?;
            }
            b.to_vec()
        };
        c.steps(n);
        c.state(&i);
        c.trace(&i);
        let keys = check_all(&out, &want, false)?;
        judge_unpredictable(&keys.iter().map(|k| k.to_vec()).collect::<Vec<_>>())
    });
    x.section_t("keys-of-other-processes", 3, 1, |c, _| {
        let run = || -> Result<Vec<String>, String> {
            let o = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("probe-keys")
                .output()
                .map_err(|e| format!("{}: {}", HARNESS, e))?;
            if !o.status.success() {
                return Err(format!("{}: probe-keys failed", HARNESS));
            }
            Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
        };
        let (a, b) = (run()?, run()?);
        c.steps(2);
        c.trace(&a.len());
        c.note = format!("first keys of two processes {:?} {:?}", a, b);
        let same = a.iter().filter(|k| b.contains(k)).count();
        ensure!(a.len() == 8 && b.len() == 8, "{}: probe output", HARNESS);
        ensure!(same <= 1, "two processes use the same masking keys");
        Ok(())
    });
    // b. the masking writer
    let kb = [0u8, 1, 0x80, 0xff, 0x5a];
    let maxn = x.tier(7usize, 9);
    let mut shapes: Vec<(usize, Vec<usize>)> = vec![];
    for n in 0..=maxn {
        for m in 0..1u64 << (n as u32).saturating_sub(1) {
            shapes.push((n, cuts_of_mask(m, n)));
        }
    }
    let shapes = &shapes;
    x.bound("masking writer: all 4-byte keys over {00,01,5a,80,ff} x every way to cut payloads of 0..=max bytes into writes x inner writers that take 1, 2, 3 or all bytes, or interrupt");
    x.section("masker", (625 * shapes.len() * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let inner = ix.take(6);
        let (n, cuts) = ix.pick(shapes).clone();
        let key = [kb[ix.take(5)], kb[ix.take(5)], kb[ix.take(5)], kb[ix.take(5)]];
        let data = patb(n, 0);
        c.note = format!("key {} data {} writes cut at {:?} inner {}", hex(&key), hex(&data), cuts, inner);
        let io = Mock::new(vec![], Tail::Eof);
        match inner {
            1 | 2 | 3 => io.st().max_write = inner,
            4 => io.st().wscript = (0..60).map(|k| if k % 2 == 0 { Err(ErrorKind::Interrupted) } else { Ok(1 + k % 3) }).collect(),
            5 => io.st().wscript = vec![Ok(1), Ok(3), Ok(2), Ok(1), Ok(1)].into(),
            _ => {}
        }
        let mut end = io.clone();
        {
            let mut m = Masker::new(key, &mut end);
            for p in split_at(&data, &cuts) {
                c.step();
                m.write_all(&p).map_err(|e| format!("masking writer failed: {}", e))?;
            }
            m.flush().map_err(|e| e.to_string())?;
        }
        let want: Vec<u8> = data.iter().enumerate().map(|(i, b)| b ^ key[i & 3]).collect();
        c.state(&(key, n, inner, &cuts));
        c.trace(&want);
        ensure!(io.out() == want, "masked bytes {} expected {}", hex(&io.out()), hex(&want));
        // write counts
        if inner == 1 && n > 0 {
            let mut end = Mock::new(vec![], Tail::Eof).max_write(1);
            let mut m = Masker::new(key, &mut end);
            let w = m.write(&data).map_err(|e| e.to_string())?;
            ensure!(w == 1, "write reported {} bytes, the inner writer took 1", w);
        }
        if cuts.is_empty() {
            ensure!(mask_data(key, &data) == want, "mask_data differs");
            ensure!(mask_data(key, &want) == data, "unmasking does not undo masking");
        }
        Ok(())
    });
    x.section("masker/would-block", (shapes.len() * 10) as u64, |c, i| {
        // a caller that retries the rest after an error sees consistent bytes
        let mut ix = Ix(i);
        let at = ix.take(10);
        let (n, cuts) = ix.pick(shapes).clone();
        let key = [0x37u8, 0xfa, 0x21, 0x3d];
        let data = patb(n, 0);
        c.note = format!("data {} cut at {:?} inner writer blocks at call {}", hex(&data), cuts, at);
        let io = Mock::new(vec![], Tail::Eof).max_write(2);
        io.st().wscript = (0..at).map(|_| Ok(1)).chain(std::iter::once(Err(ErrorKind::WouldBlock))).collect();
        let mut end = io.clone();
        let mut m = Masker::new(key, &mut end);
        for p in split_at(&data, &cuts) {
            let mut q = &p[..];
            while !q.is_empty() {
                c.step();
                match m.write(q) {
                    Ok(k) => q = &q[k..],
                    Err(e) => ensure!(e.kind() == ErrorKind::WouldBlock, "unexpected {}", e),
                }
            }
        }
        let want: Vec<u8> = data.iter().enumerate().map(|(i, b)| b ^ key[i & 3]).collect();
        c.state(&(at, n, &cuts));
        c.trace(&want);
        ensure!(io.out() == want, "masked bytes {} expected {}", hex(&io.out()), hex(&want));
        Ok(())
    });
    // c. wrongly masked frames are refused by every receiver in every state
    x.bound("wrongly masked frames: 16 opcodes x FIN x 8 reserved values x 6 lengths x 4 prior states x both roles x 3 keys, all receivers");
    let lens = [0usize, 1, 2, 125, 126, 65536];
    x.section("refusal", (16 * 2 * 8 * 6 * 4 * 2 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let key = ix.take(3);
        let state = ix.take(4);
        let fin = ix.take(2) == 1;
        let rsv = ix.take(8) as u8;
        let op = ix.take(16) as u8;
        let n = *ix.pick(&lens);
        if (op >= 8 && (n > 125 || !fin)) || (n > 1000 && (key > 0 || rsv > 0)) || (key > 0 && server) {
            return Ok(());
        }
        let mut pre = match state {
            0 => vec![],
            1 => vec![fr(true, 1, b"ok")],
            2 => vec![fr(false, 1, b"a")],
            _ => vec![fr(false, 2, b"a"), fr(true, 9, b"p"), fr(false, 0, b"b")],
        };
        for f in pre.iter_mut() {
            *f = f.clone().to(server, 0);
        }
        let mut bad = fr(fin, op, &pat(n, 0)).rsv(rsv);
        bad.mask = if server { None } else { Some(KEYS[key]) };
        let mut b = wire(&pre);
        let p = b.len();
        b.extend_from_slice(&bad.bytes());
        b.extend_from_slice(&fr(true, 1, b"after").to(server, 0).bytes());
        c.note = format!("server={} prior {} bad {}", server, show(&pre), bad.show());
        c.state(&(server, key, state, fin, rsv, op, n));
        let before: Vec<Obs> = match state {
            1 => vec![Obs::Msg(OwnedMessage::Text("ok".into()))],
            3 => vec![Obs::Msg(OwnedMessage::Ping(b"p".to_vec()))],
            _ => vec![],
        };
        let expect = |o: &[Obs], who: &str| -> Res {
            ensure!(
                o.len() == before.len() + 1 && o[..before.len()] == before[..] && matches!(o[before.len()], Obs::Err(_)),
                "{}: [{}]",
                who,
                show_obs(o)
            );
            Ok(())
        };
        let mut d = AsyncDec::new(server, DEF);
        d.feed(&b, c);
        expect(&d.obs, "message codec")?;
        expect(&bare_obs(Mock::with(&b, Tail::Eof), server, DEF, c), "Receiver")?;
        expect(&reader_obs(Mock::with(&b, Tail::Eof), server, DEF, c), "Reader")?;
        let io = Mock::with(&b, Tail::Eof);
        let mut cl = sync_client(&io, server, None)?;
        expect(&sync_obs(|| cl.recv_message(), c, 10), "Client")?;
        let io = Mock::with(&b, Tail::Eof);
        let f = async_client(&io, server, None)?;
        expect(&poll_stream(&mut executor::spawn(f), 1, c), "async client")?;
        // frame level
        let mut d = FrameDec::new(server);
        d.feed(&b[p..], c);
        ensure!(d.err.is_some() && d.out.is_empty(), "frame codec delivered a wrongly masked frame");
        ensure!(DataFrame::read_dataframe(&mut &b[p..], server).is_err(), "read_dataframe delivered a wrongly masked frame");
        ensure!(
            DataFrame::read_dataframe_with_limit(&mut &b[p..], server, 1 << 20).is_err(),
            "read_dataframe_with_limit delivered a wrongly masked frame"
        );
        let io = Mock::with(&b[p..], Tail::Eof);
        let mut cl = sync_client(&io, server, None)?;
        ensure!(cl.recv_dataframe().is_err(), "Client::recv_dataframe delivered a wrongly masked frame");
        let io = Mock::with(&b[p..], Tail::Eof);
        let mut cl = sync_client(&io, server, None)?;
        ensure!(cl.incoming_dataframes().next().map_or(false, |r| r.is_err()), "incoming_dataframes delivered it");
        c.trace(&(op, before.len()));
        Ok(())
    });
    wide_c03(x);
}
fn judge_keys(keys: &[[u8; 4]]) -> Res {
    let n = keys.len();
    let d: HashSet<_> = keys.iter().collect();
    // chance of two equal pairs among n fresh keys: below 1e-6 for n <= 2000
    ensure!(d.len() + 1 >= n || n > 2000, "{} frames but only {} distinct masking keys", n, d.len());
    for j in 0..4 {
        let v: HashSet<u8> = keys.iter().map(|k| k[j]).collect();
        ensure!(v.len() >= 20 || n < 64, "byte {} of the masking key takes only {} values in {} frames", j, v.len(), n);
    }
    // no fixed difference between consecutive keys
    let diffs: HashSet<u32> = keys.windows(2).map(|w| u32::from_be_bytes(w[1]).wrapping_sub(u32::from_be_bytes(w[0]))).collect();
    ensure!(diffs.len() + 2 >= n.saturating_sub(1) || n > 2000, "consecutive masking keys are in a fixed progression");
    let xors: HashSet<u32> = keys.windows(2).map(|w| u32::from_be_bytes(w[1]) ^ u32::from_be_bytes(w[0])).collect();
    ensure!(xors.len() + 2 >= n.saturating_sub(1) || n > 2000, "consecutive masking keys are in a fixed progression");
    Ok(())
}

// ---------------------------------------------------------------- C16
fn ends(frames: &[Fr]) -> Vec<usize> {
    let mut p = 0;
    frames
        .iter()
        .map(|f| {
            p += f.bytes().len();
            p
        })
        .collect()
}
fn families(server: bool) -> Vec<(Vec<Fr>, Vec<OwnedMessage>)> {
    let t = |s: &str| OwnedMessage::Text(s.into());
    let mut v = vec![
        (vec![fr(true, 1, b"hi"), fr(true, 2, b"\x00\xff"), fr(true, 1, b"")], vec![t("hi"), OwnedMessage::Binary(vec![0, 255]), t("")]),
        (
            vec![fr(false, 1, b"ab"), fr(true, 9, b"p"), fr(false, 0, b"c"), fr(true, 0, b"d"), fr(true, 1, b"e")],
            vec![OwnedMessage::Ping(b"p".to_vec()), t("abcd"), t("e")],
        ),
        (
            vec![fr(false, 2, b""), fr(false, 0, b"x"), fr(true, 10, b""), fr(true, 0, b""), fr(true, 8, &[3, 232, b'b'])],
            vec![
                OwnedMessage::Pong(vec![]),
                OwnedMessage::Binary(b"x".to_vec()),
                OwnedMessage::Close(Some(CloseData::new(1000, "b".into()))),
            ],
        ),
        (
            vec![fr(true, 2, &pat(126, 0)), fr(true, 1, b"z")],
            vec![OwnedMessage::Binary(pat(126, 0)), t("z")],
        ),
    ];
    for x in v.iter_mut() {
        for (k, f) in x.0.iter_mut().enumerate() {
            *f = f.clone().to(server, k);
        }
    }
    v
}
/// read with faults: repeated calls, every fault reported by the call it hits
fn faulty_reads(
    io: &Mock,
    mut next: impl FnMut() -> Result<OwnedMessage, WebSocketError>,
    want: &[OwnedMessage],
    ready_at: &[usize],
    c: &mut Case,
) -> Res {
    let mut got = vec![];
    let mut calls = 0;
    loop {
        calls += 1;
        ensure!(calls < 5000, "reading does not make progress");
        c.step();
        let (b0, f0) = {
            let s = io.st();
            (s.r_blocked, s.failed)
        };
        let r = next();
        let (b1, f1, used) = {
            let s = io.st();
            (s.r_blocked, s.failed, s.consumed)
        };
        match r {
            Ok(m) => {
                ensure!(b1 == b0 && f1 == f0, "a call that met a fault returned {}", show_msg(&m));
                got.push(m);
                let k = got.len();
                ensure!(k <= want.len() && got[k - 1] == want[k - 1], "message {} is {}", k - 1, show_msg(&got[k - 1]));
                ensure!(used >= ready_at[k - 1], "message {} was delivered before it was completely received", k - 1);
            }
            Err(WebSocketError::IoError(ref e)) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => {
                ensure!(b1 > b0, "a call reported would-block although the transport did not");
            }
            Err(WebSocketError::NoDataAvailable) => {
                ensure!(f1 == f0, "a hard error was reported as lack of data");
                ensure!(b1 == b0, "a would-block was reported as lack of data");
                ensure!(io.st().ended, "lack of data reported before the end");
                ensure!(got.len() == want.len(), "{} of {} messages delivered", got.len(), want.len());
                break;
            }
            Err(e) => {
                ensure!(f1 && !f0, "unexpected error {:?} after {} messages", e, got.len());
                ensure!(matches!(e, WebSocketError::IoError(_)), "a transport error was reported as {:?}", e);
                break;
            }
        }
        if f1 != f0 {
            fail!("a hard error was not reported by the call it hit");
        }
    }
    c.trace(&(got.len(), calls));
    Ok(())
}

pub fn c16(x: &Ctx) {
    let fam: Vec<Vec<(Vec<Fr>, Vec<OwnedMessage>)>> = vec![families(false), families(true)];
    let fam = &fam;
    let bound = x.tier(2, 3);
    x.bound("reads: 4 streams x both roles x 4 drivers, all fault tapes with at most 2 (thorough 3) departures (short, interrupted, would-block at a frame boundary, hard error)");
    x.section("read-tapes", 4 * 2 * 4 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let drv = ix.take(4);
        let chunk = [usize::MAX, 1][ix.take(2)];
        let (frames, want) = &fam[server as usize][ix.take(4)];
        let bytes = wire(frames);
        let marks = ends(frames);
        let ready = ready_points(frames, &marks);
        c.note = format!("server={} driver {} max read {} frames {}", server, drv, chunk, show(frames));
        let note = c.note.clone();
        let heavy = chunk == 1 && bytes.len() > 60;
        let b = if heavy { 1 } else { bound };
        explore(b, 3_000_000, c, |tape, c| {
            let io = Mock::with(&bytes, Tail::Eof).max_read(chunk);
            let menu = Menu { r_short: true, r_intr: true, r_block: true, r_err: true, block_at_marks: true, ..Default::default() };
            let mut m = marks.clone();
            m.push(0);
            io.st().marks = m;
            io.st().max_block_run = 2;
            c.state(&(drv, server, hash_of(&bytes), chunk));
            match drv {
                0 => {
                    io.st().tape = Some((tape, menu));
                    let mut rd = reader(io.clone(), server, DEF);
                    faulty_reads(&io, || rd.recv_message(), want, &ready, c)
                }
                1 => {
                    io.st().tape = Some((tape, menu));
                    use websocket::receiver::Receiver;
                    use websocket::ws::Receiver as RT;
                    let mut rc = Receiver::new(server);
                    let mut s = io.clone();
                    faulty_reads(&io, || rc.recv_message(&mut s), want, &ready, c)
                }
                2 => {
                    let quiet = Mock::new(vec![], Tail::Eof);
                    let _ = quiet;
                    let mut cl = client_over(&io, &bytes, server)?;
                    io.st().tape = Some((tape, menu));
                    faulty_reads(&io, || cl.recv_message(), want, &ready, c)
                }
                _ => {
                    let cl = client_over(&io, &bytes, server)?;
                    let (mut r, _w) = cl.split().map_err(|e| e.to_string())?;
                    io.st().tape = Some((tape, menu));
                    faulty_reads(&io, || r.incoming_messages().next().unwrap_or(Err(WebSocketError::NoDataAvailable)), want, &ready, c)
                }
            }
        })
        .map(|runs| {
            c.note = format!("{} ({} tapes)", note, runs);
        })
    });
    x.bound("all assignments of {nothing, would-block, timeout, interrupted} to every frame boundary of 4 streams x 4 drivers");
    let kinds = [None, Some(ErrorKind::WouldBlock), Some(ErrorKind::TimedOut), Some(ErrorKind::Interrupted)];
    x.section("boundary-faults", 4 * 2 * 4 * 4096, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let drv = ix.take(4);
        let (frames, want) = &fam[server as usize][ix.take(4)];
        let nb = frames.len() + 1;
        if ix.0 >= 4u64.pow(nb as u32) {
            return Ok(());
        }
        let faults: Vec<Option<ErrorKind>> = (0..nb).map(|_| *ix.pick(&kinds)).collect();
        c.note = format!("server={} driver {} faults {:?} frames {}", server, drv, faults, show(frames));
        let mut segs = vec![];
        for (k, f) in frames.iter().enumerate() {
            if let Some(e) = faults[k] {
                segs.push(Seg::Fail(e));
            }
            segs.push(Seg::Data(f.bytes()));
        }
        if let Some(e) = faults[nb - 1] {
            segs.push(Seg::Fail(e));
        }
        let io = Mock::new(vec![], Tail::Eof);
        let nfaults = faults.iter().filter(|f| f.map_or(false, |k| k != ErrorKind::Interrupted)).count();
        let mut seen = 0;
        let mut got = vec![];
        let mut cl = None;
        let mut rd = None;
        let mut rc = websocket::receiver::Receiver::new(server);
        let mut raw = io.clone();
        match drv {
            0 => rd = Some(reader(io.clone(), server, DEF)),
            1 => {}
            2 => cl = Some(client_over(&io, b"", server)?),
            _ => rd = Some(client_over(&io, b"", server)?.split().map_err(|e| e.to_string())?.0),
        }
        io.st().input = segs.into();
        for _ in 0..64 {
            c.step();
            let r = match drv {
                1 => {
                    use websocket::ws::Receiver as RT;
                    rc.recv_message(&mut raw)
                }
                2 => cl.as_mut().unwrap().recv_message(),
                _ => rd.as_mut().unwrap().recv_message(),
            };
            match r {
                Ok(m) => got.push(m),
                Err(WebSocketError::IoError(ref e)) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => seen += 1,
                Err(WebSocketError::NoDataAvailable) => break,
                Err(e) => fail!("unexpected error {:?} after {} messages", e, got.len()),
            }
        }
        c.state(&(server, drv, i));
        c.trace(&(got.len(), seen));
        ensure!(&got == want, "delivered {:?}", got.iter().map(show_msg).collect::<Vec<_>>());
        ensure!(seen == nfaults, "{} faults met, {} reported", nfaults, seen);
        Ok(())
    });
    // frame level reads
    x.section("frame-read-tapes", 4 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let bare = ix.take(2) == 1;
        let (frames, _) = &fam[server as usize][ix.take(4)];
        let bytes = wire(frames);
        let marks = ends(frames);
        c.note = format!("server={} unbuffered={} frames {}", server, bare, show(frames));
        explore(bound, 3_000_000, c, |tape, c| {
            let io = Mock::with(&bytes, Tail::Eof);
            let mut m = marks.clone();
            m.push(0);
            io.st().marks = m;
            io.st().tape =
                Some((tape, Menu { r_short: true, r_intr: true, r_block: true, r_err: true, block_at_marks: true, ..Default::default() }));
            let mut rd = reader(io.clone(), server, DEF);
            let mut rc = websocket::receiver::Receiver::new(server);
            let mut raw = io.clone();
            let mut k = 0;
            let mut calls = 0;
            loop {
                c.step();
                calls += 1;
                ensure!(calls < 1000, "no progress");
                let f0 = io.st().failed;
                let b0 = io.st().r_blocked;
                let r = if bare {
                    use websocket::ws::Receiver as RT;
                    rc.recv_dataframe(&mut raw)
                } else {
                    rd.recv_dataframe()
                };
                let (f1, b1) = (io.failed(), io.rb());
                match r {
                    Ok(d) => {
                        ensure!(f0 == f1 && b0 == b1, "a fault was hidden");
                        ensure!(
                            k < frames.len() && d.data == frames[k].payload && d.opcode as u8 == frames[k].op && d.finished == frames[k].fin,
                            "frame {} differs",
                            k
                        );
                        k += 1;
                    }
                    Err(WebSocketError::IoError(ref e)) if e.kind() == ErrorKind::WouldBlock => ensure!(b1 > b0, "spurious would-block"),
                    Err(WebSocketError::NoDataAvailable) => {
                        ensure!(k == frames.len() && !f1, "lack of data after {} frames", k);
                        break;
                    }
                    Err(WebSocketError::IoError(_)) if f1 && !f0 => break,
                    Err(e) => fail!("unexpected {:?}", e),
                }
            }
            c.state(&(server, bare, hash_of(&bytes)));
            c.trace(&(k, calls));
            Ok(())
        })
        .map(|_| ())
    });
    // writes
    x.bound("writes: histories of up to 3 sends x both roles x 4 senders, all tapes with at most 2 (3) departures (short write of 1 or half, interrupted, would-block, hard error)");
    let items: Vec<Fr> = vec![fr(true, 1, b"hello"), fr(true, 2, &pat(130, 1)), fr(true, 9, b""), fr(true, 8, &[3, 232])];
    let items = &items;
    let nseq = seq_count(items.len(), 3);
    x.section("write-tapes", nseq * 2 * 4 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let drv = ix.take(4);
        let chunk = [usize::MAX, 2][ix.take(2)];
        let s = seq_of(items.len(), ix.0);
        if s.is_empty() {
            return Ok(());
        }
        c.note = format!("server={} sender {} max write {} sends {:?}", server, drv, chunk, s);
        let note = c.note.clone();
        let b = if chunk == 2 { bound.min(2) - (s.len() > 2 || s.contains(&1)) as usize } else { bound };
        explore(b, 3_000_000, c, |tape, c| {
            let io = Mock::new(vec![], Tail::Eof);
            let mut cl = None;
            let mut w = None;
            let mut sender = Sender::new(!server);
            match drv {
                0 => cl = Some(sync_client(&io, server, None)?),
                1 => w = Some(sync_client(&io, server, None)?.split().map_err(|e| e.to_string())?),
                _ => {}
            }
            {
                let mut st = io.st();
                st.max_write = chunk;
                st.max_block_run = 2;
                st.tape = Some((tape, Menu { w_short: true, w_intr: true, w_block: true, w_err: true, ..Default::default() }));
            }
            let mut sent: Vec<Fr> = vec![];
            let mut k = 0;
            let mut calls = 0;
            while k < s.len() {
                calls += 1;
                ensure!(calls < 100, "no progress");
                c.step();
                let f = &items[s[k]];
                let before = io.st().output.len();
                let (b0, e0) = (io.wb(), io.failed());
                let d = DataFrame::new(true, Opcode::new(f.op).unwrap(), f.payload.clone());
                let m: OwnedMessage = websocket::ws::Message::from_dataframes(vec![d.clone()]).map_err(|e| format!("{:?}", e))?;
                let r = match drv {
                    0 => cl.as_mut().unwrap().send_message(&m),
                    1 => w.as_mut().unwrap().1.send_message(&m),
                    2 => sender.send_dataframe(&mut io.clone(), &d),
                    _ => Message::from(m).serialize(&mut io.clone(), !server),
                };
                let (after, b1, e1) = {
                    let st = io.st();
                    (st.output.len(), st.w_blocked, st.failed)
                };
                match r {
                    Ok(()) => {
                        ensure!(b1 == b0 && e1 == e0, "a send that met a fault reported success");
                        sent.push(f.clone());
                        check_all(&io.out(), &sent, server)?;
                        k += 1;
                    }
                    Err(WebSocketError::IoError(ref e)) => {
                        ensure!(b1 > b0 || e1 != e0, "a send failed with {} although the transport did not", e);
                        let mut plus = sent.clone();
                        plus.push(f.clone());
                        check_out(&io.out(), &plus, server)?;
                        if e1 {
                            ensure!(e.kind() == ErrorKind::BrokenPipe, "hard error reported as {}", e);
                            break;
                        }
                        ensure!(e.kind() == ErrorKind::WouldBlock, "would-block reported as {}", e);
                        if after > before {
                            break; // inside a frame: only the prefix property is required
                        }
                        // between frames: calling again must continue as if nothing had happened
                    }
                    Err(e) => fail!("a transport fault was reported as {:?}", e),
                }
            }
            c.state(&(server, drv, chunk, &s));
            c.trace(&(k, calls));
            Ok(())
        })
        .map(|runs| c.note = format!("{} ({} tapes)", note, runs))
    });
    x.section("write-zero", 2 * 8, |c, i| {
        // a transport that takes no more bytes is an error, never success
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let at = ix.take(8);
        let io = Mock::new(vec![], Tail::Eof);
        let mut cl = sync_client(&io, server, None)?;
        io.st().wscript = (0..at).map(|_| Ok(1)).chain((0..50).map(|_| Ok(0))).collect();
        c.step();
        let f = fr(true, 1, b"hello world");
        let r = cl.send_message(&OwnedMessage::Text("hello world".into()));
        c.note = format!("server={} takes {} bytes, then none", server, at);
        c.state(&(server, at));
        c.trace(&r.is_ok());
        ensure!(r.is_err(), "sending into a full stream reported success");
        check_out(&io.out(), &[f], server).map(|_| ())
    });
    handshakes_c16(x);
    wide_c16(x);
}
/// offsets at which message k is completely received
fn ready_points(frames: &[Fr], ends: &[usize]) -> Vec<usize> {
    frames.iter().zip(ends).filter(|(f, _)| f.fin).map(|(_, e)| *e).collect()
}
/// handshaken blocking endpoint, afterwards reading `bytes`
fn client_over(io: &Mock, bytes: &[u8], server: bool) -> Result<websocket::client::sync::Client<Mock>, String> {
    io.st().input.clear();
    let chunk = std::mem::replace(&mut io.st().max_read, usize::MAX);
    let cl = sync_client(io, server, None)?;
    let mut s = io.st();
    s.max_read = chunk;
    s.consumed = 0;
    s.input.clear();
    if !bytes.is_empty() {
        s.input.push_back(Seg::Data(bytes.to_vec()));
    }
    drop(s);
    Ok(cl)
}

// ---------------------------------------------------------------- C21
#[derive(Clone)]
enum Rep {
    Owned(OwnedMessage),
    Msg(Message<'static>),
    Frames(Vec<DataFrame>),
}
fn value_checks(r: &Rep, op: u8, payload: &[u8], c: &mut Case) -> Res {
    c.step();
    fn common<D: DfTrait + Clone>(d: &D, op: u8, payload: &[u8]) -> Res {
        ensure!(d.is_last() && d.opcode() == op && d.reserved() == &[false; 3], "type changed: opcode {}", d.opcode());
        ensure!(d.size() == payload.len(), "size {} but payload {}", d.size(), payload.len());
        let mut v = vec![];
        d.write_payload(&mut v).map_err(|e| format!("{:?}", e))?;
        ensure!(v == payload, "write_payload {} expected {}", hex(&v), hex(payload));
        ensure!(d.clone().take_payload() == payload, "take_payload differs");
        let f = fr(true, op, payload);
        let too_long = op >= 8 && payload.len() > 125;
        for masked in [false, true] {
            let mut v = vec![];
            let r = d.write_to(&mut v, masked);
            ensure!(r.is_ok() != too_long, "write_to gave {:?}", r.is_ok());
            if !too_long {
                check_all(&v, std::slice::from_ref(&f), !masked)?;
                ensure!(d.frame_size(masked) == v.len(), "frame_size {} for {} bytes", d.frame_size(masked), v.len());
            }
        }
        Ok(())
    }
    fn message<M: MsgTrait>(m: &M, op: u8, payload: &[u8]) -> Res {
        let f = fr(true, op, payload);
        if op >= 8 && payload.len() > 125 {
            return Ok(());
        }
        for masked in [false, true] {
            let mut v = vec![];
            m.serialize(&mut v, masked).map_err(|e| format!("{:?}", e))?;
            check_all(&v, std::slice::from_ref(&f), !masked)?;
            ensure!(m.message_size(masked) == v.len(), "message_size {} for {} bytes", m.message_size(masked), v.len());
        }
        Ok(())
    }
    match r {
        Rep::Owned(m) => {
            common(m, op, payload)?;
            message(m, op, payload)?;
            ensure!(payload_of(m) == (op, payload.to_vec()), "value changed to {}", show_msg(m));
            let p = (m.is_close(), m.is_control(), m.is_data(), m.is_ping(), m.is_pong());
            ensure!(p == (op == 8, op >= 8, op < 8, op == 9, op == 10), "predicates {:?} for opcode {}", p, op);
        }
        Rep::Msg(m) => {
            common(m, op, payload)?;
            message(m, op, payload)?;
            ensure!(m.opcode as u8 == op, "type is {:?}", m.opcode);
            if op == 8 {
                ensure!(m.cd_status_code.is_some() == !payload.is_empty(), "close code presence");
                if let Some(k) = m.cd_status_code {
                    ensure!(k.to_be_bytes() == payload[..2] && m.payload[..] == payload[2..], "close data changed");
                }
            } else {
                ensure!(m.cd_status_code.is_none() && m.payload[..] == payload[..], "payload changed");
            }
            // the same value over borrowed bytes
            let mut b = Message { opcode: m.opcode, cd_status_code: m.cd_status_code, payload: Cow::Borrowed(&m.payload[..]) };
            ensure!(b == *m, "differs when borrowed");
            common(&b, op, payload).map_err(|e| format!("borrowed: {}", e))?;
            message(&b, op, payload).map_err(|e| format!("borrowed: {}", e))?;
            let o = OwnedMessage::from(b.clone());
            ensure!(payload_of(&o) == (op, payload.to_vec()), "borrowed, it becomes {}", show_msg(&o));
            let keep = b.clone();
            let r = b.into_pong();
            ensure!(r.is_ok() == (op == 9), "into_pong on borrowed opcode {} gave {:?}", op, r);
            if op == 9 {
                ensure!(b == Message::pong(payload), "pong {:?} of the borrowed ping {:?}", b, keep);
            } else {
                ensure!(b == keep, "a failed into_pong changed the borrowed message");
            }
        }
        Rep::Frames(v) => {
            if v.len() == 1 {
                common(&v[0], op, payload)?;
            }
            let all: Vec<u8> = v.iter().flat_map(|d| d.data.clone()).collect();
            ensure!(all == payload && v[0].opcode as u8 == op, "frames changed");
        }
    }
    Ok(())
}
const CONV: usize = 6;
fn convert(r: &Rep, k: usize, c: &mut Case) -> Result<Option<Rep>, String> {
    c.step();
    let e = |e: WebSocketError| format!("conversion failed: {:?}", e);
    Ok(Some(match (r, k) {
        (Rep::Owned(m), 0) => Rep::Msg(Message::from(m.clone())),
        (Rep::Msg(m), 0) => Rep::Owned(OwnedMessage::from(m.clone())),
        (Rep::Frames(v), 0) => Rep::Owned(MsgTrait::from_dataframes(v.clone()).map_err(e)?),
        (Rep::Frames(v), 1) => Rep::Msg(MsgTrait::from_dataframes(v.clone()).map_err(e)?),
        // one frame from type and payload
        (Rep::Owned(m), 1) => Rep::Frames(vec![DataFrame::new(true, Opcode::new(m.opcode()).unwrap(), m.clone().take_payload())]),
        (Rep::Msg(m), 1) => {
            Rep::Frames(vec![DataFrame::new(true, Opcode::new(DfTrait::opcode(m)).unwrap(), m.clone().take_payload())])
        }
        // several fragments
        (Rep::Frames(v), 2) if v.len() == 1 && (v[0].opcode as u8) < 8 => {
            let d = &v[0].data;
            let a = d.len() / 3;
            let b = d.len() / 2;
            let mut parts = vec![DataFrame::new(false, v[0].opcode, d[..a].to_vec())];
            parts.push(DataFrame::new(false, Opcode::Continuation, d[a..b].to_vec()));
            parts.push(DataFrame::new(true, Opcode::Continuation, d[b..].to_vec()));
            Rep::Frames(parts)
        }
        // through the wire
        (Rep::Owned(m), 2) => {
            let mut b = vec![];
            if m.serialize(&mut b, true).is_err() {
                return Ok(None);
            }
            let mut d = AsyncDec::new(true, DEF);
            d.feed(&b, c);
            match d.obs.pop() {
                Some(Obs::Msg(m)) => Rep::Owned(m),
                o => fail!("own wire form decodes to {:?}", o.map(|o| o.show())),
            }
        }
        (Rep::Msg(m), 2) => {
            let mut b = vec![];
            if m.serialize(&mut b, false).is_err() {
                return Ok(None);
            }
            Rep::Frames(vec![DataFrame::read_dataframe(&mut &b[..], false).map_err(e)?])
        }
        // a message (which is also a frame) through from_dataframes
        (Rep::Owned(m), 3) => Rep::Msg(MsgTrait::from_dataframes(vec![m.clone()]).map_err(e)?),
        (Rep::Msg(m), 3) => Rep::Owned(MsgTrait::from_dataframes(vec![m.clone()]).map_err(e)?),
        (Rep::Frames(v), 3) => Rep::Frames(v.clone()),
        // raw parts
        (Rep::Owned(m), 4) => match m.clone() {
            OwnedMessage::Text(s) => Rep::Owned(OwnedMessage::from(s)),
            OwnedMessage::Binary(s) => Rep::Owned(OwnedMessage::from(s)),
            OwnedMessage::Close(Some(cd)) => {
                let b = cd.into_bytes().map_err(|e| e.to_string())?;
                Rep::Frames(vec![DataFrame::new(true, Opcode::Close, b)])
            }
            _ => return Ok(None),
        },
        (Rep::Msg(m), 4) => Rep::Msg(match m.opcode {
            Type::Text => Message::text(std::borrow::Cow::Owned(String::from_utf8(m.payload.to_vec()).map_err(|e| e.to_string())?)),
            Type::Binary => Message::binary(m.payload.clone()),
            Type::Ping => Message::ping(m.payload.to_vec()),
            Type::Pong => Message::pong(m.payload.clone()),
            Type::Close => match m.cd_status_code {
                Some(k) => Message::close_because(k, String::from_utf8(m.payload.to_vec()).map_err(|e| e.to_string())?),
                None => Message::close(),
            },
        }),
        (Rep::Msg(m), 5) => {
            // failing into_pong changes nothing; succeeding is checked apart
            let mut n = m.clone();
            if m.opcode == Type::Ping {
                return Ok(None);
            }
            ensure!(n.into_pong().is_err(), "into_pong succeeded on {:?}", m.opcode);
            ensure!(n == *m, "a failed into_pong changed the message");
            Rep::Msg(n)
        }
        _ => return Ok(None),
    }))
}
pub fn c21(x: &Ctx) {
    let texts: Vec<String> = {
        let mut v: Vec<String> = vec!["", "a", "hello", "\u{0}", "\u{7f}\u{80}", "\u{7ff}\u{800}", "\u{ffff}\u{10000}\u{10ffff}", "é", "日本語", "\u{fffd}\u{feff}"]
            .into_iter()
            .map(|s| s.to_string())
            .collect();
        for n in [122usize, 123, 124, 125, 126, 127, 128, 65535, 65536] {
            v.push(String::from_utf8(pat(n, 0)).unwrap());
            if n < 1000 {
                v.push("é".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" });
            }
        }
        v
    };
    let bins: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255], vec![0xc3], vec![0xc3, 0x28], vec![0, 159, 146, 150], b"text".to_vec()];
        for n in [2usize, 3, 123, 124, 125, 126, 127, 256, 65535, 65536] {
            v.push(patb(n, 0));
        }
        v
    };
    let codes: Vec<u16> = vec![0, 1, 255, 256, 999, 1000, 1001, 1005, 1006, 1015, 2999, 3000, 4999, 5000, 0x7fff, 0x8000, 0xff00, 0xffff];
    let mut vals: Vec<OwnedMessage> = vec![OwnedMessage::Close(None)];
    vals.extend(texts.iter().map(|t| OwnedMessage::Text(t.clone())));
    for b in &bins {
        vals.push(OwnedMessage::Binary(b.clone()));
        vals.push(OwnedMessage::Ping(b.clone()));
        vals.push(OwnedMessage::Pong(b.clone()));
    }
    for k in &codes {
        for t in texts.iter().filter(|t| t.len() < 200) {
            vals.push(OwnedMessage::Close(Some(CloseData::new(*k, t.clone()))));
        }
    }
    let vals = &vals;
    let depth = x.tier(4, 6);
    x.bound(&format!("{} message values x every chain of up to {} conversions (6 kinds)", vals.len(), depth));
    x.section("conversion-chains", vals.len() as u64, |c, i| {
        let m = &vals[i as usize];
        let (op, payload) = payload_of(m);
        let depth = if payload.len() > 1000 { depth.min(3) } else { depth };
        c.note = format!("value {}", show_msg(m));
        // depth-first over conversions of the real values
        fn go(r: &Rep, path: &mut Vec<usize>, depth: usize, op: u8, payload: &[u8], c: &mut Case) -> Res {
            value_checks(r, op, payload, c).map_err(|e| format!("after conversions {:?}: {}", path, e))?;
            c.state(&(op, hash_of(payload), &*path));
            if path.len() == depth {
                c.trace(&(op, payload.len()));
                return Ok(());
            }
            for k in 0..CONV {
                path.push(k);
                if let Some(n) = convert(r, k, c).map_err(|e| format!("conversions {:?}: {}", path, e))? {
                    go(&n, path, depth, op, payload, c)?;
                }
                path.pop();
            }
            Ok(())
        }
        go(&Rep::Owned(m.clone()), &mut vec![], depth, op, &payload, c)
    });
    x.section("into-pong", vals.len() as u64, |c, i| {
        let m = &vals[i as usize];
        c.note = format!("value {}", show_msg(m));
        c.step();
        let mut b: Message<'static> = Message::from(m.clone());
        let orig = b.clone();
        let r = b.into_pong();
        let (op, p) = payload_of(m);
        c.state(&(op, hash_of(&p)));
        c.trace(&(op, r.is_ok()));
        ensure!(r.is_ok() == (op == 9), "into_pong on opcode {} gave {:?}", op, r);
        if op == 9 {
            ensure!(b.opcode == Type::Pong && b.payload == orig.payload && b.cd_status_code.is_none(), "pong differs from the ping");
            ensure!(OwnedMessage::from(b) == OwnedMessage::Pong(p), "owned pong differs");
        } else {
            ensure!(b == orig, "a failed into_pong changed the message");
        }
        Ok(())
    });
    // the 16 opcodes as frame values
    x.section("opcodes", 256 + 16, |c, i| {
        c.step();
        if i < 256 {
            let o = Opcode::new(i as u8);
            ensure!(o.is_some() == (i < 16), "Opcode::new({}) = {:?}", i, o);
            if let Some(o) = o {
                ensure!(o as u8 == i as u8, "opcode {} became {}", i, o as u8);
            }
            c.state(&i);
            c.trace(&i);
            return Ok(());
        }
        let op = (i - 256) as u8;
        for p in [&b""[..], b"x", b"\x03\xe8", b"\x03\xe8hi"] {
            let d = DataFrame::new(true, Opcode::new(op).unwrap(), p.to_vec());
            let r: WebSocketResult<OwnedMessage> = MsgTrait::from_dataframes(vec![d]);
            let known = matches!(op, 2 | 9 | 10) || (op == 1 && std::str::from_utf8(p).is_ok()) || (op == 8 && p.len() != 1);
            ensure!(r.is_ok() == known, "opcode {} payload {}: {:?}", op, hex(p), r.is_ok());
            if let Ok(m) = r {
                ensure!(payload_of(&m) == (op, p.to_vec()), "opcode {} became {}", op, show_msg(&m));
            }
            c.trace(&(op, p.len()));
        }
        Ok(())
    });
    wide_c21(x);
}

// ---------------------------------------------------------------- C22
trait Duplex: futures::Stream<Item = OwnedMessage, Error = WebSocketError> + futures::Sink<SinkItem = OwnedMessage, SinkError = WebSocketError> {}
impl<T: futures::Stream<Item = OwnedMessage, Error = WebSocketError> + futures::Sink<SinkItem = OwnedMessage, SinkError = WebSocketError>> Duplex for T {}
pub fn c22(x: &Ctx) {
    // ops: 0 send small, 1 send large (beyond the back-pressure boundary), 2 send refused, 3 flush, 4 receive
    let sm = fr(true, 1, b"small");
    let lg = fr(true, 2, &patb(9000, 4));
    let fr_of = |k: usize| -> Fr {
        if k == 0 {
            sm.clone()
        } else {
            lg.clone()
        }
    };
    let depth = x.tier(4, 5);
    let bound = 2;
    x.bound("sinks: all sequences of up to 4 (5) of {send small, send 9000 bytes, send refused, flush, receive}, both roles, all tapes with at most 2 departures (short write, write/flush/read not ready, write error), then drain");
    x.bound("the same sinks (1 departure) over a transport, or the writing half of a pair, which keeps what it is given until it is flushed");
    x.section("sink-tapes", seq_count(5, depth) * 2 * 2 * 4, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let chunk = [usize::MAX, 700][ix.take(2)];
        let (hold, pair) = (ix.take(2) == 1, ix.take(2) == 1);
        let ops = seq_of(5, ix.0);
        if !ops.iter().any(|o| *o < 2) {
            return Ok(());
        }
        let large = ops.contains(&1);
        if chunk == 700 && !large {
            return Ok(());
        }
        c.note = format!("server={} max write {} keeps until flushed {} pair {} ops {:?}", server, chunk, hold, pair, ops);
        if pair && !hold && ops.len() > 3 && !x.thorough {
            return Ok(());
        }
        let b = if chunk == 700 || hold || pair || (ops.len() > 3 && !x.thorough) { 1 } else { bound };
        let note = c.note.clone();
        explore(b, 2_000_000, c, |tape, c| {
            let input = vec![fr(false, 1, b"x").to(server, 0), fr(true, 9, b"pp").to(server, 1), fr(true, 0, b"y").to(server, 2)];
            let want_in = vec![OwnedMessage::Ping(b"pp".to_vec()), OwnedMessage::Text("xy".into())];
            let io = Mock::new(vec![], Tail::WouldBlock);
            let f: Box<dyn Duplex> = if pair {
                Box::new(tokio_codec::Decoder::framed(MessageCodec::default(ctx(server)), websocket::stream::ReadWritePair(io.clone(), io.clone())))
            } else {
                Box::new(async_client(&io, server, None)?)
            };
            {
                let mut s = io.st();
                s.consumed = 0;
                if hold {
                    s.hold = Some(usize::MAX);
                }
                for f in &input {
                    s.input.push_back(Seg::Data(f.bytes()));
                }
                s.max_write = chunk;
                s.tape = Some((
                    tape,
                    Menu { w_short: true, w_block: true, w_err: true, f_block: true, r_block: true, r_short: true, ..Default::default() },
                ));
            }
            let mut s = executor::spawn(f);
            let n = noop();
            let mut accepted: Vec<Fr> = vec![];
            let mut got = vec![];
            let mut dead = false;
            let mut queue: Vec<usize> = ops.clone();
            queue.reverse();
            let mut guard = 0;
            let mut flushed = false;
            while let Some(op) = queue.pop() {
                guard += 1;
                ensure!(guard < 200, "the connection makes no progress");
                c.step();
                let (w0, r0, e0) = {
                    let st = io.st();
                    (st.w_blocked, st.r_blocked, st.failed)
                };
                match op {
                    0 | 1 => {
                        let fr = fr_of(op);
                        let m = if op == 0 { OwnedMessage::Text("small".into()) } else { OwnedMessage::Binary(fr.payload.clone()) };
                        match s.start_send_notify(m.clone(), &n, 0) {
                            Ok(AsyncSink::Ready) => accepted.push(fr),
                            Ok(AsyncSink::NotReady(back)) => {
                                ensure!(back == m, "the message handed back differs");
                                ensure!(io.st().w_blocked > w0, "a send was not accepted although the transport was ready");
                                queue.push(op);
                            }
                            Err(e) => {
                                ensure!(io.st().failed && !e0, "send failed with {:?}", e);
                                dead = true;
                            }
                        }
                        flushed = false;
                    }
                    2 => {
                        // back-pressure may answer first
                        match s.start_send_notify(OwnedMessage::Ping(vec![1; 126]), &n, 0) {
                            Ok(AsyncSink::Ready) => fail!("an oversized ping was accepted"),
                            Ok(AsyncSink::NotReady(_)) => {
                                ensure!(io.st().w_blocked > w0, "a send was not accepted although the transport was ready");
                                queue.push(op);
                            }
                            Err(_) => {
                                if io.st().failed {
                                    dead = true;
                                }
                            }
                        }
                    }
                    3 => match s.poll_flush_notify(&n, 0) {
                        Ok(Async::Ready(())) => {
                            check_all(&io.out(), &accepted, server).map_err(|e| format!("flush completed but {}", e))?;
                            flushed = true;
                        }
                        Ok(Async::NotReady) => {
                            ensure!(io.st().w_blocked > w0, "flush not ready although the transport was ready");
                            queue.push(3);
                        }
                        Err(e) => {
                            ensure!(io.st().failed && !e0, "flush failed with {:?}", e);
                            dead = true;
                        }
                    },
                    _ => match s.poll_stream_notify(&n, 0) {
                        Ok(Async::Ready(Some(m))) => got.push(m),
                        Ok(Async::Ready(None)) => fail!("stream ended early"),
                        Ok(Async::NotReady) => {
                            ensure!(io.st().r_blocked > r0, "receive not ready although the transport was ready");
                            let used = io.st().consumed;
                            let e = ends(&input);
                            let ready = (used >= e[1]) as usize + (used >= e[2]) as usize;
                            ensure!(got.len() == ready, "{} complete messages received but {} delivered", ready, got.len());
                        }
                        Err(e) => fail!("receive failed with {:?}", e),
                    },
                }
                ensure!(got.len() <= 2 && got[..] == want_in[..got.len()], "received {:?}", got);
                check_out(&io.out(), &accepted, server)?;
                if dead {
                    break;
                }
                if queue.is_empty() && !flushed && op != 3 {
                    queue.push(3);
                }
            }
            c.state(&(server, chunk, hold, pair, &ops, accepted.len(), got.len(), dead));
            c.trace(&(accepted.len(), got.len(), dead));
            Ok(())
        })
        .map(|runs| c.note = format!("{} ({} tapes)", note, runs))
    });
    // receive side
    let fam: Vec<Vec<(Vec<Fr>, Vec<OwnedMessage>)>> = vec![families(false), families(true)];
    let fam = &fam;
    let rb = x.tier(2, 3);
    x.bound("streams: 4 streams x both roles x 2 read sizes, all tapes with at most 2 (3) departures (short read, not ready anywhere, read error)");
    x.section("stream-tapes", 4 * 2 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let chunk = [usize::MAX, 3][ix.take(2)];
        let open = ix.take(2) == 1;
        let (frames, want) = &fam[server as usize][ix.take(4)];
        let bytes = wire(frames);
        let ready = ready_points(frames, &ends(frames));
        c.note = format!("server={} max read {} open={} frames {}", server, chunk, open, show(frames));
        let note = c.note.clone();
        explore(if chunk == 3 && bytes.len() > 100 { 2.min(rb) } else { rb }, 3_000_000, c, |tape, c| {
            let io = Mock::new(vec![], if open { Tail::WouldBlock } else { Tail::Eof });
            let f = async_client(&io, server, None)?;
            {
                let mut s = io.st();
                s.consumed = 0;
                s.input.push_back(Seg::Data(bytes.clone()));
                s.max_read = chunk;
                s.max_block_run = 2;
                s.tape = Some((tape, Menu { r_short: true, r_block: true, r_err: true, ..Default::default() }));
            }
            let mut s = executor::spawn(f);
            let n = noop();
            let mut got = vec![];
            let mut polls = 0;
            loop {
                polls += 1;
                ensure!(polls < 2000, "the stream makes no progress");
                c.step();
                let (r0, e0) = (io.rb(), io.failed());
                let r = s.poll_stream_notify(&n, 0);
                let (r1, e1, used) = {
                    let st = io.st();
                    (st.r_blocked, st.failed, st.consumed)
                };
                let complete = ready.iter().filter(|e| used >= **e).count();
                match r {
                    Ok(Async::Ready(Some(m))) => {
                        ensure!(e0 == e1, "a read error was not reported");
                        got.push(m);
                        ensure!(got.len() <= complete && got[..] == want[..got.len()], "delivered {:?}", got.iter().map(show_msg).collect::<Vec<_>>());
                    }
                    Ok(Async::Ready(None)) => {
                        ensure!(!open && got.len() == want.len(), "stream ended after {} messages", got.len());
                        break;
                    }
                    Ok(Async::NotReady) => {
                        ensure!(r1 > r0, "not ready although the transport was ready");
                        ensure!(got.len() == complete, "{} complete messages received but {} delivered", complete, got.len());
                        if open && used == bytes.len() {
                            break;
                        }
                    }
                    Err(e) => {
                        ensure!(e1 && !e0, "stream failed with {:?}", e);
                        break;
                    }
                }
            }
            c.state(&(server, chunk, open, hash_of(&bytes)));
            c.trace(&(got.len(), polls));
            Ok(())
        })
        .map(|runs| c.note = format!("{} ({} tapes)", note, runs))
    });
    // connecting and accepting over such a transport, then sending
    x.bound("asynchronous handshakes over the same transports followed by one message each way");
    x.section("handshake-tapes", 2 * 3 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let chunk = [usize::MAX, 11, 1][ix.take(3)];
        let hold = ix.take(2) == 1;
        c.note = format!("server={} max read/write {} keeps until flushed {}", server, chunk, hold);
        let b = if hold || chunk == 1 { x.tier(1, 2) } else { 2 };
        explore(b, 3_000_000, c, |tape, c| {
            use crate::http::*;
            let io = Mock::new(vec![], Tail::WouldBlock).max_read(chunk).max_write(chunk);
            let msg_in = fr(true, 2, b"in").to(server, 0);
            let menu = Menu { w_short: true, w_block: true, f_block: true, r_block: true, r_short: true, ..Default::default() };
            let head_in = if server { request("/") } else { response(&accept_for(KEY)) };
            {
                let mut s = io.st();
                s.tape = Some((tape, menu));
                if hold {
                    s.hold = Some(usize::MAX);
                }
                s.input.push_back(Seg::Data([&head_in[..], &msg_in.bytes()].concat()));
                s.max_block_run = 2;
            }
            let fut: Box<dyn futures::Future<Item = Fd, Error = String> + Send> = if server {
                use futures::Future;
                use websocket::server::upgrade::r#async::IntoWs;
                Box::new(
                    io.clone()
                        .into_ws()
                        .map_err(|e| format!("valid request refused: {:?}", e.3))
                        .and_then(|up| up.accept().map(|x| x.0).map_err(|e| format!("{:?}", e))),
                )
            } else {
                use futures::Future;
                let b = websocket::ClientBuilder::new("ws://example.com/").map_err(|e| format!("{:?}", e))?.key(KEY_BYTES);
                Box::new(b.async_connect_on(io.clone()).map(|x| x.0).map_err(|e| format!("{:?}", e)))
            };
            let mut s = executor::spawn(fut);
            let n = noop();
            let mut polls = 0;
            let f = loop {
                polls += 1;
                c.step();
                ensure!(polls < 5000, "the handshake makes no progress");
                let (w0, r0) = (io.wb(), io.rb());
                match s.poll_future_notify(&n, 0) {
                    Ok(Async::Ready(f)) => break f,
                    Ok(Async::NotReady) => {
                        let st = io.st();
                        ensure!(st.w_blocked > w0 || st.r_blocked > r0, "handshake not ready although the transport was ready");
                    }
                    Err(e) => return Err(e),
                }
            };
            let head = io.take_out();
            parse_head(&head).map_err(|e| format!("handshake bytes: {}", e))?;
            let mut s = executor::spawn(f);
            let m = OwnedMessage::Text("out".into());
            let mut got = None;
            let mut sent = false;
            for _ in 0..400 {
                c.step();
                if !sent {
                    match s.start_send_notify(m.clone(), &n, 0) {
                        Ok(AsyncSink::Ready) => sent = true,
                        Ok(_) => {}
                        Err(e) => fail!("send {:?}", e),
                    }
                }
                let fl = s.poll_flush_notify(&n, 0).map_err(|e| format!("{:?}", e))?;
                if got.is_none() {
                    let (r0, u) = (io.rb(), io.used());
                    let _ = u;
                    match s.poll_stream_notify(&n, 0) {
                        Ok(Async::Ready(x)) => got = x,
                        Ok(Async::NotReady) => ensure!(io.st().r_blocked > r0, "not ready although the transport was"),
                        Err(e) => fail!("receive {:?}", e),
                    }
                }
                if sent && fl.is_ready() && got.is_some() {
                    break;
                }
            }
            check_all(&io.out(), &[fr(true, 1, b"out")], server)?;
            ensure!(got == Some(OwnedMessage::Binary(b"in".to_vec())), "the pipelined message came out as {:?}", got);
            c.state(&(server, chunk));
            c.trace(&polls);
            Ok(())
        })
        .map(|_| ())
    });
    // close flushes first
    x.section("close-tapes", 2 * 4 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let k = 1 + ix.take(4);
        let pair = ix.take(2) == 1;
        let hold = ix.take(2) == 1;
        c.note = format!("server={} {} messages then close, over a pair of streams: {}, keeps until flushed {}", server, k, pair, hold);
        explore(x.tier(2, 3), 1_000_000, c, |tape, c| {
            let io = Mock::new(vec![], Tail::WouldBlock);
            let f: Box<dyn futures::Sink<SinkItem = OwnedMessage, SinkError = WebSocketError>> = if pair {
                Box::new(tokio_codec::Decoder::framed(MessageCodec::default(ctx(server)), websocket::stream::ReadWritePair(io.clone(), io.clone())))
            } else {
                Box::new(async_client(&io, server, None)?)
            };
            if hold {
                io.st().hold = Some(usize::MAX);
            }
            io.st().tape = Some((tape, Menu { w_short: true, w_block: true, f_block: true, ..Default::default() }));
            let mut s = executor::spawn(f);
            let n = noop();
            let mut acc = vec![];
            for j in 0..k {
                c.step();
                let d = pat(j * 40, j);
                match s.start_send_notify(OwnedMessage::Binary(d.clone()), &n, 0) {
                    Ok(AsyncSink::Ready) => acc.push(fr(true, 2, &d)),
                    _ => fail!("send not accepted below the back-pressure boundary"),
                }
            }
            for _ in 0..50 {
                let w0 = io.st().w_blocked;
                match s.close_notify(&n, 0) {
                    Ok(Async::Ready(())) => break,
                    Ok(Async::NotReady) => ensure!(io.st().w_blocked > w0, "close not ready although the transport was"),
                    Err(e) => fail!("close {:?}", e),
                }
            }
            ensure!(io.st().shutdown, "close did not shut the transport down");
            c.state(&(server, k));
            c.trace(&acc.len());
            check_all(&io.out(), &acc, server).map(|_| ())
        })
        .map(|_| ())
    });
    wide_c22(x);
}

// ---------------------------------------------------------------- long and large versions
use crate::rx::{complete_at, complete_in, sizes_around_powers, wide_frames, wide_list, Wide};

fn wide_c02(x: &Ctx) {
    let sizes: Vec<usize> = sizes_around_powers(x.tier(1 << 20, 4 << 20)).into_iter().filter(|n| *n > 8).collect();
    let steps = [1usize, 3, 4, 5, 100, 1000, 1023, 1024, 4095, 4096, 8192, 65_535, 65_536, usize::MAX];
    x.bound("user-defined frames of sizes around every power of two to 1 MiB (thorough 4 MiB), written in pieces of 14 sizes after a first piece of 0..4 bytes");
    x.section("custom-frames/large", (sizes.len() * steps.len() * 5) as u64, |c, i| {
        let mut ix = Ix(i);
        let first = ix.take(5);
        let step = *ix.pick(&steps);
        let n = *ix.pick(&sizes);
        if n / step > 20_000 {
            return Ok(());
        }
        let server = (n + first) % 4 == 1;
        let entry = (i % ENTRIES as u64) as usize;
        let mut cuts: Vec<usize> = if first > 0 { vec![first] } else { vec![] };
        let mut p = first;
        while step < n && p + step < n {
            p += step;
            cuts.push(p);
        }
        let data = patb(n, 3);
        let op = [2u8, 1, 0, 5][first % 4];
        let want = fr(n % 3 != 0, op, &data).rsv((n % 8) as u8);
        c.note = format!("{} server={} pieces of {} after {} {}", ENTRY_NAMES[entry], server, step, first, want.show());
        let rsv = want.rsv;
        let d = Custom { fin: want.fin, rsv: [rsv & 4 != 0, rsv & 2 != 0, rsv & 1 != 0], op, data, cuts, how: (i % 3) as usize };
        judge(entry, server, &Item::Custom(d), &want, c)
    });
    x.bound("asynchronous output buffers already holding up to 300000 bytes of earlier frames");
    let priors = [100usize, 1000, 4095, 4096, 8191, 8192, 8193, 20_000, 65_535, 65_536, 131_072, 300_000];
    let lens = [0usize, 5, 125, 126, 1000, 8192, 65_535, 65_536, 200_000];
    x.section("buffer-states/large", (priors.len() * lens.len() * 6 * 2 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let what = ix.take(3);
        let server = ix.take(2) == 1;
        let spare = [0usize, 1, 7, 130, 70_000, 400_000][ix.take(6)];
        let n = *ix.pick(&lens);
        let prior = *ix.pick(&priors);
        let data = pat(n, 2);
        let (it, want) = match what {
            0 => (Item::Owned(OwnedMessage::Text(String::from_utf8(data.clone()).unwrap())), fr(true, 1, &data)),
            1 => (Item::Df(DataFrame::new(false, Opcode::Binary, data.clone())), fr(false, 2, &data)),
            _ => (Item::Msg(Message::ping(data.clone())), fr(true, 9, &data)),
        };
        c.note = format!("server={} prior {} spare {} {}", server, prior, spare, want.show());
        let pre = patb(prior, 9);
        let mut b = BytesMut::with_capacity(prior + spare);
        b.extend_from_slice(&pre);
        c.step();
        let r = encode(server, &it, &mut b);
        c.state(&(server, prior, spare, n, what));
        c.trace(&(r.is_ok(), b.len()));
        ensure!(b.len() >= prior && b[..prior] == pre[..], "earlier contents of the buffer changed");
        if want.op >= 8 && n > 125 {
            ensure!(r.is_err() && b.len() == prior, "a refused control frame emitted {} bytes", b.len() - prior);
            return Ok(());
        }
        ensure!(r.is_ok(), "encoding failed: {:?}", r);
        check_all(&b[prior..], &[want], server).map(|_| ())
    });
    // refused control frames of any size, at any place of a history
    x.section("refused-control", 6 * 2 * 3 * 20, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let repr = ix.take(2);
        let kind = [2usize, 3, 5][ix.take(3)];
        let n = [126usize, 127, 128, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 4096, 8192, 65_535, 65_536, 65_537, 100_000, 1 << 20, 381][ix.take(20)];
        let entry = (ix.0 as usize + n) % ENTRIES;
        let (it, want) = make_item(kind, repr, n).unwrap();
        c.note = format!("{} server={} repr {} {}", ENTRY_NAMES[entry], server, repr, want.show());
        judge(entry, server, &it, &want, c)
    });
}

fn wide_c03(x: &Ctx) {
    // one connection, changing kinds and sizes, received pings answered in between
    let total = x.tier(1500usize, 8000);
    x.bound("keys of one client connection over 1500 (8000) frames of changing kind and size with traffic received in between, and of 300 successive connections");
    x.section("keys-of-mixed-history", 6 * 3, |c, i| {
        let mut ix = Ix(i);
        let e = ix.take(6);
        let style = ix.take(3);
        let io = Mock::new(vec![], Tail::WouldBlock);
        c.note = format!("entry {} style {} {} sends", e, style, total);
        let mut cl = None;
        let mut w = None;
        let mut fd = None;
        let mut snd = Sender::new(true);
        let mut codec = MessageCodec::<OwnedMessage>::default(ctx(false));
        let mut buf = BytesMut::new();
        match e {
            0 | 5 => cl = Some(sync_client(&io, false, None)?),
            1 => w = Some(sync_client(&io, false, None)?.split().map_err(|e| e.to_string())?),
            2 => fd = Some(executor::spawn(async_client(&io, false, None)?)),
            _ => {}
        }
        let nt = noop();
        let mut keys = vec![];
        for k in 0..total {
            c.step();
            let n = match style {
                0 => (k * 37) % 301,
                1 => if k % 50 == 49 { 66_000 } else { k % 5 },
                _ => 4,
            };
            let (m, f) = match (k / (style + 1)) % 5 {
                0 | 3 => (OwnedMessage::Text(String::from_utf8(pat(n, k)).unwrap()), fr(true, 1, &pat(n, k))),
                1 => (OwnedMessage::Ping(pat(n % 126, k)), fr(true, 9, &pat(n % 126, k))),
                2 => (OwnedMessage::Pong(pat(n % 126, k)), fr(true, 10, &pat(n % 126, k))),
                _ => (OwnedMessage::Binary(pat(n, k)), fr(true, 2, &pat(n, k))),
            };
            let out = match e {
                0 => {
                    if k % 3 == 0 {
                        io.push(&fr(true, 9, b"are you there").bytes());
                        let r = cl.as_mut().unwrap().recv_message();
                        ensure!(r.is_ok(), "receive {:?}", r);
                    }
                    cl.as_mut().unwrap().send_message(&m).map_err(|e| format!("{:?}", e))?;
                    io.take_out()
                }
                5 => {
                    // whole frames of the caller, fragmented now and then
                    let d = DataFrame::new(k % 3 != 0 || f.op >= 8, Opcode::new(f.op).unwrap(), f.payload.clone());
                    cl.as_mut().unwrap().send_dataframe(&d).map_err(|e| format!("{:?}", e))?;
                    io.take_out()
                }
                1 => {
                    w.as_mut().unwrap().1.send_message(&m).map_err(|e| format!("{:?}", e))?;
                    io.take_out()
                }
                2 => {
                    let s = fd.as_mut().unwrap();
                    match s.start_send_notify(m.clone(), &nt, 0) {
                        Ok(AsyncSink::Ready) => {}
                        _ => fail!("sink not ready"),
                    }
                    let _ = s.poll_flush_notify(&nt, 0);
                    io.take_out()
                }
                3 => {
                    let mut v = vec![];
                    snd.send_message(&mut v, &m).map_err(|e| format!("{:?}", e))?;
                    v
                }
                _ => {
                    buf.clear();
                    codec.encode(m.clone(), &mut buf).map_err(|e| format!("{:?}", e))?;
                    buf.to_vec()
                }
            };
            let want = if e == 5 { fr(k % 3 != 0 || f.op >= 8, f.op, &f.payload) } else { f };
            keys.extend(check_all(&out, &[want], false).map_err(|e| format!("send {}: {}", k, e))?);
        }
        c.state(&(e, style));
        c.trace(&keys.len());
        judge_keys_long(&keys)
    });
    x.section("keys-of-many-connections", 3, |c, i| {
        let mut first = vec![];
        c.note = format!("endpoint kind {}", i);
        for k in 0..300 {
            c.step();
            let io = Mock::new(vec![], Tail::WouldBlock);
            let m = OwnedMessage::Text("hello".into());
            match i {
                0 => sync_client(&io, false, None)?.send_message(&m).map_err(|e| format!("{:?}", e))?,
                1 => {
                    let mut s = executor::spawn(async_client(&io, false, None)?);
                    let nt = noop();
                    let _ = s.start_send_notify(m, &nt, 0).map_err(|e| format!("{:?}", e))?;
                    let _ = s.poll_flush_notify(&nt, 0);
                }
                _ => {
                    // each in a thread of its own
                    let io = io.clone();
                    std::thread::spawn(move || -> Result<(), String> {
                        sync_client(&io, false, None)?.send_message(&m).map_err(|e| format!("{:?}", e))
                    })
                    .join()
                    .map_err(|_| "panic while sending".to_string())??;
                }
            }
            first.extend(check_all(&io.out(), &[fr(true, 1, b"hello")], false).map_err(|e| format!("connection {}: {}", k, e))?);
        }
        c.state(&i);
        c.trace(&first.len());
        judge_keys_long(&first)
    });
    // large writes through the masking writer
    let sizes: Vec<usize> = sizes_around_powers(x.tier(1 << 17, 1 << 20)).into_iter().filter(|n| *n > 7).collect();
    let steps = [1usize, 2, 3, 5, 7, 1000, 1023, 4095, 4096, 65_536, usize::MAX];
    x.bound("masking writer: sizes around every power of two to 128 KiB (thorough 1 MiB), pieces of 11 sizes after a first piece of 0..4 bytes, inner writers taking at most 1, 3, 1000, 4096 or all bytes, or interrupting");
    x.section("masker/large", (sizes.len() * steps.len() * 5 * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let inner = [usize::MAX, 1, 3, 1000, 4096, 0][ix.take(6)];
        let first = ix.take(5);
        let step = *ix.pick(&steps);
        let n = *ix.pick(&sizes);
        if n / step > 20_000 || (inner == 1 || inner == 3) && n > 20_000 {
            return Ok(());
        }
        let key = KEYS[n % 3];
        let key = [key[0] ^ 0x11, key[1], key[2] ^ 0x80, key[3] ^ n as u8];
        let data = patb(n, 0);
        c.note = format!("{} bytes, pieces of {} after {}, inner writer takes {}", n, step, first, inner);
        let io = Mock::new(vec![], Tail::Eof);
        if inner == 0 {
            io.st().w_every = Some((2, ErrorKind::Interrupted));
            io.st().max_write = 777;
        } else {
            io.st().max_write = inner;
        }
        let mut end = io.clone();
        let mut m = Masker::new(key, &mut end);
        m.write_all(&data[..first]).map_err(|e| e.to_string())?;
        let mut p = first;
        while p < n {
            c.step();
            let q = p.saturating_add(step).min(n);
            m.write_all(&data[p..q]).map_err(|e| format!("masking writer failed: {}", e))?;
            p = q;
        }
        let out = io.take_out();
        c.state(&(key, n, inner, first, step));
        c.trace(&(n, inner));
        ensure!(out.len() == n, "{} bytes written, {} came out", n, out.len());
        if let Some(j) = (0..n).find(|j| out[*j] != data[*j] ^ key[*j & 3]) {
            fail!("masked byte {} is {:02x}, expected {:02x}", j, out[j], data[j] ^ key[j & 3]);
        }
        ensure!(mask_data(key, &data) == out, "mask_data differs");
        Ok(())
    });
    // refusal at any place and of any size
    x.bound("a wrongly masked frame of sizes around every power of two to 1 MiB, and after 0..70 and up to 2000 good frames or fragments");
    let hist: Vec<usize> = (0..70).chain(vec![100, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1024, 2000]).collect();
    x.section("refusal/anywhere", (hist.len() * 6 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let style = ix.take(6);
        let n = *ix.pick(&hist);
        let mut pre: Vec<Fr> = vec![];
        let mut count = 0;
        for k in 0..n {
            match style / 2 {
                0 => pre.push(fr(true, [1u8, 2, 9, 10][k % 4], &pat(k % 9, k))),
                1 => pre.push(fr(false, if k == 0 { 1 } else { 0 }, &pat(k % 3, k))),
                _ => pre.push(fr(true, 2, &patb(300 + k, k))),
            }
            count += pre[k].fin as usize;
        }
        let pre: Vec<Fr> = pre.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
        let mut bad = if style % 2 == 0 { fr(true, 9, b"x") } else { fr(true, if style / 2 == 1 && n > 0 { 0 } else { 2 }, b"") };
        bad.mask = if server { None } else { Some(KEYS[n % 3]) };
        let mut b = wire(&pre);
        let p = b.len();
        b.extend(bad.bytes());
        b.extend(fr(true, 9, b"z").to(server, 0).bytes());
        c.note = format!("server={} style {} after {} frames", server, style, n);
        refused_everywhere(&b, p, count, server, c)?;
        c.state(&(server, style, n));
        Ok(())
    });
    let big = sizes_around_powers(1 << 20);
    x.section("refusal/sizes", (big.len() * 2 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let op = [1u8, 2, 9, 8][ix.take(4)];
        let n = *ix.pick(&big);
        if op >= 8 && n > 125 || op == 8 && n == 1 {
            return Ok(());
        }
        let mut p = pat(n, n);
        if op == 8 && n > 1 {
            p[0] = 3;
        }
        let mut bad = fr(true, op, &p);
        bad.mask = if server { None } else { Some(KEYS[n % 3]) };
        let mut b = bad.bytes();
        b.extend(fr(true, 9, b"z").to(server, 0).bytes());
        c.note = format!("server={} op {} of {} bytes", server, op, n);
        c.state(&(server, op, n));
        refused_everywhere(&b, 0, 0, server, c)
    });
    // every value of every key byte is undone exactly
    x.bound("received frames: every value of each of the 4 key bytes, and all 256 keys of equal bytes, x 20 payload lengths");
    x.section("unmasking/keys", 5 * 256 * 20, |c, i| {
        let mut ix = Ix(i);
        let n = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 64, 125, 126, 300, 1001, 4099, 8200][ix.take(20)];
        let v = ix.take(256) as u8;
        let at = ix.take(5);
        let mut key = KEYS[(n + at) % 3];
        if at == 4 {
            key = [v; 4];
        } else {
            key[at] = v;
        }
        let d = patb(n, v as usize);
        let mut f = fr(true, 2, &d);
        f.mask = Some(key);
        let b = f.bytes();
        c.note = format!("key {} payload {} bytes", hex(&key), n);
        let want = vec![Obs::Msg(OwnedMessage::Binary(d.clone()))];
        let mut a = AsyncDec::new(true, DEF);
        a.feed(&b[..b.len() / 2], c);
        a.feed(&b[b.len() / 2..], c);
        ensure!(a.obs == want, "message codec [{}]", show_obs(&a.obs));
        let o = bare_obs(Mock::with(&b, Tail::Eof), true, DEF, c);
        ensure!(o.len() == 2 && o[..1] == want[..], "Receiver [{}]", show_obs(&o));
        let mut fd = FrameDec::new(true);
        fd.feed(&b, c);
        ensure!(fd.out.len() == 1 && fd.out[0].data == d, "frame codec changed the payload");
        let r = DataFrame::read_dataframe(&mut &b[..], true).map_err(|e| format!("{:?}", e))?;
        ensure!(r.data == d, "read_dataframe changed the payload");
        c.state(&(key, n));
        c.trace(&n);
        Ok(())
    });
}
/// a stream of `count` good messages followed at offset p by a wrongly masked frame
fn refused_everywhere(b: &[u8], p: usize, count: usize, server: bool, c: &mut Case) -> Res {
    let expect = |o: &[Obs], who: &str| -> Res {
        ensure!(
            o.len() == count + 1 && o[..count].iter().all(|x| matches!(x, Obs::Msg(_))) && matches!(o[count], Obs::Err(_)),
            "{}: {} observations, {} messages expected, ending [{}]",
            who,
            o.len(),
            count,
            show_obs(&o[o.len().saturating_sub(2)..])
        );
        Ok(())
    };
    let mut d = AsyncDec::new(server, DEF);
    d.feed(b, c);
    expect(&d.obs, "message codec")?;
    expect(&bare_obs(Mock::with(b, Tail::Eof), server, DEF, c), "Receiver")?;
    expect(&reader_obs(Mock::with(b, Tail::Eof), server, DEF, c), "Reader")?;
    let io = Mock::with(b, Tail::Eof);
    let mut cl = sync_client(&io, server, None)?;
    expect(&sync_obs(|| cl.recv_message(), c, 10_000), "Client")?;
    let io = Mock::with(b, Tail::Eof);
    let f = async_client(&io, server, None)?;
    expect(&poll_stream(&mut executor::spawn(f), 1, c), "async client")?;
    let mut d = FrameDec::new(server);
    d.feed(&b[p..], c);
    ensure!(d.err.is_some() && d.out.is_empty(), "frame codec delivered a wrongly masked frame");
    ensure!(DataFrame::read_dataframe(&mut &b[p..], server).is_err(), "read_dataframe delivered a wrongly masked frame");
    let io = Mock::with(b, Tail::Eof);
    let mut cl = sync_client(&io, server, None)?;
    let mut pos = 0;
    loop {
        c.step();
        let r = cl.recv_dataframe();
        match r {
            Ok(d) => {
                pos += d.size() + if d.size() > 65_535 { 10 } else if d.size() > 125 { 4 } else { 2 } + if server { 4 } else { 0 };
                ensure!(pos <= p, "recv_dataframe delivered a wrongly masked frame");
            }
            Err(_) => {
                ensure!(pos == p, "recv_dataframe stopped at {} of {}", pos, p);
                break;
            }
        }
    }
    c.trace(&(p, count));
    Ok(())
}
fn judge_keys_long(keys: &[[u8; 4]]) -> Res {
    let n = keys.len();
    let d: HashSet<_> = keys.iter().collect();
    // three or more equal pairs among n fresh keys: below 1e-6 for n <= 8000
    ensure!(d.len() + 2 >= n, "{} frames but only {} distinct masking keys", n, d.len());
    for (j, w) in keys.windows(2).enumerate() {
        ensure!(w[0] != w[1], "frames {} and {} carry the same key", j, j + 1);
    }
    for j in 0..4 {
        let v: HashSet<u8> = keys.iter().map(|k| k[j]).collect();
        ensure!(v.len() >= if n < 1000 { 100 } else { 200 }, "byte {} of the masking key takes only {} values in {} frames", j, v.len(), n);
    }
    let diffs: HashSet<u32> = keys.windows(2).map(|w| u32::from_be_bytes(w[1]).wrapping_sub(u32::from_be_bytes(w[0]))).collect();
    ensure!(diffs.len() + 3 >= n - 1, "consecutive masking keys are in a fixed progression");
    let xors: HashSet<u32> = keys.windows(2).map(|w| u32::from_be_bytes(w[1]) ^ u32::from_be_bytes(w[0])).collect();
    ensure!(xors.len() + 3 >= n - 1, "consecutive masking keys are in a fixed progression");
    Ok(())
}

/// a blocking handshake over `io`, followed by one message each way; what was done is told by the result
fn blocking_handshake(io: &Mock, way: usize) -> Result<Option<websocket::client::sync::Client<Mock>>, String> {
    use crate::http::*;
    use websocket::server::upgrade::sync::IntoWs;
    if way < 2 {
        let mut b = websocket::ClientBuilder::new("ws://example.com/a?b").map_err(|e| format!("{}: {:?}", HARNESS, e))?.key(KEY_BYTES);
        if way == 1 {
            b = b.add_protocol("wish").origin("http://there".into());
        }
        return b.connect_on(io.clone()).map(Some).map_err(|e| format!("connect: {:?}", e));
    }
    let u = io.clone().into_ws().map_err(|e| format!("into_ws: {:?}", e.3))?;
    let mut h = hyper::header::Headers::new();
    h.set_raw("X-Custom", vec![b"one".to_vec(), b"two".to_vec()]);
    match way {
        2 => u.accept().map(Some).map_err(|e| format!("accept: {:?}", e.1)),
        3 => u.use_protocol("wish").accept_with(&h).map(Some).map_err(|e| format!("accept_with: {:?}", e.1)),
        4 => u.reject().map(|_| None).map_err(|e| format!("reject: {:?}", e.1)),
        _ => u.reject_with(&h).map(|_| None).map_err(|e| format!("reject_with: {:?}", e.1)),
    }
}
fn handshake_input(way: usize, pad: usize) -> Vec<u8> {
    use crate::http::*;
    let h = String::from_utf8(if way < 2 { response(&accept_for(KEY)) } else { request("/a?b") }).unwrap();
    if pad == 0 {
        return h.into_bytes();
    }
    format!("{}\r\nX-Pad: {}\r\n\r\n", h.trim_end(), "p".repeat(pad)).into_bytes()
}
/// the result of `blocking_handshake` under faults against the one without
fn judge_handshake(io: &Mock, way: usize, head: usize, reference: &[u8], r: Result<Option<websocket::client::sync::Client<Mock>>, String>, c: &mut Case) -> Res {
    let (out, failed, consumed) = {
        let mut s = io.st();
        s.tape = None;
        s.r_every = None;
        s.w_every = None;
        (s.output.clone(), s.failed, s.consumed)
    };
    ensure!(reference.starts_with(&out), "wrote {:?} which the handshake without faults does not write", String::from_utf8_lossy(&out));
    match r {
        Err(e) => ensure!(failed, "the transport did not fail, but the handshake did: {}", e),
        Ok(cl) => {
            ensure!(out == reference, "the handshake succeeded having written {} of {} bytes", out.len(), reference.len());
            ensure!(consumed >= head, "the handshake succeeded on {} of {} bytes", consumed, head);
            if failed {
                return Ok(());
            }
            if let Some(mut cl) = cl {
                c.steps(2);
                let m = cl.recv_message();
                ensure!(matches!(m, Ok(OwnedMessage::Binary(ref b)) if b == b"in"), "the message after the handshake came out as {:?}", m);
                io.take_out();
                cl.send_message(&OwnedMessage::Text("out".into())).map_err(|e| format!("{:?}", e))?;
                check_all(&io.out(), &[fr(true, 1, b"out")], way >= 2)?;
            }
        }
    }
    Ok(())
}
fn handshakes_c16(x: &Ctx) {
    const WAYS: usize = 6;
    let setup = |way: usize, pad: usize| -> Result<(Vec<u8>, usize, Vec<u8>), String> {
        let head = handshake_input(way, pad);
        let bytes = [&head[..], &fr(true, 2, b"in").to(way >= 2, 0).bytes()].concat();
        let io = Mock::with(&bytes, Tail::Eof);
        blocking_handshake(&io, way).map_err(|e| format!("without faults: {}", e))?;
        let r = io.out();
        Ok((bytes, head.len(), r))
    };
    let bound = x.tier(2, 3);
    x.bound("blocking handshakes (client plain and with options, server accept, accept with options, reject, reject with headers) then a message each way: all tapes with at most 2 (3) departures (short by 1 or half, interrupted, hard error) over every read and write, in whole and in pieces of 60 bytes");
    x.section("handshake-tapes", (WAYS * 3 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let way = ix.take(WAYS);
        let chunk = [usize::MAX, 60, 17][ix.take(3)];
        let errors = ix.take(2) == 1;
        let (bytes, head, reference) = setup(way, 0)?;
        c.note = format!("way {} max read/write {} hard errors {}", way, chunk, errors);
        explore(if chunk == 17 { bound.min(2) } else { bound }, 3_000_000, c, |tape, c| {
            let io = Mock::with(&bytes, Tail::Eof).max_read(chunk).max_write(chunk);
            {
                let mut s = io.st();
                s.max_block_run = 3;
                s.tape = Some((tape, Menu { r_short: true, r_intr: true, w_short: true, w_intr: true, r_err: errors, w_err: errors, ..Default::default() }));
            }
            c.step();
            let r = blocking_handshake(&io, way);
            let ok = r.is_ok();
            judge_handshake(&io, way, head, &reference, r, c)?;
            let reads = io.st().reads;
            let calls = (reads, io.st().writes);
            c.state(&(way, chunk, calls));
            c.trace(&(ok, calls));
            Ok(())
        })
        .map(|_| ())
    });
    let pads: Vec<usize> = vec![0, 1, 100, 1000, 3800, 3900, 3950, 4000, 4096, 5000, 9000, 20_000, 60_000];
    x.bound("heads of 13 sizes to 60 KB: reads and writes of 6 sizes, interrupted every 2nd, 3rd, 7th time or never");
    x.section("handshake-interrupted", (WAYS * pads.len() * 6 * 4 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let way = ix.take(WAYS);
        let (ri, wi) = ([0usize, 2, 3, 7][ix.take(4)], [0usize, 2, 3, 7][ix.take(4)]);
        let chunk = [1usize, 2, 100, 1000, 4096, usize::MAX][ix.take(6)];
        let pad = *ix.pick(&pads);
        if pad / chunk > 6000 {
            return Ok(());
        }
        let (bytes, head, reference) = setup(way, pad)?;
        let io = Mock::with(&bytes, Tail::Eof).max_read(chunk).max_write(chunk);
        {
            let mut s = io.st();
            s.r_every = if ri > 0 { Some((ri, ErrorKind::Interrupted)) } else { None };
            s.w_every = if wi > 0 { Some((wi, ErrorKind::Interrupted)) } else { None };
        }
        c.note = format!("way {} head of {} bytes, pieces of {}, interrupted every {} reads and {} writes", way, head, chunk, ri, wi);
        c.step();
        let r = blocking_handshake(&io, way);
        c.state(&i);
        c.trace(&(way, io.st().writes));
        judge_handshake(&io, way, head, &reference, r, c)
    });
    // faults after every number of bytes
    x.bound("a transport that fails for good, or takes no more bytes, after every number of bytes of the handshake");
    x.section("handshake-fault-positions", (WAYS * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let way = ix.take(WAYS);
        let kind = ix.take(4);
        let (bytes, head, reference) = setup(way, 0)?;
        let n = if kind == 0 { head } else { reference.len() };
        for p in 0..n {
            let io = match kind {
                0 => Mock::with(&bytes[..p], Tail::Fail(ErrorKind::ConnectionReset)),
                _ => Mock::with(&bytes, Tail::Eof),
            };
            {
                let mut s = io.st();
                match kind {
                    1 => s.wscript = (0..p).map(|_| Ok(1)).chain((0..50).map(|_| Ok(0))).collect(),
                    2 => {
                        s.budget = Some(p);
                        s.wtail = Some(ErrorKind::BrokenPipe);
                    }
                    3 => {
                        s.budget = Some(p);
                        s.wtail = Some(ErrorKind::TimedOut);
                    }
                    _ => {}
                }
            }
            c.note = format!("way {} fault {} after {} of {} bytes", way, kind, p, n);
            c.step();
            let r = blocking_handshake(&io, way);
            c.state(&(way, kind, p));
            c.trace(&(way, kind, r.is_ok()));
            ensure!(r.is_err(), "the handshake succeeded");
            let out = io.out();
            ensure!(reference.starts_with(&out), "wrote {:?}", String::from_utf8_lossy(&out));
            if kind > 0 {
                ensure!(out.len() == p, "{} bytes written, the transport took {}", out.len(), p);
            }
        }
        Ok(())
    });
}
fn wide_c16(x: &Ctx) {
    let wl: Vec<Wide> = wide_list(x.thorough).into_iter().filter(|w| x.thorough || !matches!(w, Wide::History(n, s) if n * s > 40_000)).collect();
    let wl = &wl;
    x.bound("wide streams (up to 4097 fragments, sizes around every power of two to 1 MiB, histories to 5000 messages, every buffer alignment): reads interrupted every 2nd..50th time with reads of 8 sizes, and would-block or timeout before every k-th frame, 4 drivers in rotation");
    x.section("wide-reads", wl.len() as u64 * 2 * 6, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let pat = ix.take(6);
        let w = ix.pick(wl);
        let frames = wide_frames(w, server);
        let n: usize = frames.iter().map(|f| f.payload.len() + 4).sum();
        let ready = ready_points(&frames, &ends(&frames));
        let drv = (i as usize / 12 + pat) % 4;
        let io = Mock::new(vec![], Tail::Eof);
        let mut cl = None;
        let mut rd = None;
        let mut rc = websocket::receiver::Receiver::new(server);
        match drv {
            0 => rd = Some(reader(io.clone(), server, DEF)),
            1 => {}
            2 => cl = Some(client_over(&io, b"", server)?),
            _ => rd = Some(client_over(&io, b"", server)?.split().map_err(|e| e.to_string())?.0),
        }
        let small = n < 3000;
        {
            let mut s = io.st();
            s.consumed = 0;
            let mut blocks = 0;
            match pat {
                0 | 1 | 2 => {
                    s.r_every = Some(([2usize, 3, 50][pat], ErrorKind::Interrupted));
                    s.max_read = if small { [1usize, 2, 7][pat] } else { [1000usize, 4096, 70_000][pat] };
                }
                3 => s.max_read = if small { 1 } else { 500 },
                _ => blocks = if pat == 4 { 1 } else { 3 },
            }
            let mut cur = vec![];
            for (k, f) in frames.iter().enumerate() {
                if blocks > 0 && k % blocks == 0 {
                    if !cur.is_empty() {
                        s.input.push_back(Seg::Data(std::mem::replace(&mut cur, vec![])));
                    }
                    s.input.push_back(Seg::Fail(if k % 2 == 0 { ErrorKind::WouldBlock } else { ErrorKind::TimedOut }));
                }
                cur.extend(f.bytes());
            }
            s.input.push_back(Seg::Data(cur));
        }
        c.note = format!("server={} driver {} pattern {} {:?}", server, drv, pat, w);
        let mut raw = io.clone();
        // what must come out, from the unfaulted decode
        let mut d = AsyncDec::new(server, DEF);
        d.feed(&wire(&frames), c);
        let (mut k, mut blocked) = (0, 0);
        let mut guard = 0;
        loop {
            guard += 1;
            ensure!(guard < 100_000, "reading does not make progress");
            c.step();
            let r = match drv {
                1 => {
                    use websocket::ws::Receiver as RT;
                    rc.recv_message(&mut raw)
                }
                2 => cl.as_mut().unwrap().recv_message(),
                _ => rd.as_mut().unwrap().recv_message(),
            };
            match r {
                Ok(m) => {
                    ensure!(k < d.obs.len() && d.obs[k] == Obs::Msg(m.clone()), "message {} is {}", k, show_msg(&m));
                    ensure!(io.st().consumed >= ready[k], "message {} was delivered before it was completely received", k);
                    k += 1;
                }
                Err(WebSocketError::NoDataAvailable) => break,
                Err(WebSocketError::IoError(ref e)) if pat >= 4 && (e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut) => blocked += 1,
                Err(e) => fail!("{:?} after {} messages", e, k),
            }
        }
        let want_blocked = match pat {
            4 => frames.len(),
            5 => (frames.len() + 2) / 3,
            _ => 0,
        };
        ensure!(k == ready.len(), "{} of {} messages delivered", k, ready.len());
        ensure!(blocked == want_blocked, "{} would-blocks and timeouts met, {} reported", want_blocked, blocked);
        c.state(&(server, drv, pat, format!("{:?}", w)));
        c.trace(&(k, blocked));
        Ok(())
    });
    // sends of any size over a transport that takes little at a time and interrupts
    let sizes = sizes_around_powers(x.tier(1 << 18, 1 << 22));
    x.bound("sends of sizes around every power of two to 256 KiB (thorough 4 MiB): transport takes 8 amounts at a time, interrupting every 2nd..5th time; hard error, would-block and zero after any of 60 amounts of bytes");
    x.section("wide-writes", (sizes.len() * 8 * 3 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let intr = [2usize, 3, 0][ix.take(3)];
        let mw = [1usize, 2, 5, 100, 1000, 4096, 65_536, usize::MAX][ix.take(8)];
        let n = *ix.pick(&sizes);
        if n / mw > 20_000 {
            return Ok(());
        }
        let io = Mock::new(vec![], Tail::Eof);
        let drv = i % 2;
        c.note = format!("server={} {} bytes, max write {}, interrupted every {}, sender {}", server, n, mw, intr, drv);
        let mut cl = sync_client(&io, server, None)?;
        io.st().max_write = mw;
        io.st().w_every = if intr > 0 { Some((intr, ErrorKind::Interrupted)) } else { None };
        let d = patb(n, 7);
        let mut want = vec![];
        if drv == 0 {
            cl.send_message(&OwnedMessage::Text("first".into())).map_err(|e| format!("{:?}", e))?;
            cl.send_message(&OwnedMessage::Binary(d.clone())).map_err(|e| format!("{:?}", e))?;
        } else {
            let (_, mut w) = cl.split().map_err(|e| e.to_string())?;
            w.send_message(&Message::text("first")).map_err(|e| format!("{:?}", e))?;
            w.send_message(&Message::binary(d.clone())).map_err(|e| format!("{:?}", e))?;
        }
        c.steps(2);
        want.push(fr(true, 1, b"first"));
        want.push(fr(true, 2, &d));
        c.state(&(server, n, mw, intr));
        c.trace(&n);
        check_all(&io.out(), &want, server).map(|_| ())
    });
    let sizes2: Vec<usize> = sizes_around_powers(1 << 17);
    x.section("write-fault-positions", (sizes2.len() * 2 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let kind = ix.take(4);
        let n = *ix.pick(&sizes2);
        let d = patb(n, 7);
        let f = fr(true, 2, &d);
        let total = f.clone().to(!server, 0).bytes().len();
        let mut pos: Vec<usize> = (0..16.min(total)).chain(total.saturating_sub(8)..total).collect();
        for b in &[total / 2, 4096, 8192, 65_536, 125, 126, 127, 128, 1023, 1024, 1025] {
            if *b < total {
                pos.push(*b);
            }
        }
        for p in pos {
            let io = Mock::new(vec![], Tail::Eof);
            let mut cl = sync_client(&io, server, None)?;
            let first = fr(true, 1, b"first");
            cl.send_message(&OwnedMessage::Text("first".into())).map_err(|e| format!("{:?}", e))?;
            c.step();
            c.note = format!("server={} {} bytes, fault {} after {} of {} bytes", server, n, kind, p, total);
            let k = [ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset][kind];
            {
                // take exactly p bytes, then fail for good
                let mut s = io.st();
                s.budget = Some(p);
                s.wtail = Some(k);
            }
            let r = cl.send_message(&OwnedMessage::Binary(d.clone()));
            match r {
                Err(WebSocketError::IoError(ref e)) => ensure!(e.kind() == k, "{:?} reported as {:?}", k, e.kind()),
                r => fail!("a send that met {:?} gave {:?}", k, r),
            }
            let out = io.out();
            check_out(&out, &[first, f.clone()], server)?;
            c.trace(&(kind, p));
        }
        c.state(&(server, kind, n));
        Ok(())
    });
    // a hard read error after any number of bytes of a large message
    let rl = wide_list(false);
    x.bound("hard read error at 30 places of every wide stream: exactly the messages received before it are delivered, then the error by the call it hits");
    x.section("read-fault-positions", rl.len() as u64, |c, i| {
        let w = &rl[i as usize];
        let server = i % 2 == 1;
        let frames = wide_frames(w, server);
        let bytes = wire(&frames);
        let t = complete_at(&frames);
        let e = ends(&frames);
        let n = bytes.len();
        let mut pos = std::collections::BTreeSet::new();
        for p in &[0, 1, 2, 3, 5, 9, 13, n / 3, n / 2, n - 1, n, 4095, 4096, 4097, 8192, 65_536] {
            pos.insert((*p).min(n));
        }
        pos.insert(e[e.len() / 2]);
        pos.insert(e[e.len() / 2] - 1);
        if n > 300_000 {
            pos = pos.into_iter().enumerate().filter(|(k, _)| k % 4 == 1).map(|x| x.1).collect();
        }
        for p in pos {
            for drv in 0..2 {
                c.note = format!("server={} driver {} {:?} error after {} of {} bytes", server, drv, w, p, n);
                let io = Mock::with(&bytes[..p], Tail::Fail(ErrorKind::ConnectionReset));
                let o = if drv == 0 { reader_obs(io, server, DEF, c) } else { bare_obs(io, server, DEF, c) };
                let want = complete_in(&t, p);
                ensure!(o.len() == want + 1, "{} messages were complete, {} observations", want, o.len());
                match &o[want] {
                    Obs::Err(s) if s.contains("ConnectionReset") => {}
                    o => fail!("the connection reset was reported as {}", o.show()),
                }
            }
        }
        c.state(&(server, i));
        Ok(())
    });
}

fn wide_c21(x: &Ctx) {
    // many values, short chains
    let sizes = sizes_around_powers(x.tier(1 << 18, 1 << 22));
    let nv = 65536 * 2 + 126 * 4 + 124 * 3 + sizes.len() as u64 * 4 + 65536 + 256 * 3;
    x.bound("all 65536 close codes with and without a reason, control payloads and close reasons of every length, texts and binaries of sizes around every power of two to 256 KiB (thorough 4 MiB), all two-byte binaries: every chain of 2 conversions");
    x.section("many-values", nv, |c, i| {
        let mut k = i;
        let m = if k < 65536 * 2 {
            let r = if k % 2 == 0 { "" } else { "bye \u{e9}" };
            OwnedMessage::Close(Some(CloseData::new((k / 2) as u16, r.into())))
        } else {
            k -= 65536 * 2;
            if k < 126 * 4 {
                let n = (k / 4) as usize;
                match k % 4 {
                    0 => OwnedMessage::Ping(patb(n, n)),
                    1 => OwnedMessage::Pong(patb(n, n)),
                    2 => OwnedMessage::Ping(vec![0xff; n]),
                    _ => OwnedMessage::Pong(vec![0; n]),
                }
            } else {
                k -= 126 * 4;
                if k < 124 * 3 {
                    let n = (k / 3) as usize;
                    let r = match k % 3 {
                        0 => String::from_utf8(pat(n, n)).unwrap(),
                        1 => "\u{e9}".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" },
                        _ => "\u{10348}".repeat(n / 4) + &"y".repeat(n % 4),
                    };
                    OwnedMessage::Close(Some(CloseData::new(1000 + n as u16, r)))
                } else {
                    k -= 124 * 3;
                    if k < sizes.len() as u64 * 4 {
                        let n = sizes[(k / 4) as usize];
                        match k % 4 {
                            0 => OwnedMessage::Text(String::from_utf8(pat(n, n)).unwrap()),
                            1 => OwnedMessage::Text("\u{20ac}".repeat(n / 3) + &"z".repeat(n % 3)),
                            2 => OwnedMessage::Binary(patb(n, n)),
                            _ => OwnedMessage::Binary(vec![b'A'; n]),
                        }
                    } else {
                        k -= sizes.len() as u64 * 4;
                        if k < 65536 {
                            OwnedMessage::Binary(vec![(k >> 8) as u8, k as u8])
                        } else {
                            k -= 65536;
                            match k % 3 {
                                0 => OwnedMessage::Ping(vec![(k / 3) as u8]),
                                1 => OwnedMessage::Binary(vec![(k / 3) as u8]),
                                _ => OwnedMessage::Text(((k / 3) as u8 as char).to_string()),
                            }
                        }
                    }
                }
            }
        };
        let (op, payload) = payload_of(&m);
        c.note = format!("value {}", show_msg(&m));
        c.state(&(op, hash_of(&payload)));
        let r0 = Rep::Owned(m);
        value_checks(&r0, op, &payload, c)?;
        let deep = payload.len() < 1000 && i % 16 == 0;
        for a in 0..CONV {
            if let Some(r1) = convert(&r0, a, c).map_err(|e| format!("conversion {}: {}", a, e))? {
                value_checks(&r1, op, &payload, c).map_err(|e| format!("after conversion {}: {}", a, e))?;
                for b in 0..CONV {
                    if payload.len() > 100_000 && b > 2 {
                        continue;
                    }
                    if let Some(r2) = convert(&r1, b, c).map_err(|e| format!("conversions {} {}: {}", a, b, e))? {
                        value_checks(&r2, op, &payload, c).map_err(|e| format!("after conversions {} {}: {}", a, b, e))?;
                        for d in 0..CONV {
                            if deep {
                                if let Some(r3) = convert(&r2, d, c).map_err(|e| format!("conversions {} {} {}: {}", a, b, d, e))? {
                                    value_checks(&r3, op, &payload, c).map_err(|e| format!("after conversions {} {} {}: {}", a, b, d, e))?;
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Rep::Owned(m) = &r0 {
            let mut b: Message<'static> = Message::from(m.clone());
            let orig = b.clone();
            let r = b.into_pong();
            ensure!(r.is_ok() == (op == 9), "into_pong on opcode {} gave {:?}", op, r);
            if op == 9 {
                ensure!(b.opcode == Type::Pong && b.payload == orig.payload && b.cd_status_code.is_none(), "pong differs from the ping");
            } else {
                ensure!(b == orig, "a failed into_pong changed the message");
            }
        }
        c.trace(&(op, payload.len()));
        Ok(())
    });
    // any number of fragments through from_dataframes
    let ns: Vec<usize> = (1..=130).chain(vec![200, 255, 256, 257, 500, 1000, 1024, 1025, 5000]).collect();
    x.bound("from_dataframes over 1..130 and up to 5000 fragments of 4 sizes, owned and borrowed");
    x.section("many-fragments", (ns.len() * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let text = ix.take(2) == 1;
        let size = [0usize, 1, 3, 126][ix.take(4)];
        let n = *ix.pick(&ns);
        c.note = format!("{} fragments of {} text {}", n, size, text);
        let data = if text { "\u{20ac}".repeat((n * size) / 3) + &"a".repeat(n * size % 3) } else { String::new() };
        let data = if text { data.into_bytes() } else { patb(n * size, n) };
        let v: Vec<DataFrame> = (0..n)
            .map(|k| DataFrame::new(k + 1 == n, if k > 0 { Opcode::Continuation } else if text { Opcode::Text } else { Opcode::Binary }, data[k * size..(k + 1) * size].to_vec()))
            .collect();
        c.steps(2);
        let op = if text { 1 } else { 2 };
        let o: OwnedMessage = MsgTrait::from_dataframes(v.clone()).map_err(|e| format!("{:?}", e))?;
        value_checks(&Rep::Owned(o), op, &data, c)?;
        let m: Message<'static> = MsgTrait::from_dataframes(v).map_err(|e| format!("{:?}", e))?;
        value_checks(&Rep::Msg(m), op, &data, c)?;
        c.state(&(text, size, n));
        c.trace(&n);
        Ok(())
    });
}

fn wide_c22(x: &Ctx) {
    let wl: Vec<Wide> = wide_list(x.thorough).into_iter().filter(|w| x.thorough || !matches!(w, Wide::History(n, s) if n * s > 40_000)).collect();
    let wl = &wl;
    x.bound("wide streams (as C16) over an asynchronous client and server: all at once, in reads of 4 sizes, and not ready every 2nd, 3rd or 17th time");
    x.section("wide-streams", wl.len() as u64 * 2 * 6, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let how = ix.take(6);
        let w = ix.pick(wl);
        let frames = wide_frames(w, server);
        let bytes = wire(&frames);
        let n = bytes.len();
        let t = complete_at(&frames);
        let io = Mock::new(vec![], Tail::WouldBlock);
        let f = async_client(&io, server, None)?;
        {
            let mut s = io.st();
            s.consumed = 0;
            s.reads = 0;
            s.input.push_back(Seg::Data(bytes.clone()));
            match how {
                0 => {}
                1 => s.max_read = if n < 5000 { 1 } else { 1000 },
                2 => s.max_read = 4096,
                3 => s.r_every = Some((2, ErrorKind::WouldBlock)),
                4 => {
                    s.r_every = Some((3, ErrorKind::WouldBlock));
                    s.max_read = if n < 5000 { 7 } else { 1500 };
                }
                _ => s.r_every = Some((17, ErrorKind::WouldBlock)),
            }
        }
        c.note = format!("server={} delivery {} {:?}", server, how, w);
        let mut d = AsyncDec::new(server, DEF);
        d.feed(&bytes, c);
        let mut s = executor::spawn(f);
        let nt = noop();
        let mut k = 0;
        let mut polls = 0;
        loop {
            polls += 1;
            ensure!(polls < 2_000_000, "no progress");
            c.step();
            let r0 = io.rb();
            match s.poll_stream_notify(&nt, 0) {
                Ok(Async::Ready(Some(m))) => {
                    ensure!(k < d.obs.len() && d.obs[k] == Obs::Msg(m.clone()), "message {} is {}", k, show_msg(&m));
                    k += 1;
                }
                Ok(Async::Ready(None)) => fail!("stream ended"),
                Ok(Async::NotReady) => {
                    let (r1, used) = {
                        let st = io.st();
                        (st.r_blocked, st.consumed)
                    };
                    ensure!(r1 > r0, "not ready although the transport was ready");
                    let done = complete_in(&t, used);
                    ensure!(k == done, "{} complete messages received but {} delivered when the stream said not ready", done, k);
                    if used == n {
                        break;
                    }
                }
                Err(e) => fail!("stream failed with {:?}", e),
            }
        }
        ensure!(k == t.last().unwrap().1, "{} messages delivered", k);
        c.state(&(server, how, format!("{:?}", w)));
        c.trace(&(k, how));
        Ok(())
    });
    // long and large sends
    x.bound("sinks: histories of up to 2000 messages and single messages around every power of two to 1 MiB (thorough 8 MiB) over transports taking 7 amounts at a time and not ready every 2nd, 3rd or 10th write (or flush), flushed after every 1, 3, 40 or all messages");
    let mut jobs: Vec<(usize, usize)> = vec![];
    for n in sizes_around_powers(x.tier(1 << 20, 8 << 20)) {
        jobs.push((1, n));
    }
    for n in &[2usize, 5, 33, 100, 257, 600, 2000] {
        for s in &[0usize, 20, 125, 126, 700, 9000] {
            if n * s < 1_000_000 {
                jobs.push((*n, *s));
            }
        }
    }
    let jobs = &jobs;
    x.section("wide-sinks", (jobs.len() * 7 * 5 * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let every = [1usize, 3, 40, usize::MAX][ix.take(4)];
        let block = ix.take(5);
        let mw = [1usize, 7, 100, 1000, 8191, 65_536, usize::MAX][ix.take(7)];
        let (count, size) = *ix.pick(jobs);
        if count == 1 && every != 1 || count * (size + 4) / mw > 30_000 {
            return Ok(());
        }
        let io = Mock::new(vec![], Tail::WouldBlock);
        let f = async_client(&io, server, None)?;
        {
            let mut s = io.st();
            s.max_write = mw;
            s.writes = 0;
            match block {
                0 => {}
                1 | 2 | 3 => s.w_every = Some(([2usize, 3, 10][block - 1], ErrorKind::WouldBlock)),
                _ => s.f_every = Some(2),
            }
        }
        c.note = format!("server={} {} messages of {} max write {} block {} flush every {}", server, count, size, mw, block, every);
        let mut s = executor::spawn(f);
        let nt = noop();
        let mut want = vec![];
        let mut guard = 0;
        let limit = 10 * (count + count * (size + 20) / mw + 100);
        for k in 0..count {
            let n = if count == 1 { size } else { size + k % 3 };
            let f = match k % 4 {
                0 | 2 => fr(true, 2, &patb(n, k)),
                1 => fr(true, 1, &pat(n, k)),
                _ => fr(true, 9, &patb(n % 126, k)),
            };
            let m = match f.op {
                2 => OwnedMessage::Binary(f.payload.clone()),
                1 => OwnedMessage::Text(String::from_utf8(f.payload.clone()).unwrap()),
                _ => OwnedMessage::Ping(f.payload.clone()),
            };
            let mut m = Some(m);
            while let Some(v) = m.take() {
                guard += 1;
                ensure!(guard < limit, "sending makes no progress");
                c.step();
                let w0 = io.wb();
                match s.start_send_notify(v, &nt, 0) {
                    Ok(AsyncSink::Ready) => {}
                    Ok(AsyncSink::NotReady(back)) => {
                        ensure!(io.wb() > w0, "a send was not accepted although the transport was ready");
                        m = Some(back);
                    }
                    Err(e) => fail!("send {} failed with {:?}", k, e),
                }
            }
            want.push(f);
            if k % 5 == 4 {
                // refused, emits nothing
                loop {
                    guard += 1;
                    ensure!(guard < limit, "sending makes no progress");
                    let w0 = io.wb();
                    match s.start_send_notify(OwnedMessage::Pong(vec![7; 126]), &nt, 0) {
                        Ok(AsyncSink::Ready) => fail!("an oversized pong was accepted"),
                        Ok(AsyncSink::NotReady(_)) => ensure!(io.wb() > w0, "a send was not accepted although the transport was ready"),
                        Err(_) => break,
                    }
                }
            }
            if every != usize::MAX && k % every == every - 1 || k + 1 == count {
                loop {
                    guard += 1;
                    ensure!(guard < limit, "flushing makes no progress");
                    c.step();
                    let w0 = io.wb();
                    match s.poll_flush_notify(&nt, 0) {
                        Ok(Async::Ready(())) => break,
                        Ok(Async::NotReady) => ensure!(io.wb() > w0, "flush not ready although the transport was ready"),
                        Err(e) => fail!("flush failed with {:?}", e),
                    }
                }
                // a completed flush means all were written
                let out = io.take_out();
                check_all(&out, &want, server).map_err(|e| format!("after message {}: flush completed but {}", k, e))?;
                want.clear();
            }
        }
        c.state(&(server, count, size, mw, block, every));
        c.trace(&(count, size, block));
        Ok(())
    });
    // a send while any number of bytes of an earlier one are left
    let sizes3: Vec<usize> = sizes_around_powers(1 << 20).into_iter().filter(|n| *n < 300 || *n % 2 == 1 || *n > 60_000).collect();
    let sizes3 = &sizes3;
    let lefts: Vec<usize> = (0..40).chain(vec![64, 100, 126, 127, 130, 200, 255, 256, 1000, 4000, 8000, 8191]).collect();
    let lefts = &lefts;
    x.bound("sinks: the transport takes all but 0..39 (and 12 larger amounts) bytes of a first message, then a message of every size around powers of two to 1 MiB is sent, and a third: nothing is lost, at whatever later point the transport is ready");
    x.section("wide-sinks/left-over", (sizes3.len() * lefts.len() * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let left = *ix.pick(lefts);
        let n = *ix.pick(sizes3);
        let io = Mock::new(vec![], Tail::WouldBlock);
        let f = async_client(&io, server, None)?;
        let mut s = executor::spawn(f);
        let nt = noop();
        let first = left + 10;
        let total = first + if first < 126 { 2 } else { 4 } + if server { 0 } else { 4 };
        {
            let mut st = io.st();
            st.budget = Some(total - left);
            st.wtail = Some(ErrorKind::WouldBlock);
        }
        c.note = format!("server={} {} bytes left over, then a message of {}", server, left, n);
        let mut want = vec![];
        for (k, l) in [first, n, 3].iter().enumerate() {
            let d = patb(*l, k);
            c.step();
            match s.start_send_notify(OwnedMessage::Binary(d.clone()), &nt, 0) {
                Ok(AsyncSink::Ready) => want.push(fr(true, 2, &d)),
                Ok(AsyncSink::NotReady(_)) if k == 2 => {}
                Ok(AsyncSink::NotReady(_)) => fail!("message {} not accepted", k),
                Err(e) => fail!("send {} failed with {:?}", k, e),
            }
            if k == 0 {
                match s.poll_flush_notify(&nt, 0) {
                    Ok(Async::Ready(())) => ensure!(left == 0, "flush completed with {} bytes unwritten", left),
                    Ok(Async::NotReady) => ensure!(left > 0, "flush not ready although the transport took all"),
                    Err(e) => fail!("flush failed with {:?}", e),
                }
            }
        }
        {
            let mut st = io.st();
            st.budget = None;
            st.wtail = None;
        }
        match s.poll_flush_notify(&nt, 0) {
            Ok(Async::Ready(())) => {}
            o => fail!("flush on a ready transport: {:?}", o),
        }
        check_all(&io.out(), &want, server).map_err(|e| format!("flush completed but {}", e))?;
        c.state(&(server, left, n));
        c.trace(&(want.len(), left.min(50)));
        Ok(())
    });
    // the transport fails for good after any number of bytes
    x.bound("sinks: hard write error after each of 30 amounts of bytes of 6 histories");
    x.section("wide-sinks/error", 6 * 40 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let p = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 50, 100, 125, 126, 127, 131, 200, 500, 1000, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 8200, 9000, 10_000, 16_384, 20_000, 30_000, 50_000, 65_535, 65_536, 65_537, 70_000, 100_000, 200_000][ix.take(40)];
        let (count, size) = [(3usize, 10usize), (50, 5), (10, 1000), (3, 9000), (2, 70_000), (400, 700)][ix.take(6)];
        let io = Mock::new(vec![], Tail::WouldBlock);
        let f = async_client(&io, server, None)?;
        {
            let mut s = io.st();
            s.budget = Some(p);
            s.wtail = Some(ErrorKind::BrokenPipe);
        }
        c.note = format!("server={} {} messages of {}, error after {} bytes", server, count, size, p);
        let mut s = executor::spawn(f);
        let nt = noop();
        let mut want = vec![];
        let mut failed = false;
        for k in 0..count {
            c.step();
            let d = patb(size, k);
            match s.start_send_notify(OwnedMessage::Binary(d.clone()), &nt, 0) {
                Ok(AsyncSink::Ready) => want.push(fr(true, 2, &d)),
                Ok(AsyncSink::NotReady(_)) => fail!("not ready although the transport was not"),
                Err(_) => {
                    ensure!(io.failed(), "send failed although the transport did not");
                    failed = true;
                    break;
                }
            }
            if k % 7 == 6 {
                match s.poll_flush_notify(&nt, 0) {
                    Ok(Async::Ready(())) => {
                        check_all(&io.out(), &want, server).map_err(|e| format!("flush completed but {}", e))?;
                    }
                    Ok(Async::NotReady) => fail!("flush not ready although the transport was not"),
                    Err(_) => {
                        ensure!(io.failed(), "flush failed although the transport did not");
                        failed = true;
                        break;
                    }
                }
            }
        }
        if !failed {
            match s.poll_flush_notify(&nt, 0) {
                Ok(Async::Ready(())) => {
                    check_all(&io.out(), &want, server).map_err(|e| format!("flush completed but {}", e))?;
                }
                Ok(Async::NotReady) => fail!("flush not ready although the transport was not"),
                Err(_) => ensure!(io.failed(), "flush failed although the transport did not"),
            }
        }
        // a prefix of what was accepted
        check_out(&io.out(), &want, server).map_err(|e| format!("after the error: {}", e))?;
        c.state(&(server, count, size, p));
        c.trace(&(failed, want.len()));
        Ok(())
    });
}
