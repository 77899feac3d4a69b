//! Reference model of RFC 6455 framing, independent of the code under test.
use std::hash::{Hash, Hasher};
use websocket::message::CloseData;
use websocket::OwnedMessage;

/// A frame as the harness puts it on the wire (legal or not).
#[derive(Clone, Debug, PartialEq)]
pub struct Fr {
    pub fin: bool,
    pub rsv: u8,
    pub op: u8,
    pub mask: Option<[u8; 4]>,
    pub payload: Vec<u8>,
    /// 0 shortest length encoding, 1 forced 16 bit, 2 forced 64 bit
    pub form: u8,
}

pub fn fr(fin: bool, op: u8, payload: &[u8]) -> Fr {
    Fr { fin, rsv: 0, op, mask: None, payload: payload.to_vec(), form: 0 }
}
pub const KEYS: [[u8; 4]; 3] = [[0x37, 0xfa, 0x21, 0x3d], [0, 0, 0, 0], [0xff, 0x01, 0x80, 0x7f]];

impl Fr {
    pub fn rsv(mut self, r: u8) -> Fr {
        self.rsv = r;
        self
    }
    pub fn form(mut self, f: u8) -> Fr {
        self.form = f;
        self
    }
    /// masked as the peer of `server` must (or must not) do
    pub fn to(mut self, server: bool, k: usize) -> Fr {
        self.mask = if server { Some(KEYS[k % 3]) } else { None };
        self
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::with_capacity(self.payload.len() + 14);
        o.push((self.fin as u8) << 7 | (self.rsv & 7) << 4 | (self.op & 15));
        let m = if self.mask.is_some() { 0x80 } else { 0 };
        let n = self.payload.len();
        let form = match self.form {
            0 if n < 126 => 0,
            0 if n < 65536 => 1,
            0 => 2,
            f => f,
        };
        match form {
            0 => o.push(m | n as u8),
            1 => {
                o.push(m | 126);
                o.push((n >> 8) as u8);
                o.push(n as u8);
            }
            _ => {
                o.push(m | 127);
                o.extend_from_slice(&(n as u64).to_be_bytes());
            }
        }
        match self.mask {
            Some(k) => {
                o.extend_from_slice(&k);
                o.extend(self.payload.iter().enumerate().map(|(i, b)| b ^ k[i & 3]));
            }
            None => o.extend_from_slice(&self.payload),
        }
        o
    }
    pub fn show(&self) -> String {
        format!(
            "[{}op{:x}{}{} len{}{} {}]",
            if self.fin { "FIN " } else { "" },
            self.op,
            if self.rsv != 0 { format!(" rsv{:03b}", self.rsv) } else { String::new() },
            if self.mask.is_some() { " masked" } else { "" },
            self.payload.len(),
            if self.form != 0 { format!(" form{}", self.form) } else { String::new() },
            crate::engine::hex(&self.payload[..self.payload.len().min(16)])
        )
    }
}
pub fn wire(frames: &[Fr]) -> Vec<u8> {
    frames.iter().flat_map(|f| f.bytes()).collect()
}
pub fn show(frames: &[Fr]) -> String {
    frames.iter().map(|f| f.show()).collect::<Vec<_>>().join(" ")
}

/// Parsed header
#[derive(Clone, Debug, PartialEq)]
pub struct Hd {
    pub fin: bool,
    pub rsv: u8,
    pub op: u8,
    pub mask: Option<[u8; 4]>,
    pub len: u64,
    pub hlen: usize,
    pub illegal: Option<&'static str>,
}
/// None = header incomplete (as many bytes as its own length field asks for).
/// `early` is set when the bytes present already prove the header illegal.
pub fn parse_header(b: &[u8]) -> (Option<Hd>, bool) {
    if b.len() < 2 {
        return (None, false);
    }
    let (fin, rsv, op) = (b[0] & 0x80 != 0, (b[0] >> 4) & 7, b[0] & 15);
    let masked = b[1] & 0x80 != 0;
    let l7 = b[1] & 0x7f;
    let ext = match l7 {
        126 => 2,
        127 => 8,
        _ => 0,
    };
    let mut illegal = None;
    if op >= 8 {
        if !fin {
            illegal = Some("fragmented control frame");
        }
        if l7 > 125 {
            illegal = Some("long control frame");
        }
    }
    if b.len() < 2 + ext {
        return (None, illegal.is_some());
    }
    let mut len = l7 as u64;
    if ext > 0 {
        len = 0;
        for x in &b[2..2 + ext] {
            len = len << 8 | *x as u64;
        }
        if (ext == 2 && len < 126) || (ext == 8 && len < 65536) {
            illegal = Some("non-minimal length");
        }
        if ext == 8 && len >> 63 != 0 {
            // most significant bit must be 0; such a frame can never be completed anyway
            illegal = Some("length over 2^63");
        }
    }
    let hlen = 2 + ext + if masked { 4 } else { 0 };
    if b.len() < hlen {
        return (None, illegal.is_some());
    }
    let mask = if masked {
        let m = &b[2 + ext..];
        Some([m[0], m[1], m[2], m[3]])
    } else {
        None
    };
    (Some(Hd { fin, rsv, op, mask, len, hlen, illegal }), illegal.is_some())
}

/// What a receiver may do when a frame has completely arrived.
#[derive(Clone, Debug, PartialEq)]
pub struct Allowed {
    pub nothing: bool,
    pub error: bool,
    pub msg: Option<OwnedMessage>,
}
fn must_error() -> Allowed {
    Allowed { nothing: false, error: true, msg: None }
}
fn must_wait() -> Allowed {
    Allowed { nothing: true, error: false, msg: None }
}
fn must_deliver(m: OwnedMessage) -> Allowed {
    Allowed { nothing: false, error: false, msg: Some(m) }
}

#[derive(Clone, Debug)]
pub struct Frag {
    pub op: u8,
    pub data: Vec<u8>,
    pub n: u64,
    pub poisoned: bool,
}

pub const OVERHEAD: u64 = 64;
pub const MAX_FRAGMENTS: u64 = 1024 * 1024;

#[derive(Clone, Debug)]
pub struct RxModel {
    pub server: bool,
    pub max_frame: u64,
    pub max_msg: u64,
    pub frag: Option<Frag>,
}
impl Hash for RxModel {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.server, self.max_frame, self.max_msg).hash(h);
        match &self.frag {
            None => 0u8.hash(h),
            Some(f) => (f.op, &f.data, f.n, f.poisoned).hash(h),
        }
    }
}

/// own UTF-8 automaton (RFC 3629): Ok(complete?) or Err
pub fn utf8(b: &[u8]) -> Result<bool, ()> {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => (0, 0x80, 0xbf),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee | 0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return Err(()),
        };
        i += 1;
        for k in 0..n {
            if i >= b.len() {
                return Ok(false);
            }
            let (l, h) = if k == 0 { (lo, hi) } else { (0x80, 0xbf) };
            if b[i] < l || b[i] > h {
                return Err(());
            }
            i += 1;
        }
    }
    Ok(true)
}
pub fn utf8_ok(b: &[u8]) -> bool {
    utf8(b) == Ok(true)
}
fn string(b: &[u8]) -> String {
    // only called on bytes accepted by utf8_ok
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

pub fn close_msg(p: &[u8]) -> Option<OwnedMessage> {
    match p.len() {
        0 => Some(OwnedMessage::Close(None)),
        1 => None,
        _ => {
            if utf8_ok(&p[2..]) {
                Some(OwnedMessage::Close(Some(CloseData {
                    status_code: (p[0] as u16) << 8 | p[1] as u16,
                    reason: string(&p[2..]),
                })))
            } else {
                None
            }
        }
    }
}

impl RxModel {
    pub fn new(server: bool) -> RxModel {
        RxModel { server, max_frame: 100 << 20, max_msg: 200 << 20, frag: None }
    }
    pub fn limits(server: bool, max_frame: u64, max_msg: u64) -> RxModel {
        RxModel { server, max_frame, max_msg, frag: None }
    }
    pub fn on_frame(&mut self, h: &Hd, payload: &[u8]) -> Allowed {
        if h.illegal.is_some() || h.mask.is_some() != self.server || h.len > self.max_frame {
            return must_error();
        }
        if h.op >= 8 {
            let mut a = if h.rsv != 0 {
                must_error()
            } else {
                match h.op {
                    8 => close_msg(payload).map(must_deliver).unwrap_or_else(must_error),
                    9 => must_deliver(OwnedMessage::Ping(payload.to_vec())),
                    10 => must_deliver(OwnedMessage::Pong(payload.to_vec())),
                    _ => must_error(),
                }
            };
            if self.frag.as_ref().map_or(false, |f| f.poisoned) {
                a.error = true; // the message in progress is already doomed
            }
            return a;
        }
        match (&mut self.frag, h.op) {
            (None, 0) => return must_error(),
            (Some(_), o) if o != 0 => return must_error(),
            (None, o) => self.frag = Some(Frag { op: o, data: vec![], n: 0, poisoned: o > 2 }),
            (Some(_), _) => {}
        }
        let f = self.frag.as_mut().unwrap();
        f.data.extend_from_slice(payload);
        f.n += 1;
        if h.rsv != 0 {
            f.poisoned = true;
        }
        if f.op == 1 && utf8(&f.data).is_err() {
            f.poisoned = true;
        }
        let total = f.data.len() as u64 + OVERHEAD * f.n;
        if !h.fin {
            if total > self.max_msg || f.n >= MAX_FRAGMENTS {
                return must_error();
            }
            let mut a = must_wait();
            if f.poisoned || total == self.max_msg {
                a.error = true;
            }
            return a;
        }
        let f = self.frag.take().unwrap();
        if f.poisoned || (f.op == 1 && !utf8_ok(&f.data)) {
            return must_error();
        }
        let mut a = must_deliver(match f.op {
            1 => OwnedMessage::Text(string(&f.data)),
            _ => OwnedMessage::Binary(f.data),
        });
        if total >= self.max_msg && f.n > 1 || (f.n == 1 && total >= self.max_msg) {
            a.error = true; // the completing fragment is exempt from the limit, refusing it is no violation
        }
        a
    }
}

/// What was observed on the implementation side.
#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Msg(OwnedMessage),
    Err(String),
    /// blocking receiver: no data available (end of stream)
    NoData,
    /// transient: would block / not ready
    Pending,
    /// asynchronous stream finished
    End,
}
impl Obs {
    pub fn show(&self) -> String {
        match self {
            Obs::Msg(m) => format!("Msg({})", show_msg(m)),
            o => format!("{:?}", o),
        }
    }
}
pub fn show_msg(m: &OwnedMessage) -> String {
    let s = format!("{:?}", m);
    if s.len() > 120 {
        let mut k = 100;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}..({} chars)", &s[..k], s.len())
    } else {
        s
    }
}
pub fn show_obs(o: &[Obs]) -> String {
    o.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")
}
impl Hash for Obs {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.show().hash(h)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ending {
    /// blocking stream that ended
    SyncEof,
    /// asynchronous stream that ended
    AsyncEof,
    /// more bytes may come: the receiver answers Pending
    Open,
}

/// Compare the full list of observations with the model's view of `bytes`.
/// Returns the number of frames processed.
pub fn check_obs(bytes: &[u8], mut m: RxModel, end: Ending, obs: &[Obs]) -> Result<usize, String> {
    let mut pos = 0;
    let mut k = 0;
    let mut frames = 0;
    let ctx = |what: String, k: usize, pos: usize| {
        format!("{} (observation {} of [{}], stream offset {})", what, k, show_obs(obs), pos)
    };
    loop {
        let (h, early) = parse_header(&bytes[pos..]);
        let rest = (bytes.len() - pos) as u64;
        let complete = match &h {
            Some(h) => h.len <= rest - h.hlen as u64,
            None => false,
        };
        if complete {
            let h = h.unwrap();
            let p0 = pos + h.hlen;
            let mut payload = bytes[p0..p0 + h.len as usize].to_vec();
            if let Some(k) = h.mask {
                for (i, b) in payload.iter_mut().enumerate() {
                    *b ^= k[i & 3];
                }
            }
            let a = m.on_frame(&h, &payload);
            frames += 1;
            pos = p0 + h.len as usize;
            match obs.get(k) {
                Some(Obs::Err(_)) if a.error => return Ok(frames),
                Some(Obs::Msg(got)) if a.msg.is_some() => {
                    if a.msg.as_ref() != Some(got) {
                        return Err(ctx(
                            format!("delivered {} instead of {}", show_msg(got), show_msg(a.msg.as_ref().unwrap())),
                            k,
                            pos,
                        ));
                    }
                    k += 1;
                }
                _ if a.nothing => {}
                o => {
                    return Err(ctx(
                        format!(
                            "after frame {} expected {}{}{}but observed {}",
                            frames,
                            a.msg.as_ref().map(|m| format!("{} ", show_msg(m))).unwrap_or_default(),
                            if a.error { "an error " } else { "" },
                            if a.nothing { "nothing " } else { "" },
                            o.map(|o| o.show()).unwrap_or_else(|| "nothing more".into())
                        ),
                        k,
                        pos,
                    ))
                }
            }
            continue;
        }
        // trailing incomplete frame (or nothing)
        let oversize = h.as_ref().map_or(false, |h| h.len > m.max_frame);
        let wrong_mask = rest >= 2 && ((bytes[pos + 1] & 0x80 != 0) != m.server);
        let poisoned = m.frag.as_ref().map_or(false, |f| f.poisoned);
        let may_err = early || wrong_mask || poisoned || h.as_ref().map_or(false, |h| h.illegal.is_some());
        let o = obs.get(k);
        let extra = obs.len() > k + 1;
        let ok = match (o, end) {
            (Some(Obs::Err(_)), _) if oversize || may_err => true,
            _ if oversize => false,
            (Some(Obs::NoData), Ending::SyncEof) => true,
            (Some(Obs::End), Ending::AsyncEof) => rest == 0,
            (Some(Obs::Err(_)), Ending::AsyncEof) => rest > 0,
            (Some(Obs::Pending), Ending::Open) => true,
            _ => false,
        };
        if !ok || extra {
            return Err(ctx(
                format!(
                    "at the end of the bytes ({} left over, {:?}{}) observed {}",
                    rest,
                    end,
                    if oversize { ", oversized frame header complete" } else { "" },
                    o.map(|o| o.show()).unwrap_or_else(|| "nothing".into())
                ),
                k,
                pos,
            ));
        }
        return Ok(frames);
    }
}

/// Independent parser of what was sent: exact frames or an error text.
pub fn parse_wire(b: &[u8]) -> Result<Vec<Fr>, String> {
    let mut pos = 0;
    let mut out = vec![];
    while pos < b.len() {
        let h = match parse_header(&b[pos..]).0 {
            Some(h) => h,
            None => return Err(format!("truncated frame header at offset {}", pos)),
        };
        if h.illegal == Some("non-minimal length") {
            return Err("length encoding is not the shortest".into());
        }
        let p0 = pos + h.hlen;
        if h.len > (b.len() - p0) as u64 {
            return Err(format!("frame at {} announces {} payload bytes, {} present", pos, h.len, b.len() - p0));
        }
        let mut payload = b[p0..p0 + h.len as usize].to_vec();
        if let Some(k) = h.mask {
            for (i, x) in payload.iter_mut().enumerate() {
                *x ^= k[i & 3];
            }
        }
        out.push(Fr { fin: h.fin, rsv: h.rsv, op: h.op, mask: h.mask, payload, form: 0 });
        pos = p0 + h.len as usize;
    }
    Ok(out)
}

pub fn payload_of(m: &OwnedMessage) -> (u8, Vec<u8>) {
    match m {
        OwnedMessage::Text(s) => (1, s.as_bytes().to_vec()),
        OwnedMessage::Binary(b) => (2, b.clone()),
        OwnedMessage::Close(None) => (8, vec![]),
        OwnedMessage::Close(Some(c)) => {
            let mut v = vec![(c.status_code >> 8) as u8, c.status_code as u8];
            v.extend_from_slice(c.reason.as_bytes());
            (8, v)
        }
        OwnedMessage::Ping(b) => (9, b.clone()),
        OwnedMessage::Pong(b) => (10, b.clone()),
    }
}
/// deterministic payload of n bytes (ASCII so that it is valid text)
pub fn pat(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + ((i * 7 + i / 26 + seed * 11) % 26) as u8).collect()
}
/// deterministic payload with all byte values
pub fn patb(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 31 + i / 256 + seed * 13 + 5) & 255) as u8).collect()
}
