//! Server side of the opening handshake: C09 (decision) and C10 (response).
use crate::drv::*;
use crate::engine::*;
use crate::http::*;
use crate::io::*;
use crate::model::*;
use crate::ensure;
use futures::{Future, Sink};
use hyper::buffer::BufReader;
use hyper::http::h1::parse_request;
use hyper::net::NetworkStream;
use std::net::SocketAddr;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::Headers;
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs, RequestStreamPair};
use websocket::server::upgrade::{validate, HyperIntoWsError, Request};
use websocket::OwnedMessage;

pub fn addr() -> SocketAddr {
    "127.0.0.1:9".parse().unwrap()
}
pub const ENTRIES: [&str; 5] = ["stream", "request+stream", "hyper request", "async stream", "validate"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
    Method,
    Http,
    Version,
    Key,
    NoUpgrade,
    BadUpgrade,
    NoConnection,
    BadConnection,
    Io,
    Parse,
}
pub fn why(e: &HyperIntoWsError) -> Why {
    match e {
        HyperIntoWsError::MethodNotGet => Why::Method,
        HyperIntoWsError::UnsupportedHttpVersion => Why::Http,
        HyperIntoWsError::UnsupportedWebsocketVersion => Why::Version,
        HyperIntoWsError::NoSecWsKeyHeader => Why::Key,
        HyperIntoWsError::NoWsUpgradeHeader => Why::BadUpgrade,
        HyperIntoWsError::NoUpgradeHeader => Why::NoUpgrade,
        HyperIntoWsError::NoWsConnectionHeader => Why::BadConnection,
        HyperIntoWsError::NoConnectionHeader => Why::NoConnection,
        HyperIntoWsError::Io(_) => Why::Io,
        HyperIntoWsError::Parsing(_) => Why::Parse,
    }
}

/// A request head in raw form
#[derive(Clone, Debug)]
pub struct Rq {
    pub method: String,
    pub target: String,
    pub version: String,
    pub lines: Vec<(String, Vec<u8>)>,
}
impl Rq {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = format!("{} {} {}\r\n", self.method, self.target, self.version).into_bytes();
        for (n, x) in &self.lines {
            v.extend_from_slice(n.as_bytes());
            v.extend_from_slice(b": ");
            v.extend_from_slice(x);
            v.extend_from_slice(b"\r\n");
        }
        v.extend_from_slice(b"\r\n");
        v
    }
    fn all(&self, name: &str) -> Vec<Vec<u8>> {
        self.lines.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| trim(v)).collect()
    }
}
fn trim(v: &[u8]) -> Vec<u8> {
    let ws = |c: &u8| *c == b' ' || *c == b'\t';
    let a = v.iter().position(|c| !ws(c)).unwrap_or(v.len());
    let b = v.iter().rposition(|c| !ws(c)).map(|p| p + 1).unwrap_or(a);
    v[a..b.max(a)].to_vec()
}
/// comma separated tokens of all lines; None when not text
fn toks(lines: &[Vec<u8>]) -> Option<Vec<String>> {
    let mut o = vec![];
    for l in lines {
        let s = std::str::from_utf8(l).ok()?;
        for t in s.split(',') {
            let t = t.trim();
            if !t.is_empty() {
                o.push(t.to_ascii_lowercase());
            }
        }
    }
    Some(o)
}

/// What the property says about a request. None: not judged. Some(empty): accepted. Some(reasons): refused with one of these.
pub fn verdict(r: &Rq) -> Option<Vec<Why>> {
    if r.method != "GET" {
        return Some(vec![Why::Method]);
    }
    if r.version == "HTTP/1.0" || r.version == "HTTP/0.9" {
        return Some(vec![Why::Http]);
    }
    let mut unsure = false;
    let v = r.all("Sec-WebSocket-Version");
    match v.len() {
        0 => {}
        1 => {
            if v[0] != b"13" {
                if v[0].split(|c| *c == b',').any(|t| trim(t) == b"13") {
                    return None;
                }
                return Some(vec![Why::Version]);
            }
        }
        _ => {
            if v.iter().all(|x| x == b"13") {
                return None;
            }
            return Some(vec![Why::Version]);
        }
    }
    let k = r.all("Sec-WebSocket-Key");
    match k.len() {
        1 => match std::str::from_utf8(&k[0]).map(unb64) {
            Ok(Ok(ref b)) if b.len() == 16 => {}
            Ok(Err(true)) => return None,
            _ => return Some(vec![Why::Key]),
        },
        0 => return Some(vec![Why::Key]),
        _ => {
            if k.iter().all(|x| *x == k[0]) {
                return None;
            }
            return Some(vec![Why::Key]);
        }
    }
    let u = r.all("Upgrade");
    if u.is_empty() {
        return Some(vec![Why::NoUpgrade]);
    }
    match toks(&u) {
        None => return Some(vec![Why::NoUpgrade, Why::BadUpgrade]),
        Some(t) => {
            if t.is_empty() {
                return Some(vec![Why::NoUpgrade, Why::BadUpgrade]);
            }
            if !t.iter().any(|x| x == "websocket") {
                if t.iter().any(|x| x.starts_with("websocket/")) {
                    unsure = true;
                } else {
                    return Some(vec![Why::BadUpgrade]);
                }
            }
        }
    }
    let c = r.all("Connection");
    if c.is_empty() {
        return if unsure { None } else { Some(vec![Why::NoConnection]) };
    }
    match toks(&c) {
        None => return if unsure { None } else { Some(vec![Why::NoConnection, Why::BadConnection]) },
        Some(t) => {
            if t.is_empty() {
                return if unsure { None } else { Some(vec![Why::NoConnection, Why::BadConnection]) };
            }
            if !t.iter().any(|x| x == "upgrade") {
                return if unsure { None } else { Some(vec![Why::BadConnection]) };
            }
        }
    }
    if unsure {
        return None;
    }
    Some(vec![])
}

pub fn parse(bytes: &[u8]) -> Result<Request, hyper::Error> {
    let mut r = BufReader::new(bytes);
    parse_request(&mut r)
}

/// Decision of one entry point: Ok(()) upgraded, Err(reason); the transport must not have been written to.
pub fn decide(entry: usize, bytes: &[u8], c: &mut Case) -> Result<Result<(), Why>, String> {
    c.step();
    let io = Mock::with(bytes, Tail::Eof);
    let r = match entry {
        0 => match io.clone().into_ws_sync() {
            Ok(_) => Ok(()),
            Err((_, req, _, e)) => {
                ensure!(req.is_some() || matches!(e, HyperIntoWsError::Io(_) | HyperIntoWsError::Parsing(_)), "refused request not returned");
                Err(why(&e))
            }
        },
        1 => match parse(bytes) {
            Err(_) => Err(Why::Parse),
            Ok(rq) => match RequestStreamPair(io.clone(), rq).into_ws() {
                Ok(_) => Ok(()),
                Err((_, _, e)) => Err(why(&e)),
            },
        },
        2 => {
            let mut m = io.clone();
            let ns: &mut dyn NetworkStream = &mut m;
            let mut br = BufReader::new(ns);
            let x = match hyper::server::Request::new(&mut br, addr()) {
                Err(_) => Err(Why::Parse),
                Ok(rq) => match HyperRequest(rq).into_ws() {
                    Ok(_) => Ok(()),
                    Err((_, e)) => Err(why(&e)),
                },
            };
            x
        }
        3 => match run_future(AIntoWs::into_ws(io.clone()), 10_000)? {
            Ok(_) => Ok(()),
            Err((_, req, _, e)) => {
                ensure!(req.is_some() || matches!(e, HyperIntoWsError::Io(_) | HyperIntoWsError::Parsing(_)), "refused request not returned");
                Err(why(&e))
            }
        },
        _ => match parse(bytes) {
            Err(_) => Err(Why::Parse),
            Ok(rq) => match validate(&rq.subject.0, rq.version, &rq.headers) {
                Ok(()) => Ok(()),
                Err(e) => Err(why(&e)),
            },
        },
    };
    ensure!(io.out().is_empty(), "{} bytes written to the peer before any answer was given", io.out().len());
    Ok(r)
}
/// names the synchronous trait explicitly
pub trait SyncInto: Sized {
    fn into_ws_sync(self) -> Result<websocket::server::upgrade::sync::Upgrade<Mock>, (Mock, Option<Request>, Option<websocket::server::upgrade::sync::Buffer>, HyperIntoWsError)>;
}
impl SyncInto for Mock {
    fn into_ws_sync(self) -> Result<websocket::server::upgrade::sync::Upgrade<Mock>, (Mock, Option<Request>, Option<websocket::server::upgrade::sync::Buffer>, HyperIntoWsError)> {
        IntoWs::into_ws(self)
    }
}

fn judge(r: &Rq, entries: &[usize], c: &mut Case) -> Res {
    let want = verdict(r);
    let bytes = r.bytes();
    c.state(&hash_of(&bytes));
    let mut first: Option<Result<(), Why>> = None;
    for &e in entries {
        let got = decide(e, &bytes, c).map_err(|x| format!("{}: {}", ENTRIES[e], x))?;
        match (&want, &got) {
            (None, _) => {}
            (Some(w), Ok(())) => ensure!(w.is_empty(), "{}: request accepted but it fails requirement {:?}", ENTRIES[e], w),
            (Some(w), Err(g)) => {
                ensure!(!w.is_empty(), "{}: valid request refused ({:?})", ENTRIES[e], g);
                ensure!(w.contains(g), "{}: refused for {:?}, but the first failed requirement is {:?}", ENTRIES[e], g, w);
            }
        }
        match &first {
            None => first = Some(got.clone()),
            Some(f) => ensure!(*f == got, "entry points disagree: {:?} but {} says {:?}", f, ENTRIES[e], got),
        }
        c.trace(&(e, &got));
    }
    Ok(())
}

fn lines(name: &str, vals: &[&[u8]], o: &mut Vec<(String, Vec<u8>)>) {
    for v in vals {
        o.push((name.to_string(), v.to_vec()));
    }
}

type V = &'static [&'static [u8]];
const VERSIONS: &[V] = &[
    &[b"13"],
    &[],
    &[b"8"],
    &[b"14"],
    &[b"013"],
    &[b"1"],
    &[b"133"],
    &[b"x"],
    &[b"13.0"],
    &[b"8", b"13"],
    &[b"13", b"8"],
    &[b"13 "],
    &[b"8, 13"],
    &[b"-13"],
    &[b"\xff\xfe"],
    &[b"7", b"7"],
];
const KEYS_V: &[V] = &[
    &[b"dGhlIHNhbXBsZSBub25jZQ=="],
    &[],
    &[b"dGhlIHNhbXBsZSBub25j"],
    &[b"dGhlIHNhbXBsZSBub25jZXg="],
    &[b"AAAAAAAAAAAAAAAAAAAAAA=="],
    &[b"/////////////////////w=="],
    &[b"dGhlIHNhbXBsZSBub25jZQ=!"],
    &[b"!GhlIHNhbXBsZSBub25jZQ=="],
    &[b"dGhlIHNhbXBsZSBub25jZQ==", b"AAAAAAAAAAAAAAAAAAAAAA=="],
    &[b"x"],
    &[b"dGhlIHNhbXBsZSBub25jZXhhYmM="],
    &[b"dGhl IHNhbXBsZSBub25jZQ=="],
    &[b"\xc3\x28"],
    &[b"dGhlIHNhbXBsZSBub25jZQ==,dGhlIHNhbXBsZSBub25jZQ=="],
    &[b"   dGhlIHNhbXBsZSBub25jZQ==   "],
    &[b"+/+/+/+/+/+/+/+/+/+/+w=="],
];
const UPGRADES: &[V] = &[
    &[b"websocket"],
    &[],
    &[b"WebSocket"],
    &[b"WEBSOCKET"],
    &[b"h2c, websocket"],
    &[b"websocket, h2c"],
    &[b"h2c", b"websocket"],
    &[b"h2c"],
    &[b"websockets"],
    &[b"xwebsocket"],
    &[b"web socket"],
    &[b","],
    &[b"\xff"],
    &[b"h2c,TLS/1.0 ,  WebSOCKET  ,foo/2"],
    &[b"websocket;q=1"],
    &[b"TLS/1.0", b"h2c, foo"],
];
const CONNS: &[V] = &[
    &[b"Upgrade"],
    &[],
    &[b"upgrade"],
    &[b"UPGRADE"],
    &[b"keep-alive, Upgrade"],
    &[b"Upgrade, keep-alive"],
    &[b"keep-alive,Upgrade,foo"],
    &[b"keep-alive", b"Upgrade"],
    &[b"keep-alive"],
    &[b"close"],
    &[b"upgraded"],
    &[b"up grade"],
    &[b","],
    &[b"\xff\xfe"],
    &[b"close, uPGRADE"],
    &[b"Keep-Alive, close"],
];
const METHODS: [&str; 9] = ["GET", "POST", "HEAD", "get", "OPTIONS", "CONNECT", "PUT", "GETX", "PATCH"];

pub fn c09(x: &Ctx) {
    x.assume("not judged: non-canonical base64 keys, identical repeated keys, repeated or listed version 13, 'websocket/<version>' upgrade tokens");
    x.bound("9 methods x 2 HTTP versions x 16 WebSocket-version x 16 key x 16 Upgrade x 16 Connection header variants (absent, lists, repeated lines, cases, near misses, non-UTF-8), 5 entry points");
    let nm = METHODS.len();
    let full = 16 * 16 * 16 * 16u64;
    x.section("product", full * x.tier(3, 18), |c, i| {
        let mut ix = Ix(i);
        let mut l = vec![("Host".to_string(), b"example.com".to_vec())];
        let u = ix.pick(UPGRADES);
        let n = ix.pick(CONNS);
        let k = ix.pick(KEYS_V);
        let v = ix.pick(VERSIONS);
        lines("Upgrade", u, &mut l);
        lines("Connection", n, &mut l);
        lines("Sec-WebSocket-Key", k, &mut l);
        lines("Sec-WebSocket-Version", v, &mut l);
        let (m, h) = match ix.0 {
            0 => ("GET", "HTTP/1.1"),
            1 => ("GET", "HTTP/1.0"),
            k => (METHODS[(k / 2) as usize], if k % 2 == 0 { "HTTP/1.1" } else { "HTTP/1.0" }),
        };
        let r = Rq { method: m.into(), target: "/chat".into(), version: h.into(), lines: l };
        c.note = String::from_utf8_lossy(&r.bytes()).into_owned();
        judge(&r, &[0, 1, 2, 3, 4], c)
    });
    // methods and versions against a smaller set of the rest
    x.section("methods", (nm * 2 * 4 * 4 * 4 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let mut l = vec![];
        lines("Upgrade", UPGRADES[[0, 1, 5, 7][ix.take(4)]], &mut l);
        lines("Connection", CONNS[[0, 1, 4, 8][ix.take(4)]], &mut l);
        lines("Sec-WebSocket-Key", KEYS_V[[0, 1, 2, 4][ix.take(4)]], &mut l);
        lines("Sec-WebSocket-Version", VERSIONS[[0, 1, 2, 7][ix.take(4)]], &mut l);
        let version = ["HTTP/1.1", "HTTP/1.0"][ix.take(2)];
        let r = Rq { method: METHODS[ix.take(nm)].into(), target: "/".into(), version: version.into(), lines: l };
        c.note = String::from_utf8_lossy(&r.bytes()).into_owned();
        judge(&r, &[0, 1, 2, 3, 4], c)
    });
    // token lists
    x.bound("Upgrade and Connection values: all token sequences up to length 4 (5) over 6 tokens, joined by commas or split over header lines");
    let depth = x.tier(4, 6);
    let n = seq_count(6, depth);
    x.section("token-lists", n * 2 * 3, |c, i| {
        let mut ix = Ix(i);
        let conn = ix.take(2) == 1;
        let split = ix.take(3);
        let alpha = if conn { ["keep-alive", "Upgrade", "upgrad", "", "close", "uPgrade"] } else { ["h2c", "websocket", "websocke", "", "foo/1.0", "WebSocket"] };
        let t: Vec<&str> = seq_of(6, ix.0).iter().map(|k| alpha[*k]).collect();
        let vals: Vec<String> = match split {
            0 => vec![t.join(", ")],
            1 => t.iter().map(|x| x.to_string()).collect(),
            _ => {
                let (a, b) = t.split_at(t.len() / 2);
                vec![a.join(","), b.join(" , ")]
            }
        };
        let mut l = vec![];
        for v in &vals {
            l.push((if conn { "Connection" } else { "Upgrade" }.to_string(), v.as_bytes().to_vec()));
        }
        lines(if conn { "Upgrade" } else { "Connection" }, &[if conn { b"websocket" as &[u8] } else { b"Upgrade" }], &mut l);
        lines("Sec-WebSocket-Key", &[KEY.as_bytes()], &mut l);
        let r = Rq { method: "GET".into(), target: "/".into(), version: "HTTP/1.1".into(), lines: l };
        c.note = String::from_utf8_lossy(&r.bytes()).into_owned();
        judge(&r, &[0, 1, 2, 3, 4], c)
    });
    // one edit away
    x.bound("Upgrade, Connection, key, version and method values one edit away from right ones: every replacement by each of the bytes 0x21-0xff, every removal, insertion of each, doubling, swap, truncation; two look-alike letters outside ASCII");
    let bases: [(&str, &str); 7] = [("Upgrade", "websocket"), ("Upgrade", "h2c, WebSocket"), ("Connection", "upgrade"), ("Connection", "keep-alive, Upgrade"), ("Sec-WebSocket-Key", KEY), ("Sec-WebSocket-Version", "13"), ("", "GET")];
    x.section("near-misses", (7 * 25 * (223 * 2 + 6)) as u64, |c, i| {
        let mut ix = Ix(i);
        let (name, base) = bases[ix.take(7)];
        let at = ix.take(25);
        let edit = ix.0 as usize;
        if at >= base.len() {
            return Ok(());
        }
        let mut v = base.as_bytes().to_vec();
        match edit {
            0 => {
                v.remove(at);
            }
            1 => v.insert(at, v[at]),
            2 => v.swap(at, (at + 1).min(base.len() - 1)),
            3 => v.truncate(at),
            4 => {
                v.splice(at..at + 1, "\u{212a}".bytes());
            }
            5 => {
                v.splice(at..at + 1, "\u{17f}".bytes());
            }
            e if e < 6 + 223 => v[at] = (e - 6 + 0x21) as u8,
            e => v.insert(at, (e - 6 - 223 + 0x21) as u8),
        }
        if v.contains(&0x7f) {
            // not a head
            return Ok(());
        }
        let mut l = vec![];
        let mut method = "GET".to_string();
        for (n, d) in &[("Upgrade", "websocket"), ("Connection", "Upgrade"), ("Sec-WebSocket-Key", KEY), ("Sec-WebSocket-Version", "13")] {
            l.push((n.to_string(), if *n == name { v.clone() } else { d.as_bytes().to_vec() }));
        }
        if name.is_empty() {
            if v.is_empty() || !v.iter().all(|b| is_tchar(*b)) {
                return Ok(());
            }
            method = String::from_utf8_lossy(&v).into_owned();
        }
        let r = Rq { method, target: "/".into(), version: "HTTP/1.1".into(), lines: l };
        c.note = String::from_utf8_lossy(&r.bytes()).into_owned();
        judge(&r, &[0, 1, 2, 3, 4], c)
    });
    x.bound("every version number 0..=999 and around powers of two to 2^64, with leading zeros, signs and spaces; keys of every decoded length 0..64 and every byte value at every position");
    x.section("versions", 1100 * 5, |c, i| {
        let mut ix = Ix(i);
        let form = ix.take(5);
        let n = ix.0;
        let n: u128 = if n < 1000 { n as u128 } else { (1u128 << ((n - 1000) * 2 / 3).min(64)) + [0u128, 13, 1][(n % 3) as usize] };
        let t = match form {
            0 => format!("{}", n),
            1 => format!("0{}", n),
            2 => format!("+{}", n),
            3 => format!("{}x", n),
            _ => format!("{} 3", n),
        };
        let mut l = vec![];
        lines("Upgrade", &[b"websocket"], &mut l);
        lines("Connection", &[b"Upgrade"], &mut l);
        lines("Sec-WebSocket-Version", &[t.as_bytes()], &mut l);
        lines("Sec-WebSocket-Key", &[KEY.as_bytes()], &mut l);
        let r = Rq { method: "GET".into(), target: "/".into(), version: "HTTP/1.1".into(), lines: l };
        c.note = String::from_utf8_lossy(&r.bytes()).into_owned();
        judge(&r, &[0, 1, 2, 3, 4], c)
    });
    x.section("keys", 65 * 3 + 256 * 16, |c, i| {
        let k: Vec<u8> = if i < 65 * 3 {
            pat((i / 3) as usize, i as usize)
        } else {
            let j = i as usize - 65 * 3;
            let mut k = patb(16, 3);
            k[j % 16] = (j / 16) as u8;
            k
        };
        let t = b64(&k);
        let t = match i < 65 * 3 {
            true => [t.clone(), t.trim_end_matches('=').to_string(), format!("{}=", t)][(i % 3) as usize].clone(),
            false => t,
        };
        let mut l = vec![];
        lines("Upgrade", &[b"websocket"], &mut l);
        lines("Connection", &[b"Upgrade"], &mut l);
        lines("Sec-WebSocket-Key", &[t.as_bytes()], &mut l);
        let r = Rq { method: "GET".into(), target: "/".into(), version: "HTTP/1.1".into(), lines: l };
        c.note = String::from_utf8_lossy(&r.bytes()).into_owned();
        judge(&r, &[0, 1, 2, 3, 4], c)
    });
    // long lists, many and large headers
    let counts: Vec<usize> = (0..96).collect();
    let values: Vec<usize> = (0..60).chain(crate::rx::sizes_around_powers(1 << 16).into_iter().filter(|n| *n >= 60)).collect();
    let nv = values.len().max(counts.len());
    x.bound("Upgrade and Connection lists of up to 300 tokens with the token first, in the middle or last, in one, two or many lines; up to 95 further headers before or after; values, names and targets to 64 KB; valid and each single violation");
    x.section("large", (nv * 10 * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let broken = ix.take(6);
        let shape = ix.take(10);
        let k = ix.0 as usize;
        let n = match if shape == 3 || shape == 4 { counts.get(k) } else { values.get(k) } {
            Some(n) => *n,
            None => return Ok(()),
        };
        if shape < 3 && n > 300 || shape == 2 && n > 40 || broken == 5 && shape != 3 {
            return Ok(());
        }
        let list = |right: &str, near: &str, bad: bool| -> Vec<Vec<u8>> {
            let mut t: Vec<String> = (0..n.min(300)).map(|k| format!("{}{}", if k % 5 == 0 { near } else { "t" }, k)).collect();
            if shape < 3 {
                if !bad {
                    let at = [0, t.len() / 2, t.len()][n % 3];
                    t.insert(at, right.into());
                } else if t.is_empty() {
                    t.push(near.to_string() + "x");
                }
            } else {
                t = vec![if bad { format!("{}x", near) } else { right.to_string() }];
            }
            match shape {
                1 => {
                    let (a, b) = t.split_at((t.len() + 1) / 2);
                    if b.is_empty() {
                        vec![a.join(",").into_bytes()]
                    } else {
                        vec![a.join(",").into_bytes(), b.join(" , ").into_bytes()]
                    }
                }
                2 => t.iter().map(|x| x.clone().into_bytes()).collect(),
                _ => vec![t.join(", ").into_bytes()],
            }
        };
        let mut l: Vec<(String, Vec<u8>)> = vec![];
        let fill = |l: &mut Vec<(String, Vec<u8>)>| {
            for k in 0..n {
                l.push((format!("X-Upgrade-{}", k), b"websocket".to_vec()));
            }
        };
        if shape == 3 {
            fill(&mut l);
        }
        for v in list("WebSocket", "websocket2", broken == 1) {
            l.push(("Upgrade".into(), v));
        }
        for v in list("UpGrade", "upgrades", broken == 2) {
            l.push(("Connection".into(), v));
        }
        l.push(("Sec-WebSocket-Key".into(), if broken == 3 { b64(&pat(15, 1)) } else { KEY.into() }.into_bytes()));
        l.push(("Sec-WebSocket-Version".into(), if broken == 4 { "8" } else { "13" }.into()));
        let w: String = (0..n).map(|k| (b'a' + (k * 7 % 26) as u8) as char).collect();
        let mut target = "/".to_string();
        match shape {
            4 => fill(&mut l),
            5 => l.insert(0, ("X-Long".into(), w.into_bytes())),
            6 => l.push(("X-Long".into(), w.into_bytes())),
            7 => target = format!("/{}", w),
            8 => target = format!("/?{}", w),
            9 => l.push((format!("X{}", w), b"v".to_vec())),
            _ => {}
        }
        let r = Rq { method: if broken == 5 { "POST" } else { "GET" }.into(), target, version: "HTTP/1.1".into(), lines: l };
        c.note = format!("shape {} of {} broken {}", ["one list", "two lists", "a line per token", "headers before", "headers after", "value first", "value last", "path", "query", "name"][shape], n, broken);
        judge(&r, &[0, 1, 2, 3, 4], c)
    });
    // requests given directly as values, including HTTP versions a parser cannot produce
    x.bound("HTTP versions 0.9, 1.0, 1.1 and 2.0 through the entry points that take parsed requests");
    x.section("parsed-requests", (9 * 4 * 3 * 3 * 3 * 3) as u64, |c, i| {
        use hyper::version::HttpVersion::*;
        let mut ix = Ix(i);
        let m = METHODS[ix.take(9)];
        let (v, vs) = [(Http09, "HTTP/0.9"), (Http10, "HTTP/1.0"), (Http11, "HTTP/1.1"), (Http20, "HTTP/2.0")][ix.take(4)];
        let mut l = vec![];
        lines("Upgrade", UPGRADES[[0, 1, 7][ix.take(3)]], &mut l);
        lines("Connection", CONNS[[0, 1, 8][ix.take(3)]], &mut l);
        lines("Sec-WebSocket-Key", KEYS_V[[0, 1, 2][ix.take(3)]], &mut l);
        lines("Sec-WebSocket-Version", VERSIONS[[0, 1, 2][ix.take(3)]], &mut l);
        let r = Rq { method: m.into(), target: "/".into(), version: vs.into(), lines: l };
        c.note = format!("{:?}", r);
        let want = verdict(&r);
        let mk = || -> Result<Request, String> {
            let mut h = Headers::new();
            for (n, val) in &r.lines {
                h.append_raw(n.clone(), val.clone());
            }
            Ok(hyper::http::h1::Incoming {
                version: v,
                subject: (m.parse().map_err(|_| format!("{}: method", HARNESS))?, hyper::uri::RequestUri::AbsolutePath("/".into())),
                headers: h,
            })
        };
        let io = Mock::new(vec![], Tail::Eof);
        for e in 0..2 {
            c.step();
            let got = if e == 0 {
                match RequestStreamPair(io.clone(), mk()?).into_ws() {
                    Ok(_) => Ok(()),
                    Err((_, rq, e)) => {
                        ensure!(rq.headers == mk()?.headers && rq.subject == mk()?.subject, "the refused request was changed");
                        Err(why(&e))
                    }
                }
            } else {
                let q = mk()?;
                validate(&q.subject.0, q.version, &q.headers).map_err(|e| why(&e))
            };
            ensure!(io.out().is_empty(), "bytes written before an answer");
            match (&want, &got) {
                (None, _) => {}
                (Some(w), Ok(())) => ensure!(w.is_empty(), "accepted but it fails requirement {:?}", w),
                (Some(w), Err(g)) => ensure!(w.contains(g), "refused for {:?}, expected {:?}", g, w),
            }
            c.trace(&(e, got));
        }
        c.state(&i);
        Ok(())
    });
    // spelling: header name case, order of the lines, optional whitespace, other headers
    x.bound("all orders of the 5 header lines x 4 spellings of names x 4 whitespace forms, valid and each single violation");
    x.section("spelling", 120 * 4 * 4 * 5, |c, i| {
        let mut ix = Ix(i);
        let perm = nth_perm(5, ix.take(120));
        let spell = ix.take(4);
        let ws = ix.take(4);
        let broken = ix.take(5);
        let mut l = vec![
            ("Upgrade", if broken == 1 { "h2c" } else { "foo, WebSocket" }),
            ("Connection", if broken == 2 { "keep-alive" } else { "keep-alive, upgrade" }),
            ("Sec-WebSocket-Key", if broken == 3 { "YWJj" } else { KEY }),
            ("Sec-WebSocket-Version", if broken == 4 { "12" } else { "13" }),
            ("X-Other", "Upgrade: websocket"),
        ];
        l = perm.iter().map(|p| l[*p]).collect();
        let mut b = b"GET /x?y=1 HTTP/1.1\r\n".to_vec();
        let mut ls = vec![];
        for (n, v) in l {
            let n = match spell {
                0 => n.to_string(),
                1 => n.to_ascii_lowercase(),
                2 => n.to_ascii_uppercase(),
                _ => n.chars().enumerate().map(|(i, ch)| if i % 2 == 0 { ch.to_ascii_lowercase() } else { ch.to_ascii_uppercase() }).collect(),
            };
            let (pre, post) = [(" ", ""), ("", ""), ("\t  ", " \t"), (" ", "  ")][ws];
            b.extend_from_slice(format!("{}:{}{}{}\r\n", n, pre, v, post).as_bytes());
            ls.push((n, v.as_bytes().to_vec()));
        }
        b.extend_from_slice(b"\r\n");
        let r = Rq { method: "GET".into(), target: "/".into(), version: "HTTP/1.1".into(), lines: ls };
        let want = verdict(&r).ok_or_else(|| HARNESS.to_string())?;
        c.note = String::from_utf8_lossy(&b).into_owned();
        c.state(&hash_of(&b));
        for e in 0..5 {
            let got = decide(e, &b, c)?;
            ensure!(
                match got {
                    Ok(()) => want.is_empty(),
                    Err(g) => want.contains(&g),
                },
                "{}: {:?}, expected {:?}",
                ENTRIES[e],
                got,
                want
            );
            c.trace(&(e, got));
        }
        Ok(())
    });
    // what an accepted upgrade reports about its request
    x.bound("accessors of an upgrade: request targets x protocol x extension x origin x version variants");
    let targets = ["/", "/chat?a=b%20c", "http://example.com/abs?x", "*", "/a;b/c,d"];
    let protos: &[(V, &[&str])] = &[(&[], &[]), (&[b"a"], &["a"]), (&[b"a, b"], &["a", "b"]), (&[b"a", b"b ,c"], &["a", "b", "c"])];
    let exts: &[(V, &[&str])] =
        &[(&[], &[]), (&[b"x"], &["x"]), (&[b"x; p=1; q, y"], &["x; p=1; q", "y"]), (&[b"x", b"y; z=\"1\""], &["x", "y; z=\"1\""])];
    x.section("accessors", (5 * 4 * 4 * 2 * 2 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let t = targets[ix.take(5)];
        let (pl, pw) = &protos[ix.take(4)];
        let (el, ew) = &exts[ix.take(4)];
        let origin = ix.take(2) == 1;
        let version = ix.take(2) == 1;
        let entry = ix.take(4);
        let mut l = vec![];
        lines("Upgrade", &[b"websocket"], &mut l);
        lines("Connection", &[b"Upgrade"], &mut l);
        lines("Sec-WebSocket-Key", &[KEY.as_bytes()], &mut l);
        lines("Sec-WebSocket-Protocol", pl, &mut l);
        lines("Sec-WebSocket-Extensions", el, &mut l);
        if origin {
            lines("Origin", &[b"http://o.example:81"], &mut l);
        }
        if version {
            lines("Sec-WebSocket-Version", &[b"13"], &mut l);
        }
        let b = Rq { method: "GET".into(), target: t.into(), version: "HTTP/1.1".into(), lines: l }.bytes();
        c.note = String::from_utf8_lossy(&b).into_owned();
        let io = Mock::with(&b, Tail::Eof);
        macro_rules! look {
            ($u:expr) => {{
                let u = $u;
                ensure!(u.protocols() == &pw[..], "protocols {:?}, sent {:?}", u.protocols(), pw);
                let e: Vec<String> = u.extensions().iter().map(|e| e.to_string()).collect();
                ensure!(e == *ew, "extensions {:?}, sent {:?}", e, ew);
                ensure!(u.key() == Some(&KEY_BYTES), "key {:?}", u.key());
                ensure!(u.uri() == t, "uri {:?} for {:?}", u.uri(), t);
                ensure!(u.origin() == if origin { Some("http://o.example:81") } else { None }, "origin {:?}", u.origin());
                ensure!(u.version().map(|v| v.to_string()) == if version { Some("13".to_string()) } else { None }, "version {:?}", u.version());
                c.trace(&(entry, e, u.uri()));
            }};
        }
        c.step();
        match entry {
            0 => look!(io.clone().into_ws_sync().map_err(|e| format!("refused {:?}", e.3))?),
            1 => look!(RequestStreamPair(io.clone(), parse(&b).map_err(|e| e.to_string())?).into_ws().map_err(|e| format!("refused {:?}", e.2))?),
            2 => {
                let mut m = io.clone();
                let ns: &mut dyn NetworkStream = &mut m;
                let mut br = BufReader::new(ns);
                let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| e.to_string())?;
                look!(HyperRequest(rq).into_ws().map_err(|e| format!("refused {:?}", e.1))?)
            }
            _ => look!(run_future(AIntoWs::into_ws(io.clone()), 1000)?.map_err(|e| format!("refused {:?}", e.3))?),
        }
        c.state(&i);
        Ok(())
    });
}
pub fn nth_perm(n: usize, mut i: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut o = vec![];
    for k in (1..=n).rev() {
        o.push(pool.remove(i % k));
        i /= k;
    }
    o
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Proto(&'static str),
    Ext(usize),
    Exts(&'static [usize]),
    Set(&'static str, &'static str),
    /// the response headers prepared ahead of answering, with the custom headers of this number
    Prepare(Option<usize>),
}
fn ext(k: usize) -> Extension {
    match k {
        0 => Extension::new("permessage-x".into()),
        1 => Extension {
            name: "y".into(),
            params: vec![Parameter::new("p".into(), Some("1".into())), Parameter::new("q".into(), None)],
        },
        3 => Extension { name: "AaA".into(), params: vec![Parameter::new("Zz".into(), Some("Vv".into())), Parameter::new("Aa".into(), Some("0".into())), Parameter::new("Zz".into(), None)] },
        _ => Extension { name: "z\r\nEvil: 1".into(), params: vec![Parameter::new("a\nb".into(), Some("\r\n\r\nx".into()))] },
    }
}
const OPS: &[Op] = &[
    Op::Proto("chat"),
    Op::Proto("SuperChat"),
    Op::Proto("p\r\nEvil: 1\r\n\r\nbody"),
    Op::Ext(0),
    Op::Exts(&[1, 0, 3, 1]),
    Op::Ext(2),
    Op::Set("X-Set", "set"),
    Op::Set("Connection", "close"),
    Op::Exts(&[]),
];
/// custom headers given when answering: (name, values)
const CUSTOM: &[&[(&str, &[&str])]] = &[
    &[],
    &[("X-A", &["1"]), ("Set-Cookie", &["a=b", "c=d"])],
    &[("Connection", &["close"]), ("Upgrade", &["h2c"]), ("X-A", &["1"])],
    &[("Sec-WebSocket-Accept", &["AAAAAAAAAAAAAAAAAAAAAAAAAAA="])],
    &[("X-Empty", &[""]), ("x-case", &["VaLue"]), ("Sec-WebSocket-Protocol", &["own"]), ("Server", &["s"])],
    &[("X-Crlf", &["v\r\nEvil: 1\r\n\r\nbody", "\nx"])],
    &[("X-Set", &["over"]), ("Content-Length", &["7"]), ("X-Long", &["llllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll"])],
];
fn headers_of(k: &[(&str, &[&str])]) -> Headers {
    let mut h = Headers::new();
    for (n, vs) in k {
        for v in *vs {
            h.append_raw(n.to_string(), v.as_bytes().to_vec());
        }
    }
    h
}
fn history(v: Vec<usize>) -> Vec<Op> {
    v.into_iter().map(|i| OPS[i]).collect()
}
fn flat(s: &str) -> String {
    s.replace(|c| c == '\r' || c == '\n', " ")
}
fn squeeze(s: &str) -> String {
    flat(s).split_whitespace().collect::<Vec<_>>().join(" ")
}

/// header lines (lower-cased name, normalised value) that must be present, exactly
fn expect_headers(ops: &[Op], custom: &[(&str, &[&str])], accept: Option<&str>) -> Vec<(String, String)> {
    let mut m: Vec<(String, Vec<String>)> = vec![];
    let mut set = |n: &str, v: Vec<String>| {
        m.retain(|(k, _)| !k.eq_ignore_ascii_case(n));
        m.push((n.to_ascii_lowercase(), v));
    };
    let mut protos: Vec<String> = vec![];
    let mut exts: Vec<String> = vec![];
    let mut has_e = false;
    let mut has_p = false;
    let show = |e: &Extension| {
        let mut s = e.name.clone();
        for p in &e.params {
            s += &format!("; {}", p.name);
            if let Some(v) = &p.value {
                s += &format!("={}", v);
            }
        }
        s
    };
    for o in ops {
        match *o {
            Op::Proto(p) => {
                has_p = true;
                protos.push(p.into())
            }
            Op::Ext(k) => {
                has_e = true;
                exts.push(show(&ext(k)))
            }
            Op::Exts(ks) => {
                has_e = true;
                exts.extend(ks.iter().map(|k| show(&ext(*k))))
            }
            Op::Set(n, v) => set(n, vec![v.into()]),
            Op::Prepare(k) => {
                for (n, vs) in CUSTOM[k.unwrap_or(0)] {
                    set(n, vs.iter().map(|s| s.to_string()).collect());
                }
            }
        }
    }
    if has_p {
        set("sec-websocket-protocol", vec![protos.join(", ")]);
    }
    if has_e {
        set("sec-websocket-extensions", vec![exts.join(", ")]);
    }
    for (n, vs) in custom {
        set(n, vs.iter().map(|s| s.to_string()).collect());
    }
    if let Some(a) = accept {
        set("sec-websocket-accept", vec![a.into()]);
        set("connection", vec!["Upgrade".into()]);
        set("upgrade", vec!["websocket".into()]);
    }
    let mut o: Vec<(String, String)> = m.into_iter().flat_map(|(n, vs)| vs.into_iter().map(move |v| (n.clone(), squeeze(&v)))).collect();
    o.sort();
    o
}
/// Compare a response head with the expectation; returns its length.
fn check_response(out: &[u8], status: u16, want: &[(String, String)]) -> Result<usize, String> {
    let h = parse_head(out)?;
    ensure!(h.start.starts_with(&format!("HTTP/1.1 {} ", status)), "status line {:?}, expected status {}", h.start, status);
    let mut got: Vec<(String, String)> = h.headers.iter().map(|(n, v)| (n.to_ascii_lowercase(), squeeze(v))).collect();
    got.sort();
    // tokens of the confirmation compare without case
    let norm = |v: &[(String, String)]| -> Vec<(String, String)> {
        v.iter()
            .filter(|(n, x)| !(n == "sec-websocket-extensions" && x.is_empty()))
            .map(|(n, x)| if n == "connection" || n == "upgrade" { (n.clone(), x.to_ascii_lowercase()) } else { (n.clone(), x.clone()) })
            .map(|(n, x)| (n, x.replace(", ", ",").replace(" ,", ",")))
            .collect()
    };
    let (mut g, mut w) = (norm(&got), norm(want));
    g.sort();
    w.sort();
    ensure!(g == w, "response headers {:?}, expected {:?}", g, w);
    Ok(h.len)
}

macro_rules! apply {
    ($u:expr, $ops:expr) => {{
        let mut u = $u;
        for o in $ops.iter() {
            u = match *o {
                Op::Proto(p) => u.use_protocol(p),
                Op::Ext(k) => u.use_extension(ext(k)),
                Op::Exts(ks) => u.use_extensions(crate::cli::hinted(ks.iter().map(|k| ext(*k)), $ops.len() / 2)),
                Op::Set(n, v) => {
                    u.headers.set_raw(n, vec![v.as_bytes().to_vec()]);
                    u
                }
                Op::Prepare(k) => {
                    let h = k.map(|k| headers_of(CUSTOM[k]));
                    let st = u.prepare_headers(h.as_ref());
                    ensure!(st.to_u16() == 101, "prepared status {}", st);
                    u
                }
            };
        }
        u
    }};
}
fn key_request(key: &str, entry_tail: &[u8]) -> Vec<u8> {
    let mut v = format!(
        "GET /x HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {}\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: chat, superchat\r\n\r\n",
        key
    )
    .into_bytes();
    v.extend_from_slice(entry_tail);
    v
}
const FINISH: usize = 6;
const FNAMES: [&str; FINISH] = ["accept", "accept_with", "accept_with_limits", "accept_with_headers_and_limits", "reject", "reject_with"];

/// One complete answer on one entry point: response compared, then a frame each way, or the returned stream used.
fn answer(entry: usize, key: &str, ops: &[Op], fin: usize, custom: &[(&str, &[&str])], maxw: usize, c: &mut Case) -> Res {
    let peer_frame = fr(true, 1, b"pipelined").to(true, 1).bytes();
    let io = Mock::with(&key_request(key, &peer_frame), Tail::WouldBlock).max_write(maxw);
    let lim = (1usize << 16, 1usize << 17);
    let uses_custom = fin == 1 || fin == 3 || fin == 5;
    let custom = if uses_custom { custom } else { &[] };
    let hs = headers_of(custom);
    let accepting = fin < 4;
    let acc = accept_for(key);
    let want = expect_headers(ops, custom, if accepting { Some(&acc) } else { None });
    let hello = OwnedMessage::Text("hello".into());
    c.step();
    macro_rules! sync_answer {
        ($up:expr) => {{
            let u = apply!($up, ops);
            ensure!(io.out().is_empty(), "bytes written before the answer was given");
            if accepting {
                let r = match fin {
                    0 => u.accept(),
                    1 => u.accept_with(&hs),
                    2 => u.accept_with_limits(lim.0, lim.1),
                    _ => u.accept_with_headers_and_limits(&hs, lim.0, lim.1),
                };
                let mut cl = r.map_err(|(_, e)| format!("accept failed: {:?}", e))?;
                let n = check_response(&io.out(), 101, &want)?;
                ensure!(n == io.out().len(), "bytes after the response head: {}", hex(&io.out()[n..]));
                if entry != 1 {
                    let m = cl.recv_message().map_err(|e| format!("pipelined frame lost: {:?}", e))?;
                    ensure!(m == OwnedMessage::Text("pipelined".into()), "received {}", show_msg(&m));
                }
                cl.send_message(&hello).map_err(|e| format!("send: {:?}", e))?;
                ensure!(io.out()[n..] == fr(true, 1, b"hello").bytes()[..], "frame after the response: {}", hex(&io.out()[n..]));
            } else {
                let r = if fin == 4 { u.reject() } else { u.reject_with(&hs) };
                let mut s = r.map_err(|(_, e)| format!("reject failed: {:?}", e))?;
                let n = check_response(&io.out(), 400, &want)?;
                ensure!(n == io.out().len(), "bytes after the response head");
                use std::io::Write;
                s.write_all(b"after").map_err(|e| e.to_string())?;
                ensure!(io.out().ends_with(b"after"), "the returned stream is not the original one");
            }
        }};
    }
    match entry {
        0 => sync_answer!(io.clone().into_ws_sync().map_err(|e| format!("refused {:?}", e.3))?),
        1 => {
            let rq = parse(&key_request(key, b"")).map_err(|e| e.to_string())?;
            sync_answer!(RequestStreamPair(io.clone(), rq).into_ws().map_err(|e| format!("refused {:?}", e.2))?)
        }
        2 => {
            let mut m = io.clone();
            let ns: &mut dyn NetworkStream = &mut m;
            let mut br = BufReader::new(ns);
            let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| e.to_string())?;
            sync_answer!(HyperRequest(rq).into_ws().map_err(|e| format!("refused {:?}", e.1))?)
        }
        _ => {
            let u = run_future(AIntoWs::into_ws(io.clone()), 1000)?.map_err(|e| format!("refused {:?}", e.3))?;
            let u = apply!(u, ops);
            ensure!(io.out().is_empty(), "bytes written before the answer was given");
            if accepting {
                let f = match fin {
                    0 => u.accept(),
                    1 => u.accept_with(&hs),
                    2 => u.accept_with_limits(lim.0, lim.1),
                    _ => u.accept_with_headers_and_limits(&hs, lim.0, lim.1),
                };
                let (cl, _) = run_future(f, 100_000)?.map_err(|e| format!("accept failed: {:?}", e))?;
                let n = check_response(&io.out(), 101, &want)?;
                ensure!(n == io.out().len(), "bytes after the response head: {}", hex(&io.out()[n..]));
                let mut s = futures::executor::spawn(cl);
                let o = poll_stream(&mut s, 1, c);
                ensure!(
                    o.first().map_or(false, |o| matches!(o, Obs::Msg(OwnedMessage::Text(t)) if t == "pipelined")),
                    "pipelined frame: {}",
                    show_obs(&o)
                );
                run_future(s.into_inner().send(hello), 100_000)?.map_err(|e| format!("send: {:?}", e))?;
                ensure!(io.out()[n..] == fr(true, 1, b"hello").bytes()[..], "frame after the response: {}", hex(&io.out()[n..]));
            } else {
                let f = if fin == 4 { u.reject() } else { u.reject_with(&hs) };
                let fr = run_future(f.map(|f| f.into_parts()), 100_000)?.map_err(|e| format!("reject failed: {:?}", e))?;
                let n = check_response(&io.out(), 400, &want)?;
                ensure!(n == io.out().len(), "bytes after the response head");
                ensure!(fr.read_buf == &peer_frame[..], "bytes received with the request are lost on reject");
                let mut s = fr.io;
                use std::io::Write;
                s.write_all(b"after").map_err(|e| e.to_string())?;
                ensure!(io.out().ends_with(b"after"), "the returned stream is not the original one");
            }
        }
    }
    c.state(&(entry, key, hash_of(&format!("{:?}", ops)), fin, custom, maxw));
    c.trace(&(entry, fin, want));
    Ok(())
}

pub fn c10(x: &Ctx) {
    x.bound("operation sequences on the upgrade up to length 4 (5) over 9 operations (protocols, extensions, raw headers, strings with line breaks) x 6 ways to answer x 6 custom header sets x 4 entry points");
    let depth = x.tier(4, 5);
    let n = seq_count(OPS.len(), depth);
    x.section("answers", n * (FINISH * CUSTOM.len() * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(4);
        let custom = ix.take(CUSTOM.len());
        let fin = ix.take(FINISH);
        if custom != 0 && !(fin == 1 || fin == 3 || fin == 5) {
            return Ok(());
        }
        let ops = history(seq_of(OPS.len(), ix.0));
        c.note = format!("{}: {:?} then {} custom {:?}", ENTRIES[entry], ops, FNAMES[fin], CUSTOM[custom]);
        answer(entry, KEY, &ops, fin, CUSTOM[custom], usize::MAX, c)
    });
    // prepared ahead of time, any number of times
    x.bound("operation sequences up to length 4 (5) that also prepare the response headers ahead of answering, with and without custom headers");
    let pops = [Op::Prepare(None), Op::Prepare(Some(1)), Op::Prepare(Some(3)), Op::Proto("chat"), Op::Ext(1), Op::Set("X-Set", "set"), Op::Set("Connection", "close")];
    x.section("prepared", seq_count(7, x.tier(4, 5)) * 4 * 4 * 3, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(4);
        let fin = ix.take(4);
        let custom = [0, 2, 4][ix.take(3)];
        if custom != 0 && fin % 2 == 0 {
            return Ok(());
        }
        let ops: Vec<Op> = seq_of(7, ix.0).into_iter().map(|k| pops[k]).collect();
        c.note = format!("{}: {:?} then {} custom {:?}", ENTRIES[entry], ops, FNAMES[fin], CUSTOM[custom]);
        answer(entry, KEY, &ops, fin, CUSTOM[custom], usize::MAX, c)
    });
    // the accept value of other keys, and transports that take few bytes per write
    x.bound("each of the 256 values at each of the 16 bytes of the key, over three keys; write chunks of 1, 2, 7, 64 bytes");
    let keys: Vec<String> = (0..16usize * 3)
        .flat_map(|p| {
            (0..=255u8).map(move |v| {
                let mut k = [*b"0123456789abcdef", [0; 16], [255; 16]][p / 16];
                k[p % 16] = v;
                b64(&k)
            })
        })
        .collect();
    x.section("keys", (keys.len() * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(4);
        let key = &keys[ix.take(keys.len())];
        c.note = format!("{}: key {}", ENTRIES[entry], key);
        answer(entry, key, &[], 0, &[], usize::MAX, c)
    });
    let lens: Vec<usize> = (5..40).chain(crate::rx::sizes_around_powers(x.tier(512, 2048)).into_iter().filter(|n| *n >= 40)).collect();
    x.bound(&format!("operation histories of every length 5..40 and around powers of two to {}: strides through the operations from every start, and each operation repeated; 6 ways to answer", x.tier(512, 2048)));
    let strides = [0usize, 1, 2, 4, 5, 7];
    x.section("answers/long", (lens.len() * OPS.len() * strides.len() * FINISH * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(4);
        let fin = ix.take(FINISH);
        let s = strides[ix.take(strides.len())];
        let start = ix.take(OPS.len());
        let n = lens[ix.0 as usize];
        if n > 60 && (start + s + fin + entry) % 4 != 0 {
            return Ok(());
        }
        let ops: Vec<Op> = (0..n).map(|k| OPS[(start + k * s) % OPS.len()]).collect();
        let custom = n % CUSTOM.len();
        c.note = format!("{}: {} operations from {} in steps of {}, then {} custom {}", ENTRIES[entry], n, start, s, FNAMES[fin], custom);
        answer(entry, KEY, &ops, fin, CUSTOM[custom], usize::MAX, c)
    });
    let ls: Vec<usize> = (0..130).chain(crate::rx::sizes_around_powers(x.tier(1 << 16, 1 << 19)).into_iter().filter(|n| *n >= 130)).collect();
    x.bound(&format!("protocol, custom value, custom name and raw header value of every length to 130 and around powers of two to {}, the same numbers (to 1100) of protocols, custom headers and values of one header; write chunks of 1000 bytes or none", x.tier(1 << 16, 1 << 19)));
    x.section("sizes", (ls.len() * 7 * FINISH * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(4);
        let fin = ix.take(FINISH);
        let what = ix.take(7);
        let n = ls[ix.0 as usize];
        if what >= 4 && n > 1100 || n == 0 && what != 1 || (what == 1 || what == 2 || what >= 5) && !(fin == 1 || fin == 3 || fin == 5) {
            return Ok(());
        }
        let w: String = (0..n).map(|k| (b'A' + (k * 7 % 26) as u8 + if k % 3 == 0 { 0 } else { 32 }) as char).collect();
        c.note = format!("{}: {} of {} then {}", ENTRIES[entry], ["protocol", "custom value", "custom name", "raw value", "protocols", "custom headers", "values of one header"][what], n, FNAMES[fin]);
        let chunk = if n % 3 == 0 { 1000 } else { usize::MAX };
        let names: Vec<String> = (0..n).map(|k| format!("X-{}", k * 613 % (n + 11))).collect();
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        match what {
            0 => answer(entry, KEY, &[Op::Proto("a"), Op::Proto(leak(w)), Op::Proto("z")], fin, &[], chunk, c),
            1 => answer(entry, KEY, &[], fin, &[("X-Before", &["b"]), ("X-Long", &[&w]), ("X-After", &["a"])], chunk, c),
            2 => answer(entry, KEY, &[], fin, &[(&w, &["v"])], chunk, c),
            3 => answer(entry, KEY, &[Op::Set("X-Set", leak(w)), Op::Proto("z")], fin, &[], chunk, c),
            4 => answer(entry, KEY, &names.into_iter().map(|s| Op::Proto(leak(s))).collect::<Vec<_>>(), fin, &[], chunk, c),
            5 => {
                let l: Vec<(&str, &[&str])> = names.iter().take(600).map(|n| (&n[..], &["v"] as &[&str])).collect();
                answer(entry, KEY, &[], fin, &l, chunk, c)
            }
            _ => {
                let l: Vec<&str> = names.iter().map(|n| &n[..]).collect();
                answer(entry, KEY, &[], fin, &[("Set-Cookie", &l[..])], chunk, c)
            }
        }
    });
    x.section("short-writes", (4 * 4 * FINISH * CUSTOM.len() * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(4);
        let w = [1, 2, 7, 64][ix.take(4)];
        let fin = ix.take(FINISH);
        let custom = ix.take(CUSTOM.len());
        let ops: &[Op] = &history([vec![], vec![0, 1], vec![3, 4], vec![2, 5]][ix.take(4)].clone());
        c.note = format!("{}: {} custom {} ops {:?} writes of {}", ENTRIES[entry], FNAMES[fin], custom, ops, w);
        answer(entry, KEY, ops, fin, CUSTOM[custom], w, c)
    });
    // write failures: the error is reported, the stream comes back, what was written is a prefix
    x.bound("a write error or a write of zero bytes at every byte of the response");
    x.section("write-errors", 400 * 3 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let entry = [0, 1, 3][ix.take(3)];
        let acc = ix.take(2) == 0;
        let kind = ix.take(2);
        let at = ix.take(400);
        let mut full = vec![];
        for pass in 0..2 {
            let io = Mock::with(&key_request(KEY, b""), Tail::WouldBlock).max_write(1);
            if pass == 1 {
                if at >= full.len() {
                    return Ok(());
                }
                io.st().wscript = (0..at)
                    .map(|_| Ok(1))
                    .chain(std::iter::once(if kind == 0 { Err(std::io::ErrorKind::ConnectionReset) } else { Ok(0) }))
                    .collect();
                io.st().wtail = Some(std::io::ErrorKind::BrokenPipe);
            }
            c.step();
            let ok = if entry == 3 {
                let u = run_future(AIntoWs::into_ws(io.clone()), 1000)?.map_err(|e| format!("refused {:?}", e.3))?;
                if acc {
                    run_future(u.accept(), 10_000)?.is_ok()
                } else {
                    run_future(u.reject(), 10_000)?.is_ok()
                }
            } else {
                let u = if entry == 0 {
                    io.clone().into_ws_sync().map_err(|e| format!("refused {:?}", e.3))?
                } else {
                    let rq = parse(&key_request(KEY, b"")).map_err(|e| e.to_string())?;
                    RequestStreamPair(io.clone(), rq).into_ws().map_err(|e| format!("refused {:?}", e.2))?
                };
                if acc {
                    u.accept().is_ok()
                } else {
                    u.reject().is_ok()
                }
            };
            if pass == 0 {
                ensure!(ok, "answer failed on a working transport");
                full = io.out();
            } else {
                ensure!(!ok, "a write failure at byte {} was not reported", at);
                ensure!(full.starts_with(&io.out()), "bytes written before the failure are not a prefix of the response");
                c.trace(&(entry, acc, io.out().len()));
            }
        }
        c.state(&i);
        Ok(())
    });
}
