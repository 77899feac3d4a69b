//! C25: what the two applications are told about the handshake is what was on the wire.
use crate::cli;
use crate::drv::*;
use crate::engine::*;
use crate::ensure;
use crate::fail;
use crate::http::*;
use crate::io::*;
use crate::srv::{addr, SyncInto};
use futures::Future;
use hyper::buffer::BufReader;
use hyper::http::h1::parse_request;
use hyper::net::NetworkStream;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{Headers, Origin, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs, RequestStreamPair};
use websocket::server::upgrade::{Request, WsUpgrade};
use websocket::stream::Stream;
use websocket::{ClientBuilder, OwnedMessage};

type Lines = Vec<(String, Vec<u8>)>;
fn add(l: &mut Lines, n: &str, vs: &[&[u8]]) {
    for v in vs {
        l.push((n.to_string(), v.to_vec()));
    }
}
fn wire(start: &str, l: &Lines) -> Vec<u8> {
    let mut v = start.as_bytes().to_vec();
    v.extend_from_slice(b"\r\n");
    for (n, x) in l {
        v.extend_from_slice(n.as_bytes());
        v.extend_from_slice(b": ");
        v.extend_from_slice(x);
        v.extend_from_slice(b"\r\n");
    }
    v.extend_from_slice(b"\r\n");
    v
}
/// all lines of a head, grouped by name without case, values in order
fn grouped(l: &Lines) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut g: Vec<(String, Vec<Vec<u8>>)> = vec![];
    for (n, v) in l {
        let n = n.to_ascii_lowercase();
        let t: Vec<u8> = String::from_utf8(v.clone()).map(|s| s.trim_matches(|c| c == ' ' || c == '\t').as_bytes().to_vec()).unwrap_or_else(|_| v.clone());
        match g.iter_mut().find(|(k, _)| *k == n) {
            Some((_, vs)) => vs.push(t),
            None => g.push((n, vec![t])),
        }
    }
    g.sort();
    g
}
fn same_headers(h: &Headers, l: &Lines) -> Res {
    let want = grouped(l);
    let mut got: Vec<(String, Vec<Vec<u8>>)> = h
        .iter()
        .map(|x| x.name().to_string())
        .map(|n| (n.to_ascii_lowercase(), h.get_raw(&n).map(|r| r.to_vec()).unwrap_or_default()))
        .collect();
    got.sort();
    let show = |g: &[(String, Vec<Vec<u8>>)]| g.iter().map(|(n, v)| format!("{}: {:?}", n, v.iter().map(|x| String::from_utf8_lossy(x).chars().take(60).collect::<String>()).collect::<Vec<_>>())).collect::<Vec<_>>().join(" | ");
    ensure!(got == want, "headers {}, on the wire {}", show(&got), show(&want));
    Ok(())
}
type L = &'static [&'static [u8]];
/// header lines and the elements they stand for
const PROTOS: &[(L, &[&str])] = &[
    (&[], &[]),
    (&[b"a"], &["a"]),
    (&[b"chat, SuperChat"], &["chat", "SuperChat"]),
    (&[b"z,y ,  x", b"w"], &["z", "y", "x", "w"]),
    (&[b"a, a", b"A,a"], &["a", "a", "A", "a"]),
    (&[b"v1.json+x/9!#$%&'*-^_`|~"], &["v1.json+x/9!#$%&'*-^_`|~"]),
    (&[b"p1", b"p2", b"p3", b"p4", b"p5", b"p6", b"p7", b"p8", b"p9"], &["p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9"]),
];
const EXTS: &[(L, &[&str])] = &[
    (&[], &[]),
    (&[b"x"], &["x"]),
    (&[b"permessage-deflate; client_max_window_bits; server_max_window_bits=10"], &["permessage-deflate; client_max_window_bits; server_max_window_bits=10"]),
    (&[b"x; p=1; p=2; q, Y", b"x"], &["x; p=1; p=2; q", "Y", "x"]),
    (&[b"b;a=1,a;b=2", b"c;d"], &["b; a=1", "a; b=2", "c; d"]),
    (&[b"e1", b"e2", b"e3", b"e4", b"e5", b"e6; k"], &["e1", "e2", "e3", "e4", "e5", "e6; k"]),
];
const LONG: [u8; 5000] = [b'L'; 5000];
const EXTRA: &[&[(&str, L)]] = &[
    &[],
    &[("Host", &[b"h:81"]), ("Cookie", &[b"a=b", b"c=d; e=f"]), ("User-Agent", &[b"u/1 (x)"])],
    &[("x-bytes", &[b"\xff\xfe caf\xe9"]), ("X-EMPTY", &[b""]), ("Cache-Control", &[b"no-cache, no-store"])],
    &[("X-Long", &[&LONG]), ("Accept-Encoding", &[b"gzip, br;q=0.5", b"*;q=0"]), ("Date", &[b"not a date"])],
    &[
        ("h1", &[b"1"]), ("h2", &[b"2"]), ("h3", &[b"3"]), ("h4", &[b"4"]), ("h5", &[b"5"]), ("h6", &[b"6"]), ("h7", &[b"7"]), ("h8", &[b"8"]), ("h9", &[b"9"]), ("h10", &[b"10"]),
        ("h11", &[b"1"]), ("h12", &[b"2"]), ("h13", &[b"3"]), ("h14", &[b"4"]), ("h15", &[b"5"]), ("h16", &[b"6"]), ("h17", &[b"7"]), ("h18", &[b"8"]), ("h19", &[b"9"]), ("h20", &[b"20"]),
        ("H1", &[b"again"]),
    ],
    &[("Authorization", &[b"Basic dTpw"]), ("Referer", &[b"http://r/?a,b"]), ("X-Comma", &[b"a,b,,c", b" , "])],
];
const TARGETS: [&str; 8] = ["/", "/chat?a=b%20c&d", "http://example.com/abs?x", "*", "/a;b/c,d//e/../f", "/?", "/%C3%A9?%ff", "http://h:8080"];
const ORIGINS: [&str; 4] = ["", "http://o.example:81", "null", "HTTPS://O.example/ x"];
struct Want {
    method: String,
    target: String,
    lines: Lines,
    protos: Vec<String>,
    exts: Vec<String>,
    origin: Option<String>,
    key: Option<[u8; 16]>,
    version: Option<String>,
}
fn exts_of(e: &[Extension]) -> Vec<String> {
    e.iter()
        .map(|e| {
            let mut s = e.name.clone();
            for p in &e.params {
                s += &format!("; {}", p.name);
                if let Some(v) = &p.value {
                    s += &format!("={}", v);
                }
            }
            s
        })
        .collect()
}
fn target_same(got: &str, sent: &str) -> bool {
    // an absolute URI is the same with and without its empty path
    got == sent || sent == "http://h:8080" && got == "http://h:8080/"
}
fn look_at<S: Stream, B>(u: &WsUpgrade<S, B>, w: &Want, what: usize) -> Res {
    match what {
        0 => ensure!(u.protocols() == &w.protos[..], "protocols {:?}, sent {:?}", u.protocols(), w.protos),
        1 => ensure!(exts_of(u.extensions()) == w.exts, "extensions {:?}, sent {:?}", exts_of(u.extensions()), w.exts),
        2 => ensure!(u.key() == w.key.as_ref(), "key {:?}, sent {:?}", u.key(), w.key),
        3 => ensure!(u.version().map(|v| v.to_string()) == w.version, "version {:?}, sent {:?}", u.version(), w.version),
        4 => ensure!(target_same(&u.uri(), &w.target), "resource {:?}, sent {:?}", u.uri(), w.target),
        5 => ensure!(u.origin() == w.origin.as_ref().map(|s| &s[..]), "origin {:?}, sent {:?}", u.origin(), w.origin),
        _ => request(&u.request, w)?,
    }
    Ok(())
}
fn request(r: &Request, w: &Want) -> Res {
    ensure!(r.subject.0.to_string() == w.method, "method {}, sent {}", r.subject.0, w.method);
    ensure!(target_same(&r.subject.1.to_string(), &w.target), "target {}, sent {}", r.subject.1, w.target);
    same_headers(&r.headers, &w.lines)
}
const LOOKS: usize = 7;
fn look<S: Stream, B>(mut u: WsUpgrade<S, B>, w: &Want, order: usize, c: &mut Case) -> Res {
    ensure!(u.headers.len() == 0, "the answer starts with {}", u.headers);
    ensure!(u.request.version.to_string() == "HTTP/1.1", "HTTP version {}", u.request.version);
    let turn = |k: usize| match order {
        0 => k,
        1 => LOOKS - 1 - k,
        2 => (k * 3) % LOOKS,
        _ => (k + 4) % LOOKS,
    };
    for k in 0..LOOKS {
        c.step();
        look_at(&u, w, turn(k))?;
        if order == 2 {
            look_at(&u, w, turn(k))?;
        }
    }
    // the answer is another matter
    u.headers.set_raw("Origin", vec![b"http://answer".to_vec()]);
    let mut u = u
        .use_protocol("answer")
        .use_extension(Extension { name: "answer".into(), params: vec![Parameter::new("k".into(), None)] })
        .use_extensions(vec![Extension::new("more".into())]);
    u.headers.set(WebSocketVersion::Unknown("77".into()));
    for k in 0..LOOKS {
        look_at(&u, w, turn(k)).map_err(|e| format!("after preparing an answer: {}", e))?;
    }
    Ok(())
}
const IN: usize = 5;
const INS: [&str; IN] = ["stream", "stream by single bytes", "request and stream", "hyper request", "asynchronous stream"];
fn parse(b: &[u8]) -> Result<Request, String> {
    parse_request(&mut BufReader::new(b)).map_err(|e| e.to_string())
}
fn arrive(entry: usize, b: &[u8], w: &Want, order: usize, c: &mut Case) -> Res {
    let io = Mock::with(b, Tail::WouldBlock);
    match entry {
        0 | 1 => look(io.max_read(if entry == 0 { usize::MAX } else { 1 }).into_ws_sync().map_err(|e| format!("refused {:?}", e.3))?, w, order, c),
        2 => look(RequestStreamPair(io, parse(b)?).into_ws().map_err(|e| format!("refused {:?}", e.2))?, w, order, c),
        3 => {
            let mut m = io.clone();
            let ns: &mut dyn NetworkStream = &mut m;
            let mut br = BufReader::new(ns);
            let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| e.to_string())?;
            look(HyperRequest(rq).into_ws().map_err(|e| format!("refused {:?}", e.1))?, w, order, c)
        }
        _ => look(run_future(AIntoWs::into_ws(io.max_read([usize::MAX, 7][order % 2])), 100_000)?.map_err(|e| format!("refused {:?}", e.3))?, w, order, c),
    }
}
fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
const NAMES: [[&str; 4]; 3] = [
    ["Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Origin", "Sec-WebSocket-Key"],
    ["sec-websocket-protocol", "sec-websocket-extensions", "origin", "sec-websocket-key"],
    ["SEC-WEBSOCKET-PROTOCOL", "SEC-WEBSOCKET-EXTENSIONS", "ORIGIN", "SEC-WEBSOCKET-KEY"],
];
fn valid(names: usize, t: usize, p: usize, e: usize, o: usize, version: bool, extra: usize, first: bool) -> Want {
    let n = NAMES[names];
    let mut l: Lines = vec![];
    if !first {
        for (n, v) in EXTRA[extra] {
            add(&mut l, n, v);
        }
    }
    add(&mut l, "Upgrade", &[b"h2c, websocket"]);
    add(&mut l, n[0], PROTOS[p].0);
    add(&mut l, "Connection", &[b"keep-alive, Upgrade"]);
    add(&mut l, n[1], EXTS[e].0);
    let key = if extra % 2 == 0 { KEY_BYTES } else { [0xff, 0, 1, 2, 3, 250, 251, 252, 253, 254, 255, 128, 127, 64, 32, 16] };
    add(&mut l, n[3], &[b64(&key).as_bytes()]);
    if !ORIGINS[o].is_empty() {
        add(&mut l, n[2], &[ORIGINS[o].as_bytes()]);
    }
    if version {
        add(&mut l, "Sec-WebSocket-Version", &[b"13"]);
    }
    if first {
        for (n, v) in EXTRA[extra] {
            add(&mut l, n, v);
        }
    }
    Want {
        method: "GET".into(),
        target: TARGETS[t].into(),
        lines: l,
        protos: strings(PROTOS[p].1),
        exts: strings(EXTS[e].1),
        origin: if ORIGINS[o].is_empty() { None } else { Some(ORIGINS[o].into()) },
        key: Some(key),
        version: if version { Some("13".into()) } else { None },
    }
}
fn requests(x: &Ctx) {
    let np = PROTOS.len();
    let ne = EXTS.len();
    let nx = EXTRA.len();
    x.bound("requests: 8 targets x 7 protocol lists x 6 extension lists over one and several lines x 4 origins x version or not x 6 sets of other headers before or after x 3 spellings of the names x 5 ways to arrive x 4 orders of looking, before and after preparing an answer");
    x.section("requests", (8 * np * ne * 4 * 2 * nx * 2 * 3 * IN) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(IN);
        let (t, p, e, o) = (ix.take(8), ix.take(np), ix.take(ne), ix.take(4));
        let (version, extra, first, names) = (ix.take(2) == 1, ix.take(nx), ix.take(2) == 1, ix.take(3));
        if (names > 0 || first) && !x.thorough && (t + p + e + o) % 4 != 0 {
            return Ok(());
        }
        let w = valid(names, t, p, e, o, version, extra, first);
        let b = wire(&format!("GET {} HTTP/1.1", w.target), &w.lines);
        c.note = format!("{}: {}", INS[entry], String::from_utf8_lossy(&b[..b.len().min(700)]));
        for order in 0..if x.thorough || extra < 2 { 4 } else { 1 } {
            arrive(entry, &b, &w, (order + i as usize / 5) % 4, c).map_err(|e| format!("order {}: {}", order, e))?;
        }
        c.state(&hash_of(&b));
        c.trace(&(entry, hash_of(&b)));
        Ok(())
    });
    // other sizes: k elements of a list, k lines, k parameters, names and values of k bytes
    let ks: Vec<usize> = (0..70).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 4000]).collect();
    x.bound("lists of up to 4000 protocols, extensions or parameters, on one line or one line each, names, values and targets of up to 4000 bytes");
    x.section("requests/sizes", (ks.len() * 9 * IN) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(IN);
        let how = ix.take(9);
        let k = ks[ix.take(ks.len())];
        if how > 5 && k > 80 {
            // 100 lines are a head's limit
            return Ok(());
        }
        let word = |j: usize| format!("W{}", j);
        let mut w = valid(0, 1, 0, 0, 1, true, 0, false);
        let all: Vec<String> = (0..k).map(word).collect();
        let long = |s: &str| s.repeat(k / s.len() + 1)[..k.max(1)].to_string();
        match how {
            0 => {
                w.protos = all.clone();
                if k > 0 {
                    add(&mut w.lines, "Sec-WebSocket-Protocol", &[all.join(",").as_bytes()]);
                }
            }
            1 => {
                w.exts = all.clone();
                if k > 0 {
                    add(&mut w.lines, "Sec-WebSocket-Extensions", &[all.join(", ").as_bytes()]);
                }
            }
            2 => {
                let mut s = "e".to_string();
                for (j, p) in all.iter().enumerate() {
                    s += &format!("; {}", p);
                    if j % 3 > 0 {
                        s += &format!("={}", j);
                    }
                }
                add(&mut w.lines, "Sec-WebSocket-Extensions", &[s.as_bytes()]);
                w.exts = vec![s];
            }
            3 => {
                w.protos = vec![long("abcdefg"), "x".into()];
                add(&mut w.lines, "Sec-WebSocket-Protocol", &[w.protos.join(", ").as_bytes()]);
            }
            4 => {
                w.target = format!("/{}", long("pa/th?"));
            }
            5 => {
                let s = long("http://o");
                w.lines.retain(|(n, _)| n != "Origin");
                add(&mut w.lines, "Origin", &[s.as_bytes()]);
                w.origin = Some(s);
            }
            6 => {
                w.protos = all.clone();
                for p in &all {
                    add(&mut w.lines, "Sec-WebSocket-Protocol", &[p.as_bytes()]);
                }
            }
            7 => {
                w.exts = all.iter().map(|p| format!("{}; v={}", p, p)).collect();
                for p in &w.exts {
                    add(&mut w.lines, "Sec-WebSocket-Extensions", &[p.as_bytes()]);
                }
            }
            _ => {
                for p in &all {
                    add(&mut w.lines, p, &[p.as_bytes(), b"second"][..1 + k % 2 * (k < 40) as usize]);
                }
            }
        }
        let b = wire(&format!("GET {} HTTP/1.1", w.target), &w.lines);
        c.note = format!("{}, kind {} size {}", INS[entry], how, k);
        arrive(entry, &b, &w, i as usize / 45 % 4, c)?;
        c.state(&(how, k));
        c.trace(&(how, k, entry));
        Ok(())
    });
    // refused: what is handed back
    x.bound("refused requests: 9 violations x targets x other headers, handed back by 4 ways to arrive");
    x.section("refused", (10 * 8 * nx * 4 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let entry = ix.take(4);
        let bad = ix.take(10);
        let (t, extra, o) = (ix.take(8), ix.take(nx), ix.take(4));
        let mut w = valid(extra % 3, t, (t + o) % np, (t + extra) % ne, o, true, extra, o % 2 == 1);
        let gone = |w: &mut Want, n: &str| w.lines.retain(|(k, _)| !k.eq_ignore_ascii_case(n));
        let swap = |w: &mut Want, n: &str, v: &str| w.lines.iter_mut().filter(|(k, _)| k.eq_ignore_ascii_case(n)).for_each(|(_, x)| *x = v.as_bytes().to_vec());
        let mut version = "HTTP/1.1";
        match bad {
            0 => w.method = "POST".into(),
            1 => w.method = "CUSTOM".into(),
            2 => version = "HTTP/1.0",
            3 => swap(&mut w, "Sec-WebSocket-Version", "8"),
            4 => gone(&mut w, "Sec-WebSocket-Key"),
            5 => swap(&mut w, "Sec-WebSocket-Key", "short"),
            6 => gone(&mut w, "Upgrade"),
            7 => swap(&mut w, "Upgrade", "h2c"),
            8 => gone(&mut w, "Connection"),
            _ => swap(&mut w, "Connection", "close"),
        }
        let b = wire(&format!("{} {} {}", w.method, w.target, version), &w.lines);
        c.note = format!("{}: {}", entry, String::from_utf8_lossy(&b[..b.len().min(700)]));
        c.step();
        let io = Mock::with(&b, Tail::WouldBlock);
        let rq = match entry {
            0 => io.into_ws_sync().err().ok_or("accepted")?.1.ok_or("the request is not handed back")?,
            1 => RequestStreamPair(io, parse(&b)?).into_ws().err().ok_or("accepted")?.1,
            2 => {
                let mut m = io.clone();
                let ns: &mut dyn NetworkStream = &mut m;
                let mut br = BufReader::new(ns);
                let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| e.to_string())?;
                let back = match HyperRequest(rq).into_ws() {
                    Ok(_) => fail!("accepted"),
                    Err(e) => e.0,
                };
                ensure!(back.method.to_string() == w.method && target_same(&back.uri.to_string(), &w.target) && back.version.to_string() == version, "handed back: {} {} {}", back.method, back.uri, back.version);
                same_headers(&back.headers, &w.lines)?;
                c.trace(&(entry, bad));
                return Ok(());
            }
            _ => match run_future(AIntoWs::into_ws(io.max_read([usize::MAX, 5][o % 2])), 100_000)? {
                Ok(_) => fail!("accepted"),
                Err(e) => e.1.ok_or("the request is not handed back")?,
            },
        };
        ensure!(rq.version.to_string() == version, "HTTP version {}", rq.version);
        request(&rq, &w)?;
        // and it can still be asked
        let protos = rq.headers.get::<WebSocketProtocol>().map(|p| p.0.clone()).unwrap_or_default();
        ensure!(protos == w.protos, "protocols {:?}, sent {:?}", protos, w.protos);
        c.state(&(bad, t, extra, o));
        c.trace(&(entry, bad));
        Ok(())
    });
}
fn typed(h: &Headers, protos: &[String], exts: &[String]) -> Res {
    let p = h.get::<WebSocketProtocol>().map(|p| p.0.clone()).unwrap_or_default();
    ensure!(p == protos, "protocols {:?}, on the wire {:?}", p, protos);
    let e = h.get::<WebSocketExtensions>().map(|e| exts_of(&e.0)).unwrap_or_default();
    ensure!(e == exts, "extensions {:?}, on the wire {:?}", e, exts);
    Ok(())
}
fn responses(x: &Ctx) {
    let np = PROTOS.len();
    let ne = EXTS.len();
    let nx = EXTRA.len();
    x.bound("responses: 7 protocol lists x 6 extension lists x 6 sets of other headers before and after x 3 spellings x 4 clients (blocking, single bytes, asynchronous, a builder's second connection) x asking before, between and after traffic");
    x.section("responses", (np * ne * nx * 2 * 3 * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let way = ix.take(4);
        let (p, e, extra, first, names, raw_first) = (ix.take(np), ix.take(ne), ix.take(nx), ix.take(2) == 1, ix.take(3), ix.take(2) == 1);
        let n = NAMES[names];
        let mut l: Lines = vec![];
        let more = |l: &mut Lines| EXTRA[extra].iter().for_each(|(n, v)| add(l, n, v));
        if first {
            more(&mut l);
        }
        add(&mut l, n[1], EXTS[e].0);
        add(&mut l, "Upgrade", &[b"websocket"]);
        add(&mut l, "Connection", &[b"Upgrade"]);
        add(&mut l, "Sec-WebSocket-Accept", &[accept_for(KEY).as_bytes()]);
        add(&mut l, n[0], PROTOS[p].0);
        if !first {
            more(&mut l);
        }
        add(&mut l, "Set-Cookie", &[b"a=b; Path=/", b"c=d"]);
        let (protos, exts) = (strings(PROTOS[p].1), strings(EXTS[e].1));
        let mut b = wire("HTTP/1.1 101 Switching Protocols", &l);
        c.note = format!("way {}: {}", way, String::from_utf8_lossy(&b[..b.len().min(700)]));
        b.extend_from_slice(&[0x81, 1, b'm', 0x81, 1, b'n']);
        // the builder's own wishes are not the answer
        let mut bd = ClientBuilder::new("ws://example.com/")
            .map_err(|e| e.to_string())?
            .key(KEY_BYTES)
            .add_protocol("wish")
            .add_extension(Extension::new("wish".into()))
            .origin("http://wish".into());
        c.step();
        if way == 2 {
            let io = Mock::with(&b, Tail::WouldBlock).max_read([usize::MAX, 9][first as usize]);
            let (_, h) = run_future(bd.async_connect_on(io), 100_000)?.map_err(|e| format!("refused: {:?}", e))?;
            if raw_first {
                same_headers(&h, &l)?;
            }
            typed(&h, &protos, &exts)?;
            same_headers(&h, &l)?;
        } else {
            if way == 3 {
                let other = wire("HTTP/1.1 101 X", &vec![("Upgrade".into(), b"websocket".to_vec()), ("Connection".into(), b"Upgrade".to_vec()), ("Sec-WebSocket-Accept".into(), accept_for(KEY).into_bytes()), ("Sec-WebSocket-Protocol".into(), b"other".to_vec()), ("Sec-WebSocket-Extensions".into(), b"other".to_vec()), ("X-Other".into(), b"1".to_vec())]);
                let cl = bd.connect_on(Mock::with(&other, Tail::WouldBlock)).map_err(|e| format!("refused: {:?}", e))?;
                ensure!(cl.protocols() == ["other"] && exts_of(cl.extensions()) == ["other"], "first connection: {:?} {:?}", cl.protocols(), cl.extensions());
            }
            let io = Mock::with(&b, Tail::WouldBlock).max_read(if way == 1 { 1 } else { usize::MAX });
            let mut cl = bd.connect_on(io).map_err(|e| format!("refused: {:?}", e))?;
            for round in 0..3 {
                if raw_first {
                    same_headers(cl.headers(), &l)?;
                }
                ensure!(cl.protocols() == &protos[..], "protocols {:?}, on the wire {:?}", cl.protocols(), protos);
                ensure!(exts_of(cl.extensions()) == exts, "extensions {:?}, on the wire {:?}", cl.extensions(), exts);
                typed(cl.headers(), &protos, &exts)?;
                same_headers(cl.headers(), &l)?;
                match round {
                    0 => {
                        cl.recv_message().map_err(|e| format!("{:?}", e))?;
                    }
                    1 => cl.send_message(&OwnedMessage::Text("t".into())).map_err(|e| format!("{:?}", e))?,
                    _ => {}
                }
            }
        }
        c.state(&(p, e, extra, first, names));
        c.trace(&(way, raw_first, p, e, extra));
        Ok(())
    });
    // the server's own view of what it answered
    x.bound("a server's view of its answer: operation sequences up to length 5 (7) of protocols, extensions and headers x 4 ways to accept x 4 entry points, compared with the bytes written");
    let depth = x.tier(5, 7);
    x.section("answered", seq_count(7, depth) * 4 * 4, |c, i| {
        let mut ix = Ix(i);
        let (entry, fin) = (ix.take(4), ix.take(4));
        let ops = seq_of(7, ix.0);
        c.note = format!("entry {} accept {} ops {:?}", entry, fin, ops);
        let mut hs = Headers::new();
        hs.append_raw("X-Custom", b"1".to_vec());
        hs.append_raw("X-Custom", b"two, three".to_vec());
        if ops.len() % 2 == 1 {
            hs.append_raw("Sec-WebSocket-Protocol", b"own, lists".to_vec());
        }
        let io = Mock::with(&crate::http::request("/"), Tail::WouldBlock);
        fn prepare<S: Stream, B>(mut u: WsUpgrade<S, B>, ops: &[usize]) -> WsUpgrade<S, B> {
            for o in ops {
                u = match o {
                    0 => u.use_protocol("chat"),
                    1 => u.use_protocol("B"),
                    2 => u.use_extension(Extension { name: "y".into(), params: vec![Parameter::new("p".into(), Some("1".into())), Parameter::new("q".into(), None)] }),
                    3 => u.use_extensions(vec![Extension::new("m1".into()), Extension::new("m2".into())]),
                    4 => {
                        u.headers.set_raw("Sec-WebSocket-Protocol", vec![b"raw1".to_vec(), b"raw2,raw3".to_vec()]);
                        u
                    }
                    5 => {
                        u.headers.set_raw("X-Set", vec![b"s".to_vec()]);
                        u
                    }
                    _ => {
                        u.headers.remove::<WebSocketExtensions>();
                        u
                    }
                };
            }
            u
        }
        let check = |h: &Headers, p: Option<&[String]>, e: Option<&[Extension]>| -> Res {
            let head = parse_head(&io.out())?;
            let protos = head.tokens("Sec-WebSocket-Protocol");
            let exts: Vec<String> = head.tokens("Sec-WebSocket-Extensions");
            typed(h, &protos, &exts)?;
            if let Some(p) = p {
                ensure!(p == &protos[..], "protocols {:?}, on the wire {:?}", p, protos);
            }
            if let Some(e) = e {
                ensure!(exts_of(e) == exts, "extensions {:?}, on the wire {:?}", e, exts);
            }
            let mut got: Vec<(String, String)> = vec![];
            for x in h.iter() {
                for line in h.get_raw(x.name()).map(|r| r.to_vec()).unwrap_or_default() {
                    got.push((x.name().to_ascii_lowercase(), String::from_utf8_lossy(&line).trim().into()));
                }
            }
            let mut want: Vec<(String, String)> = head.headers.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect();
            got.sort();
            want.sort();
            ensure!(got == want, "headers {:?}, on the wire {:?}", got, want);
            Ok(())
        };
        c.step();
        macro_rules! accept {
            ($u:expr) => {{
                let u = prepare($u, &ops);
                let r = match fin {
                    0 => u.accept(),
                    1 => u.accept_with(&hs),
                    2 => u.accept_with_limits(1000, 1000),
                    _ => u.accept_with_headers_and_limits(&hs, 1000, 1000),
                };
                r
            }};
        }
        macro_rules! sync {
            ($u:expr) => {{
                let cl = accept!($u).map_err(|e| format!("{:?}", e.1))?;
                check(cl.headers(), Some(cl.protocols()), Some(cl.extensions()))?;
                check(cl.headers(), None, None)?;
            }};
        }
        match entry {
            0 => sync!(io.clone().into_ws_sync().map_err(|e| format!("refused {:?}", e.3))?),
            1 => sync!(RequestStreamPair(io.clone(), parse(&crate::http::request("/"))?).into_ws().map_err(|e| format!("refused {:?}", e.2))?),
            2 => {
                let mut m = io.clone();
                let ns: &mut dyn NetworkStream = &mut m;
                let mut br = BufReader::new(ns);
                let rq = hyper::server::Request::new(&mut br, addr()).map_err(|e| e.to_string())?;
                sync!(HyperRequest(rq).into_ws().map_err(|e| format!("refused {:?}", e.1))?)
            }
            _ => {
                let u = run_future(AIntoWs::into_ws(io.clone()), 1000)?.map_err(|e| format!("refused {:?}", e.3))?;
                let h = run_future(accept!(u).map(|r| r.1), 100_000)?.map_err(|e| format!("{:?}", e))?;
                check(&h, None, None)?;
            }
        }
        c.state(&(entry, fin, &ops));
        c.trace(&hash_of(&io.out()));
        Ok(())
    });
}
fn builders(x: &Ctx) {
    let ops: Vec<cli::Op> = cli::OPS.iter().cloned().filter(|o| !format!("{:?}", o).contains("Evil") && !matches!(o, cli::Op::Exts(&[2], _))).collect();
    let ops = &ops;
    x.bound("builders: all operation sequences up to length 4 (5); get_header of protocols, extensions, origin, version, key and custom headers before and after connecting, compared with the request written, blocking and asynchronous");
    x.section("builders", seq_count(ops.len(), x.tier(4, 5)) * 2, |c, i| {
        let mut ix = Ix(i);
        let asynchronous = ix.take(2) == 1;
        let h: Vec<cli::Op> = seq_of(ops.len(), ix.0).into_iter().map(|k| ops[k]).collect();
        c.note = format!("asynchronous {} ops {:?}", asynchronous, h);
        c.step();
        let mut b = cli::apply(ClientBuilder::new("ws://example.com/p?q").map_err(|e| e.to_string())?, &h);
        // what the builder says
        #[derive(PartialEq, Debug)]
        struct Says {
            protos: Vec<String>,
            exts: Vec<String>,
            origin: Option<String>,
            version: Option<String>,
            key: Option<String>,
        }
        fn says(b: &ClientBuilder) -> Says {
            Says {
                protos: b.get_header::<WebSocketProtocol>().map(|p| p.0.clone()).unwrap_or_default(),
                exts: b.get_header::<WebSocketExtensions>().map(|p| exts_of(&p.0)).unwrap_or_default(),
                origin: b.get_header::<Origin>().map(|o| o.0.clone()),
                version: b.get_header::<WebSocketVersion>().map(|v| v.to_string()),
                key: b.get_header::<WebSocketKey>().map(|k| b64(&(k.0).0)),
            }
        }
        let before = says(&b);
        let again = says(&b);
        ensure!(before == again, "asked twice: {:?}, then {:?}", before, again);
        let io = cli::answering(usize::MAX);
        let judge = |s: &Says, when: &str| -> Res {
            let head = parse_head(&io.out())?;
            let protos = head.tokens("Sec-WebSocket-Protocol");
            ensure!(s.protos == protos, "{}: protocols {:?}, sent {:?}", when, s.protos, protos);
            let exts = head.tokens("Sec-WebSocket-Extensions");
            ensure!(s.exts == exts, "{}: extensions {:?}, sent {:?}", when, s.exts, exts);
            let o = head.all("Origin");
            ensure!(s.origin.iter().map(|s| &s[..]).collect::<Vec<_>>() == o, "{}: origin {:?}, sent {:?}", when, s.origin, o);
            let set = h.iter().rev().find_map(|o| match o {
                cli::Op::Version(_) => Some(true),
                cli::Op::ClearVersion => Some(false),
                _ => None,
            });
            if set == Some(true) {
                ensure!(s.version.as_ref().map(|s| &s[..]) == Some(head.one("Sec-WebSocket-Version")?), "{}: version {:?}, sent {:?}", when, s.version, head.all("Sec-WebSocket-Version"));
            }
            let set = h.iter().rev().find_map(|o| match o {
                cli::Op::Key(_) => Some(true),
                cli::Op::ClearKey => Some(false),
                _ => None,
            });
            if set == Some(true) {
                ensure!(s.key.as_ref().map(|s| &s[..]) == Some(head.one("Sec-WebSocket-Key")?), "{}: key {:?}, sent {:?}", when, s.key, head.all("Sec-WebSocket-Key"));
            }
            Ok(())
        };
        if asynchronous {
            run_future(b.async_connect_on(io.clone()), 100_000)?.map_err(|e| format!("{:?}", e))?;
        } else {
            b.connect_on(io.clone()).map_err(|e| format!("{:?}", e))?;
            judge(&says(&b), "after connecting")?;
        }
        judge(&before, "before connecting")?;
        c.state(&hash_of(&format!("{:?}", h)));
        c.trace(&(asynchronous, hash_of(&format!("{:?}", before))));
        Ok(())
    });
}
pub fn c25(x: &Ctx) {
    x.assume("header values are compared without surrounding blanks; the order of headers of different names is not compared; strings with line breaks are C10 and C11; quoted extension parameters are not judged here");
    requests(x);
    responses(x);
    builders(x);
}
