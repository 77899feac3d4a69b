//! Client side of the opening handshake: C11 (request) and C12 (decision about the response).
use crate::drv::*;
use crate::engine::*;
use crate::http::*;
use crate::io::*;
use crate::ensure;
use hyper::header::Headers;
use std::collections::HashSet;
use std::sync::Mutex;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{Origin, WebSocketVersion};
use websocket::result::{WebSocketError, WebSocketOtherError};
use websocket::url::Url;
use websocket::ClientBuilder;

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Protos(&'static [&'static str], bool),
    ClearProtos,
    Exts(&'static [usize], bool),
    ClearExts,
    Key(u8),
    ClearKey,
    Version(&'static str),
    ClearVersion,
    Origin(&'static str),
    ClearOrigin,
    Custom(&'static [(&'static str, &'static [&'static str])]),
    ClearHeaderOrigin,
    Limits,
}
fn ext(k: usize) -> Extension {
    match k {
        0 => Extension::new("permessage-x".into()),
        1 => Extension { name: "y".into(), params: vec![Parameter::new("p".into(), Some("1".into())), Parameter::new("q".into(), None)] },
        3 => Extension { name: "AaA".into(), params: vec![Parameter::new("Zz".into(), Some("Vv".into())), Parameter::new("Aa".into(), Some("0".into())), Parameter::new("Zz".into(), None)] },
        _ => Extension { name: "z\r\nEvil: 1".into(), params: vec![Parameter::new("a".into(), Some("\r\n\r\nx".into()))] },
    }
}
fn ext_text(e: &Extension) -> String {
    let mut s = e.name.clone();
    for p in &e.params {
        s += &format!("; {}", p.name);
        if let Some(v) = &p.value {
            s += &format!("={}", v);
        }
    }
    s
}
pub const OPS: &[Op] = &[
    Op::Protos(&["chat"], true),
    Op::Protos(&["z", "aB", "Z", "m", "z"], false),
    Op::ClearProtos,
    Op::Exts(&[0], true),
    Op::Exts(&[1, 0, 3, 1], false),
    Op::ClearExts,
    Op::Key(1),
    Op::Key(200),
    Op::ClearKey,
    Op::Version("13"),
    Op::Version("8"),
    Op::ClearVersion,
    Op::Origin("http://o.example"),
    Op::ClearOrigin,
    Op::Custom(&[("X-A", &["1"]), ("Cookie", &["k=v; l=w"])]),
    Op::Custom(&[("X-A", &["2", "3"]), ("Origin", &["http://custom"]), ("Authorization", &["Bearer t"])]),
    Op::Custom(&[("Host", &["evil.example"]), ("Connection", &["close"]), ("Upgrade", &["h2c"])]),
    Op::Custom(&[("Sec-WebSocket-Key", &["AAAAAAAAAAAAAAAAAAAAAA=="]), ("Sec-WebSocket-Version", &["7"])]),
    Op::Custom(&[("X-Crlf", &["v\r\nEvil: 1\r\n\r\nbody"])]),
    Op::Protos(&["p\r\nEvil: 1\r\n\r\nGET / HTTP/1.1"], true),
    Op::Exts(&[2], true),
    Op::Origin("o\r\nEvil: 1"),
    Op::ClearHeaderOrigin,
    Op::Limits,
    Op::Protos(&[], false),
    Op::Exts(&[], false),
    Op::Custom(&[("X-Empty", &[""]), ("x-case", &["VaLue"])]),
];
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn leak_list(v: Vec<String>) -> &'static [&'static str] {
    Box::leak(v.into_iter().map(leak).collect::<Vec<_>>().into_boxed_slice())
}
/// printable text without delimiters, of n bytes
fn word(n: usize, seed: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";
    (0..n).map(|k| A[(k * 7 + k / 64 + seed * 13) % A.len()] as char).collect()
}
fn key_of(k: u8) -> [u8; 16] {
    let mut a = [k; 16];
    for (i, x) in a.iter_mut().enumerate() {
        *x = x.wrapping_add((i as u8).wrapping_mul(17));
    }
    a
}
/// the same elements from iterators which know more or less about their length
pub fn hinted<'a, T: 'a>(it: impl Iterator<Item = T> + 'a, how: usize) -> Box<dyn Iterator<Item = T> + 'a> {
    let mut it = it;
    match how % 4 {
        0 => Box::new(it),
        1 => Box::new(it.filter(|_| true)),
        2 => Box::new(std::iter::from_fn(move || it.next())),
        _ => {
            let first = it.next();
            let rest: Vec<T> = it.collect();
            Box::new(first.into_iter().chain(rest.into_iter().filter(|_| true)))
        }
    }
}
pub fn apply<'u>(mut b: ClientBuilder<'u>, ops: &[Op]) -> ClientBuilder<'u> {
    for o in ops {
        b = match o {
            Op::Protos(p, true) => b.add_protocol(p[0]),
            Op::Protos(p, false) => b.add_protocols(hinted(p.iter().cloned(), ops.len())),
            Op::ClearProtos => b.clear_protocols(),
            Op::Exts(e, true) => b.add_extension(ext(e[0])),
            Op::Exts(e, false) => b.add_extensions(hinted(e.iter().map(|k| ext(*k)), ops.len())),
            Op::ClearExts => b.clear_extensions(),
            Op::Key(k) => b.key(key_of(*k)),
            Op::ClearKey => b.clear_key(),
            Op::Version(v) => b.version(if *v == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(v.to_string()) }),
            Op::ClearVersion => b.clear_version(),
            Op::Origin(o) => b.origin(o.to_string()),
            Op::ClearOrigin => b.clear_origin(),
            Op::ClearHeaderOrigin => b.clear_header::<Origin>(),
            Op::Custom(h) => {
                let mut hs = Headers::new();
                for (n, vs) in *h {
                    for v in *vs {
                        hs.append_raw(n.to_string(), v.as_bytes().to_vec());
                    }
                }
                b.custom_headers(&hs)
            }
            Op::Limits => b.max_dataframe_size(1000).max_message_size(2000),
        };
    }
    b
}
fn squeeze(s: &str) -> String {
    s.replace(|c| c == '\r' || c == '\n', " ").split_whitespace().collect::<Vec<_>>().join(" ").replace(", ", ",")
}
fn history(v: Vec<usize>) -> Vec<Op> {
    v.into_iter().map(|i| OPS[i]).collect()
}
/// Headers in effect (lower-case name, values) and whether the key is generated.
fn model(ops: &[Op], url: &Url) -> (Vec<(String, String)>, bool) {
    let mut m: Vec<(String, Vec<String>)> = vec![];
    fn set(m: &mut Vec<(String, Vec<String>)>, n: &str, v: Vec<String>) {
        m.retain(|(k, _)| !k.eq_ignore_ascii_case(n));
        m.push((n.to_ascii_lowercase(), v));
    }
    fn clear(m: &mut Vec<(String, Vec<String>)>, n: &str) {
        m.retain(|(k, _)| !k.eq_ignore_ascii_case(n));
    }
    fn append(m: &mut Vec<(String, Vec<String>)>, n: &str, v: Vec<String>) {
        let old = m.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v[0].clone()).unwrap_or_default();
        let mut all: Vec<String> = if old.is_empty() { vec![] } else { vec![old] };
        all.extend(v);
        set(m, n, vec![all.join(", ")]);
    }
    let (mut key_set, mut version_set) = (false, false);
    for o in ops {
        match o {
            Op::Protos(p, _) => append(&mut m, "sec-websocket-protocol", p.iter().map(|s| s.to_string()).collect()),
            Op::ClearProtos => clear(&mut m, "sec-websocket-protocol"),
            Op::Exts(e, _) => append(&mut m, "sec-websocket-extensions", e.iter().map(|k| ext_text(&ext(*k))).collect()),
            Op::ClearExts => clear(&mut m, "sec-websocket-extensions"),
            Op::Key(k) => {
                key_set = true;
                set(&mut m, "sec-websocket-key", vec![b64(&key_of(*k))])
            }
            Op::ClearKey => {
                key_set = false;
                clear(&mut m, "sec-websocket-key")
            }
            Op::Version(v) => {
                version_set = true;
                set(&mut m, "sec-websocket-version", vec![v.to_string()])
            }
            Op::ClearVersion => {
                version_set = false;
                clear(&mut m, "sec-websocket-version")
            }
            Op::Origin(o) => set(&mut m, "origin", vec![o.to_string()]),
            Op::ClearOrigin | Op::ClearHeaderOrigin => clear(&mut m, "origin"),
            Op::Custom(h) => {
                for (n, vs) in *h {
                    set(&mut m, n, vs.iter().map(|s| s.to_string()).collect());
                }
            }
            Op::Limits => {}
        }
    }
    if let Some(h) = url.host_str() {
        set(&mut m, "host", vec![match url.port() {
            Some(p) => format!("{}:{}", h, p),
            None => h.to_string(),
        }]);
    }
    if !url.username().is_empty() {
        let t = format!("{}:{}", url.username(), url.password().unwrap_or(""));
        set(&mut m, "authorization", vec![format!("Basic {}", b64(t.as_bytes()))]);
    }
    set(&mut m, "connection", vec!["upgrade".into()]);
    set(&mut m, "upgrade", vec!["websocket".into()]);
    if !version_set {
        set(&mut m, "sec-websocket-version", vec!["13".into()]);
    }
    if !key_set {
        set(&mut m, "sec-websocket-key", vec!["(generated)".into()]);
    }
    let mut o: Vec<(String, String)> =
        m.into_iter().flat_map(|(n, vs)| vs.into_iter().map(move |v| (n.clone(), squeeze(&v)))).collect();
    // an empty list says nothing
    o.retain(|(n, v)| !(v.is_empty() && (n == "sec-websocket-protocol" || n == "sec-websocket-extensions")));
    o.sort();
    (o, !key_set)
}
/// Compare a request head with the model; returns the key sent.
fn check_request(out: &[u8], url: &Url, ops: &[Op]) -> Result<String, String> {
    let h = parse_head(out)?;
    ensure!(h.len == out.len(), "bytes after the request head: {}", hex(&out[h.len..]));
    let mut target = url.path().to_string();
    if let Some(q) = url.query() {
        target += &format!("?{}", q);
    }
    ensure!(h.start == format!("GET {} HTTP/1.1", target), "request line {:?}, expected target {:?}", h.start, target);
    let (want, generated) = model(ops, url);
    let key = h.one("Sec-WebSocket-Key")?.to_string();
    ensure!(unb64(&key).map(|k| k.len()) == Ok(16), "key {:?} is not 16 bytes of base64", key);
    let mut got: Vec<(String, String)> = h
        .headers
        .iter()
        .map(|(n, v)| (n.to_ascii_lowercase(), squeeze(v)))
        .map(|(n, v)| if n == "connection" || n == "upgrade" { (n, v.to_ascii_lowercase()) } else { (n, v) })
        .map(|(n, v)| if n == "sec-websocket-key" && generated { (n, "(generated)".to_string()) } else { (n, v) })
        .collect();
    got.retain(|(n, v)| !(v.is_empty() && (n == "sec-websocket-protocol" || n == "sec-websocket-extensions")));
    got.sort();
    ensure!(got == want, "request headers {:?}, expected {:?}", got, want);
    Ok(key)
}
/// A transport that answers any complete request correctly
pub fn answering(maxw: usize) -> Mock {
    let io = Mock::new(vec![], Tail::WouldBlock).max_write(maxw);
    io.st().responder = Some(Box::new(|out| {
        let h = parse_head(out).ok()?;
        let k = h.one("Sec-WebSocket-Key").ok()?;
        Some(response(&accept_for(k)))
    }));
    io
}
const URLS: &[&str] = &[
    "ws://example.com/",
    "ws://example.com",
    "ws://example.com:8080/a/b?q=1&r=%20x#frag",
    "wss://example.com:443/x",
    "ws://example.com:443/x",
    "wss://example.com:80/x",
    "ws://example.com:80/x",
    "https://example.com:80/x",
    "http://example.com:443/x",
    "ws://[::1]:9/x?y",
    "wss://[2001:db8::1]/x",
    "ws://user:pw@example.com/p",
    "ws://user@example.com:1/p",
    "ws://example.com?only=query",
    "http://example.com/p?",
    "https://example.com:8443/",
    "ws://example.com/a%0d%0aEvil:%201?b%0d%0ac",
    "ws://ex\u{e4}mple.com/\u{fc}?\u{df}=\u{20ac}",
    "ws://127.0.0.1:81/a b?c d#e f",
    "ws://example.com/a/./b/../c;d=e",
    "ws://example.com/a\r\nEvil: 1?x\ny",
    "ws://EXAMPLE.com/UPPER?Q=#x?y",
    "WS://example.com:65535//double//?a=?b",
    "ws://u:p:q@example.com:0/",
];

fn both(ops: &[Op], u: &str, url: &Url, maxw: usize, keys: &Mutex<HashSet<String>>, c: &mut Case) -> Res {
    let generated = model(ops, url).1;
    for run in 0..3 {
        // 0 blocking (twice with one builder), 1 asynchronous, 2 blocking from a borrowed URL
        if run == 2 && ops.len() > 2 {
            continue;
        }
        let new = || -> Result<ClientBuilder<'_>, String> {
            Ok(apply(if run == 2 { ClientBuilder::from_url(url) } else { ClientBuilder::new(u).map_err(|e| e.to_string())? }, ops))
        };
        let mut ks = vec![];
        c.step();
        match run {
            1 => {
                let io = answering(maxw);
                let b = apply(ClientBuilder::new(u).map_err(|e| e.to_string())?, ops);
                run_future(b.async_connect_on(io.clone()), 100_000)?.map_err(|e| format!("asynchronous connect failed: {:?}", e))?;
                ks.push(check_request(&io.out(), url, ops).map_err(|e| format!("asynchronous: {}", e))?);
            }
            _ => {
                let mut b = new()?;
                for t in 0..2 {
                    let io = answering(maxw);
                    b.connect_on(io.clone()).map_err(|e| format!("blocking connect {} failed: {:?}", t, e))?;
                    ks.push(check_request(&io.out(), url, ops).map_err(|e| format!("blocking connect {}: {}", t, e))?);
                }
            }
        }
        if generated {
            let mut g = keys.lock().unwrap();
            for k in ks {
                ensure!(g.insert(k.clone()), "generated key {} was used before on another connection", k);
            }
        }
        c.trace(&(run, hash_of(&format!("{:?}", &ops[..ops.len().min(40)])), u));
    }
    Ok(())
}

/// the keys of a few connections (run as a child process)
pub fn probe_keys() -> i32 {
    for k in generated_keys(8).unwrap() {
        println!("{}", k);
    }
    0
}
fn generated_keys(n: usize) -> Result<Vec<String>, String> {
    let mut v = vec![];
    let mut b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?;
    for k in 0..n {
        let io = answering(usize::MAX);
        match k % 3 {
            0 => {
                b.connect_on(io.clone()).map_err(|e| format!("{:?}", e))?;
            }
            1 => {
                run_future(ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?.async_connect_on(io.clone()), 1000)?.map_err(|e| format!("{:?}", e))?;
            }
            _ => {
                let mut b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?.key(KEY_BYTES).clear_key();
                b.connect_on(io.clone()).map_err(|e| format!("{:?}", e))?;
            }
        }
        v.push(parse_head(&io.out())?.one("Sec-WebSocket-Key")?.to_string());
    }
    Ok(v)
}

pub fn c11(x: &Ctx) {
    x.assume("custom headers do not carry the protocol and extension headers; clear_header is not applied to mandatory headers; user names without percent escapes");
    let keys: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let depth = x.tier(4, 5);
    x.bound("builder histories: all operation sequences up to length 4 (5) over 26 operations (protocols, extensions, key, version, origin, custom headers colliding with mandatory ones, line breaks, clears) x one URL of 2, blocking (twice per builder) and asynchronous");
    let n = seq_count(OPS.len(), depth);
    x.section("histories", n * 2, |c, i| {
        let mut ix = Ix(i);
        let u = ["ws://example.com:8080/a?b", "wss://user:pw@example.com/"][ix.take(2)];
        let ops = history(seq_of(OPS.len(), ix.0));
        if ops.len() >= 4 && u.starts_with("wss") {
            return Ok(());
        }
        c.note = format!("{} {:?}", u, ops);
        let url = Url::parse(u).map_err(|e| format!("{}: {}", HARNESS, e))?;
        c.state(&i);
        both(&ops, u, &url, usize::MAX, &keys, c)
    });
    x.bound("24 URL forms (ports equal to either default, IPv6, user info, empty path, query, fragment, escapes, line breaks, non-ASCII) x all histories up to length 2 (3) x write sizes 1, 7, unlimited");
    let n = seq_count(OPS.len(), x.tier(2, 3));
    x.section("urls", n * (URLS.len() * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let u = URLS[ix.take(URLS.len())];
        let w = [usize::MAX, 1, 7][ix.take(3)];
        let ops = history(seq_of(OPS.len(), ix.0));
        c.note = format!("{:?} {:?}", u, ops);
        let url = Url::parse(u).map_err(|e| format!("{}: {}", HARNESS, e))?;
        c.state(&i);
        both(&ops, u, &url, w, &keys, c)
    });
    // urls without a host (unix sockets): no Host header, the rest as usual
    x.section("urls-without-host", 3, |c, i| {
        let u = ["unix:/run/sock", "foo:/a?b", "foo:///p/q?r"][i as usize];
        let url = Url::parse(u).map_err(|e| format!("{}: {}", HARNESS, e))?;
        c.note = u.into();
        c.state(&i);
        both(&[], u, &url, usize::MAX, &keys, c)
    });
    // long histories
    let lens: Vec<usize> = (5..40).chain(crate::rx::sizes_around_powers(x.tier(512, 4096)).into_iter().filter(|n| *n >= 40)).collect();
    x.bound(&format!("operation histories of every length 5..40 and around powers of two to {}: strides through the {} operations from every start, and each operation repeated", x.tier(512, 4096), OPS.len()));
    let strides = [0usize, 1, 4, 5, 7, 11, 25];
    x.section("histories/long", (lens.len() * OPS.len() * strides.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let s = strides[ix.take(strides.len())];
        let start = ix.take(OPS.len());
        let n = lens[ix.take(lens.len())];
        if n > 150 && start % 5 != s % 5 && s != 0 {
            return Ok(());
        }
        let ops: Vec<Op> = (0..n).map(|k| OPS[(start + k * s) % OPS.len()]).collect();
        let u = if n % 2 == 0 { "ws://example.com/chat?q=1" } else { "wss://u:p@example.com:8443/" };
        c.note = format!("{} operations from {} in steps of {} on {}", n, start, s, u);
        let url = Url::parse(u).map_err(|e| format!("{}: {}", HARNESS, e))?;
        c.state(&i);
        both(&ops, u, &url, usize::MAX, &keys, c)
    });
    x.bound("generated keys: of 3 runs of a fresh process, of 4 threads at once, and every byte of 900 keys");
    x.section_t("keys-of-other-processes", 3, 1, |c, _| {
        let run = || -> Result<Vec<String>, String> {
            let o = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("probe-handshake-keys")
                .output()
                .map_err(|e| format!("{}: {}", HARNESS, e))?;
            if !o.status.success() {
                return Err(format!("{}: probe-handshake-keys failed", HARNESS));
            }
            Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
        };
        let (a, b) = (run()?, run()?);
        c.steps(2);
        c.trace(&a.len());
        c.note = format!("first keys of two processes {:?} {:?}", a, b);
        ensure!(a.len() == 8 && b.len() == 8, "{}: probe output", HARNESS);
        ensure!(!a.iter().any(|k| b.contains(k)), "two processes use the same handshake keys");
        Ok(())
    });
    x.section_t("keys-generated", 1, 1, |c, _| {
        let mut all = generated_keys(900)?;
        // three ways in turn, and each way alone
        let raw: Vec<Vec<u8>> = all.iter().map(|k| unb64(k).map_err(|_| format!("key {:?}", k))).collect::<Result<_, _>>()?;
        judge_unpredictable(&raw)?;
        for w in 0..3 {
            judge_unpredictable(&raw.iter().skip(w).step_by(3).cloned().collect::<Vec<_>>())?;
        }
        let th: Vec<_> = (0..4).map(|_| std::thread::spawn(|| generated_keys(60))).collect();
        for t in th {
            all.extend(t.join().map_err(|_| "a thread panicked")??);
        }
        c.steps(all.len());
        c.trace(&all.len());
        let set: HashSet<&String> = all.iter().collect();
        ensure!(set.len() == all.len(), "{} connections but only {} different keys", all.len(), set.len());
        for p in 0..16 {
            let vals: HashSet<u8> = all.iter().map(|k| unb64(k).map(|d| d[p]).unwrap_or(0)).collect();
            // 256 values, over 1100 draws each
            ensure!(vals.len() > 128, "byte {} of the generated keys takes only {} values in {} keys", p, vals.len(), all.len());
        }
        Ok(())
    });
    // all bytes of configured keys, and long texts
    x.bound("each of the 256 values at each of the 16 bytes of a configured key, over zero and all-ones keys");
    x.section("keys", 256 * 16 * 2, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(256) as u8;
        let at = ix.take(16);
        let mut k = [if ix.0 == 0 { 0u8 } else { 255 }; 16];
        k[at] = v;
        c.note = format!("{:?}", k);
        c.step();
        let mut b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?.key(k);
        let mut sent = vec![];
        for asy in [false, true] {
            let io = answering(usize::MAX);
            if asy {
                let b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?.key(k);
                run_future(b.async_connect_on(io.clone()), 1000)?.map_err(|e| format!("{:?}", e))?;
            } else {
                b.connect_on(io.clone()).map_err(|e| format!("{:?}", e))?;
            }
            sent.push(parse_head(&io.out())?.one("Sec-WebSocket-Key")?.to_string());
        }
        ensure!(sent.iter().all(|s| *s == b64(&k)), "keys sent {:?}, configured {}", sent, b64(&k));
        c.state(&i);
        c.trace(&sent[0]);
        Ok(())
    });
    let ls: Vec<usize> = (0..200).chain(crate::rx::sizes_around_powers(x.tier(1 << 16, 1 << 18)).into_iter().filter(|n| *n >= 200)).collect();
    x.bound(&format!("path, query, user name, password, protocol, extension name, parameter value, origin, custom header value and name of every length to 200 and around powers of two to {}; the same numbers (to 2000) of protocols, extensions, parameters and custom headers", x.tier(1 << 16, 1 << 18)));
    x.section("sizes", (ls.len() * 14) as u64, |c, i| {
        let mut ix = Ix(i);
        let what = ix.take(14);
        let n = ls[ix.take(ls.len())];
        if what >= 10 && n > 2100 {
            return Ok(());
        }
        if n == 0 && [2, 4, 5, 7, 9].contains(&what) {
            return Ok(());
        }
        let w = word(n, n % 5);
        let mut u = "ws://example.com/a?b".to_string();
        let mut ops: Vec<Op> = vec![];
        let mut name = None;
        match what {
            0 => u = format!("ws://example.com/{}", w),
            1 => u = format!("ws://example.com/p?{}", w),
            2 => u = format!("ws://{}@example.com/", w),
            3 => u = format!("ws://u:{}@example.com/", w),
            4 => ops.push(Op::Protos(leak_list(vec!["first".into(), w, "last".into()]), false)),
            5 => name = Some(Extension { name: w, params: vec![Parameter::new("p".into(), Some("v".into()))] }),
            6 => name = Some(Extension { name: "e".into(), params: vec![Parameter::new("p".into(), Some(w)), Parameter::new("q".into(), None)] }),
            7 => ops.push(Op::Origin(leak(w))),
            8 => ops.push(Op::Custom(Box::leak(vec![("X-Long", leak_list(vec![w]))].into_boxed_slice()))),
            9 => ops.push(Op::Custom(Box::leak(vec![(leak(w), leak_list(vec!["v".into()]))].into_boxed_slice()))),
            10 => ops.push(Op::Protos(leak_list((0..n).map(|k| format!("p{}", (k * 7919) % (n + 3))).collect()), false)),
            11 => ops.extend((0..n).map(|k| Op::Exts(if k % 3 == 0 { &[1] } else { &[0] }, true))),
            12 => name = Some(Extension { name: "many".into(), params: (0..n).map(|k| Parameter::new(format!("q{}", (k * 31) % 97), if k % 2 == 0 { None } else { Some(k.to_string()) })).collect() }),
            _ => {
                let hs: Vec<(&'static str, &'static [&'static str])> = (0..n.min(600)).map(|k| (leak(format!("X-{}", (k * 613) % 601)), leak_list(vec![k.to_string()]))).collect();
                ops.push(Op::Custom(Box::leak(hs.into_boxed_slice())));
            }
        }
        if ops.is_empty() && what == 13 {
            return Ok(());
        }
        c.note = format!("{} of length or number {}", ["path", "query", "user name", "password", "protocol", "extension name", "parameter value", "origin", "custom value", "custom name", "protocols", "extensions", "parameters", "custom headers"][what], n);
        c.state(&i);
        let url = Url::parse(&u).map_err(|e| format!("{}: {}", HARNESS, e))?;
        match name {
            None => both(&ops, &u, &url, if n % 3 == 0 { 1000 } else { usize::MAX }, &keys, c),
            Some(e) => {
                let want = ext_text(&e);
                for asy in [false, true] {
                    c.step();
                    let io = answering(if n % 3 == 0 { 1000 } else { usize::MAX });
                    let mut b = ClientBuilder::new(&u).map_err(|e| e.to_string())?.add_extension(e.clone());
                    if asy {
                        run_future(b.async_connect_on(io.clone()), 100_000)?.map_err(|e| format!("{:?}", e))?;
                    } else {
                        b.connect_on(io.clone()).map_err(|e| format!("{:?}", e))?;
                    }
                    let h = parse_head(&io.out())?;
                    ensure!(h.len == io.out().len(), "bytes after the head");
                    ensure!(h.one("Sec-WebSocket-Extensions")? == want, "extensions sent differ ({} bytes, {} expected)", h.one("Sec-WebSocket-Extensions")?.len(), want.len());
                    ensure!(h.headers.len() == 6, "{} headers", h.headers.len());
                }
                Ok(())
            }
        }
    });
    // every way to connect, over real sockets and TLS
    x.bound(&format!("6 connect methods x 4 schemes x explicit port or not x user info or not x all histories to length {}", x.tier(1, 2)));
    let n = seq_count(OPS.len(), x.tier(1, 2));
    x.section_t("methods", n * 6 * 4 * 2 * 2, 16, |c, i| {
        let mut ix = Ix(i);
        let method = ix.take(6);
        let scheme = ["ws", "wss", "http", "https"][ix.take(4)];
        let port = [None, Some(8443)][ix.take(2)];
        let user = ["", "user:pw@"][ix.take(2)];
        let ops = history(seq_of(OPS.len(), ix.0));
        if ops.len() >= 2 && (scheme.starts_with("http") || !user.is_empty()) {
            return Ok(());
        }
        c.note = format!("{} {}://{}HOST{:?} {:?}", crate::tls::METHODS[method], scheme, user, port, ops);
        c.step();
        let used = std::sync::Arc::new(Mutex::new(String::new()));
        let used2 = used.clone();
        let ops2 = ops.clone();
        let d = crate::tls::dial(
            scheme,
            method,
            user,
            port,
            "/a/b?c=d",
            move |u| {
                *used2.lock().unwrap() = u.to_string();
                Ok(apply(ClientBuilder::new(u).map_err(|e| e.to_string())?, &ops2))
            },
            |h| response(&accept_for(&parse_head(h).ok().and_then(|h| h.one("Sec-WebSocket-Key").ok().map(|s| s.to_string())).unwrap_or_default())),
            vec![],
        )?;
        let u = used.lock().unwrap().clone();
        if let Err(e) = &d.got {
            return Err(format!("connect failed: {:?}", e));
        }
        let url = Url::parse(&u).map_err(|e| format!("{}: {}", HARNESS, e))?;
        let k = check_request(&d.head, &url, &ops)?;
        ensure!(d.after.is_empty(), "{} bytes after the request head", d.after.len());
        if model(&ops, &url).1 {
            ensure!(keys.lock().unwrap().insert(k.clone()), "generated key {} was used before on another connection", k);
        }
        c.state(&i);
        c.trace(&(method, scheme, port, hash_of(&format!("{:?}", ops))));
        Ok(())
    });
    // write failures
    x.bound("a write error or zero-byte write at every byte of the request: reported, and only a prefix was written");
    x.section("write-errors", 300 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let asy = ix.take(2) == 1;
        let zero = ix.take(2) == 1;
        let at = ix.take(300);
        let go = |io: &Mock| -> Result<bool, String> {
            let b = apply(ClientBuilder::new("ws://example.com/x").map_err(|e| e.to_string())?, &[OPS[0], OPS[6]]);
            if asy {
                Ok(run_future(b.async_connect_on(io.clone()), 100_000)?.is_ok())
            } else {
                let mut b = b;
                Ok(b.connect_on(io.clone()).is_ok())
            }
        };
        let io = answering(1);
        ensure!(go(&io)?, "connect failed on a working transport");
        let full = io.out();
        if at >= full.len() {
            return Ok(());
        }
        c.note = format!("asynchronous={} fault at byte {}", asy, at);
        let io = answering(1);
        io.st().wscript = (0..at).map(|_| Ok(1)).chain(std::iter::once(if zero { Ok(0) } else { Err(std::io::ErrorKind::ConnectionReset) })).collect();
        io.st().wtail = Some(std::io::ErrorKind::BrokenPipe);
        ensure!(!go(&io)?, "a write failure was not reported");
        ensure!(full.starts_with(&io.out()), "written bytes are not a prefix of the request");
        c.state(&i);
        c.trace(&(asy, at));
        Ok(())
    });
}

// ---------------------------------------------------------------- C12
const STATUS: &[u16] = &[101, 100, 102, 103, 200, 204, 226, 300, 301, 302, 303, 304, 307, 308, 399, 400, 401, 403, 404, 426, 499, 500, 503, 599, 110];
const ACC: &[&[&str]] = &[
    &["="],
    &[],
    &["AAAAAAAAAAAAAAAAAAAAAAAAAAA="],
    &["lower"],
    &["=", "AAAAAAAAAAAAAAAAAAAAAAAAAAA="],
    &[""],
    &["key"],
    &["trunc"],
    &["otherkey"],
    &["AAAAAAAAAAAAAAAAAAAAAAAAAAA=", "="],
    &["=x"],
    &["noguid"],
];
const UPG: &[&[&str]] = &[&["websocket"], &[], &["WebSocket"], &["WEBSOCKET"], &["h2c"], &["websockets"], &[""], &["TLS/1.0, h2c"], &["websocke"]];
const CON: &[&[&str]] = &[
    &["Upgrade"],
    &[],
    &["upgrade"],
    &["UPGRADE"],
    &["keep-alive, Upgrade"],
    &["Upgrade, keep-alive"],
    &["keep-alive", "upgrade"],
    &["keep-alive"],
    &["close"],
    &["upgraded"],
    &[""],
    &["foo,uPgRaDe,bar"],
];
#[derive(Debug, PartialEq, Clone, Hash)]
enum Dec {
    Ok,
    Redirect(u16, String),
    Status(u16),
    Other,
}
fn dec(e: WebSocketError) -> Dec {
    match e {
        WebSocketError::Other(b) => match b.downcast_ref::<WebSocketOtherError>() {
            Some(WebSocketOtherError::RedirectError(s, l)) => Dec::Redirect(s.to_u16(), l.clone()),
            Some(WebSocketOtherError::StatusCodeError(s)) => Dec::Status(s.to_u16()),
            _ => Dec::Other,
        },
        _ => Dec::Other,
    }
}
fn resp_for(status: u16, acc: usize, upg: usize, con: usize, loc: usize, key: &str) -> Vec<u8> {
    let mut h = format!("HTTP/1.1 {} Reason text\r\n", status);
    for a in ACC[acc] {
        let good = accept_for(key);
        let v = match *a {
            "=" => good,
            "lower" => good.to_ascii_lowercase(),
            "key" => key.to_string(),
            "trunc" => good[..20].to_string(),
            "otherkey" => accept_for("AAAAAAAAAAAAAAAAAAAAAA=="),
            "=x" => format!("{}x", good),
            "noguid" => b64(&sha1(key.as_bytes())),
            o => o.to_string(),
        };
        h += &format!("Sec-WebSocket-Accept: {}\r\n", v);
    }
    for u in UPG[upg] {
        h += &format!("Upgrade: {}\r\n", u);
    }
    for u in CON[con] {
        h += &format!("Connection: {}\r\n", u);
    }
    match loc {
        1 => h += "Location: http://elsewhere.example/x?y\r\n",
        2 => h += "Location: /relative\r\n",
        _ => {}
    }
    h += "Server: x\r\n\r\n";
    h.into_bytes()
}
fn run_client(asy: bool, fixed: bool, f: impl Fn(&str) -> Vec<u8> + Send + 'static) -> Result<Dec, String> {
    let io = Mock::new(vec![], Tail::WouldBlock);
    io.st().responder = Some(Box::new(move |out| {
        let h = parse_head(out).ok()?;
        let k = h.one("Sec-WebSocket-Key").ok()?;
        Some(f(k))
    }));
    let b = ClientBuilder::new("ws://example.com/x").map_err(|e| e.to_string())?;
    let mut b = if fixed { b.key(KEY_BYTES) } else { b };
    Ok(if asy {
        match run_future(b.async_connect_on(io.clone()), 1000)? {
            Ok(_) => Dec::Ok,
            Err(e) => dec(e),
        }
    } else {
        match b.connect_on(io.clone()) {
            Ok(_) => Dec::Ok,
            Err(e) => dec(e),
        }
    })
}

pub fn c12(x: &Ctx) {
    x.assume("not judged: Upgrade headers that list further protocols besides websocket; interim 1xx responses must not be a success but may be any error");
    x.bound("25 status codes x 12 accept x 9 Upgrade x 12 Connection variants x 3 Location variants x configured and generated key x blocking and asynchronous");
    x.section("responses", (STATUS.len() * 12 * 9 * 12 * 3 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let acc = ix.take(12);
        let upg = ix.take(9);
        let con = ix.take(12);
        let loc = ix.take(3);
        let fixed = ix.take(2) == 1;
        let status = STATUS[ix.take(STATUS.len())];
        c.note = String::from_utf8_lossy(&resp_for(status, acc, upg, con, loc, KEY)).into_owned();
        let good = ACC[acc] == ["="]
            && UPG[upg].len() == 1
            && UPG[upg][0].eq_ignore_ascii_case("websocket")
            && CON[con].iter().flat_map(|l| l.split(',')).any(|t| t.trim().eq_ignore_ascii_case("upgrade"));
        let location = ["", "http://elsewhere.example/x?y", "/relative"][loc];
        for asy in [false, true] {
            c.step();
            let got = run_client(asy, fixed, move |k| resp_for(status, acc, upg, con, loc, k))?;
            let ok = if status == 101 {
                if good {
                    got == Dec::Ok
                } else {
                    got == Dec::Other
                }
            } else if status < 200 {
                got != Dec::Ok
            } else if (300..400).contains(&status) && loc > 0 {
                got == Dec::Redirect(status, location.to_string())
            } else {
                got == Dec::Status(status)
            };
            ensure!(ok, "asynchronous={} generated key={}: status {} gave {:?}", asy, !fixed, status, got);
            c.trace(&(asy, &got));
        }
        c.state(&i);
        Ok(())
    });
    // spelling of the header lines and order
    x.bound("all orders of 4 header lines x 4 spellings of names x 3 whitespace forms, valid and each single violation");
    x.section("spelling", 24 * 4 * 3 * 4 * 2, |c, i| {
        let mut ix = Ix(i);
        let perm = crate::srv::nth_perm(4, ix.take(24));
        let spell = ix.take(4);
        let ws = ix.take(3);
        let broken = ix.take(4);
        let asy = ix.take(2) == 1;
        let mk = move |k: &str| -> Vec<u8> {
            let l = [
                ("Upgrade".to_string(), if broken == 1 { "h2c".to_string() } else { "WebSocket".into() }),
                ("Connection".to_string(), if broken == 2 { "close".into() } else { "foo,Upgrade".into() }),
                ("Sec-WebSocket-Accept".to_string(), if broken == 3 { accept_for("x") } else { accept_for(k) }),
                ("X-Other".to_string(), "Sec-WebSocket-Accept: x".into()),
            ];
            let mut b = "HTTP/1.1 101 Web Socket Protocol Handshake\r\n".to_string();
            for p in &perm {
                let (n, v) = &l[*p];
                let n = match spell {
                    0 => n.clone(),
                    1 => n.to_ascii_lowercase(),
                    2 => n.to_ascii_uppercase(),
                    _ => n.chars().enumerate().map(|(i, ch)| if i % 2 == 0 { ch.to_ascii_lowercase() } else { ch.to_ascii_uppercase() }).collect(),
                };
                let (a, z) = [(" ", ""), ("", ""), ("\t ", " \t")][ws];
                b += &format!("{}:{}{}{}\r\n", n, a, v, z);
            }
            (b + "\r\n").into_bytes()
        };
        c.note = String::from_utf8_lossy(&mk(KEY)).into_owned();
        c.step();
        let got = run_client(asy, false, mk)?;
        ensure!(got == if broken == 0 { Dec::Ok } else { Dec::Other }, "{:?}", got);
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    // accept values one edit away from the right one, over several keys
    const EDITS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_.";
    let ne = EDITS.len() + 5;
    x.bound("accept values: every replacement of one character by every base64 character and 4 others, every truncation, removal, insertion, doubling and swap with the next, for 5 keys");
    x.section("near-accepts", (5 * 28 * ne * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let asy = ix.take(2) == 1;
        let edit = ix.take(ne);
        let pos = ix.take(28);
        let kb = key_of([0, 1, 77, 128, 255][ix.take(5)]);
        let io = Mock::new(vec![], Tail::WouldBlock);
        let good = accept_for(&b64(&kb));
        let mut v = good.clone().into_bytes();
        match edit {
            0 => v.truncate(pos),
            1 => {
                v.remove(pos);
            }
            2 => v.insert(pos, b'A'),
            3 => v.insert(pos, v[pos]),
            4 => v.swap(pos, (pos + 1).min(27)),
            e => v[pos] = EDITS[e - 5],
        }
        let v = String::from_utf8(v).unwrap();
        // the last base64 digit carries unused bits: such a value decodes to the same bytes
        if unb64(&v) == Err(true) || v.trim_end_matches('=') == good.trim_end_matches('=') && v != good {
            return Ok(());
        }
        c.note = format!("accept {} for {}", v, good);
        io.push(&response(&v));
        c.step();
        let b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?.key(kb);
        let got = if asy {
            run_future(b.async_connect_on(io), 1000)?.is_ok()
        } else {
            let mut b = b;
            b.connect_on(io).is_ok()
        };
        ensure!(got == (v == good), "connected={}", got);
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    // every status code
    x.bound("every status code 100..=999 with a valid or no upgrade confirmation, with and without a location, to both clients");
    x.section("all-status", 900 * 2 * 3 * 2, |c, i| {
        let mut ix = Ix(i);
        let asy = ix.take(2) == 1;
        let loc = ix.take(3);
        let good = ix.take(2) == 1;
        let status = 100 + ix.0 as u16;
        let con = if good { 0 } else { 1 };
        c.note = format!("status {} location {} confirmed {} asynchronous {}", status, loc, good, asy);
        c.step();
        let got = run_client(asy, false, move |k| resp_for(status, con, con, con, loc, k))?;
        let location = ["", "http://elsewhere.example/x?y", "/relative"][loc];
        let ok = match status {
            101 => got == if good { Dec::Ok } else { Dec::Other },
            100..=199 => got != Dec::Ok,
            300..=399 if loc > 0 => got == Dec::Redirect(status, location.to_string()),
            _ => got == Dec::Status(status),
        };
        ensure!(ok, "{:?}", got);
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    // long lists, many and large headers
    let counts: Vec<usize> = (0..40).chain(vec![63, 64, 65, 80, 90, 93, 94, 95]).collect();
    x.bound("Connection lists of 1..40 and up to 300 tokens with the upgrade token first, in the middle, last or absent, in one or several lines; up to 95 further headers; header values, reasons and locations to 64 KB");
    let values: Vec<usize> = (0..48).chain(crate::rx::sizes_around_powers(1 << 16).into_iter().filter(|n| *n >= 48)).collect();
    let nv = values.len();
    x.section("large", (counts.len().max(nv) * 9 * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let asy = ix.take(2) == 1;
        let broken = ix.take(4);
        let shape = ix.take(9);
        let k = ix.0 as usize;
        let n = if shape == 3 || shape == 8 { *counts.get(k).unwrap_or(&usize::MAX) } else { *values.get(k).unwrap_or(&usize::MAX) };
        if n == usize::MAX || shape < 3 && n > 300 || shape >= 1 && shape <= 2 && n > 90 && shape == 2 {
            return Ok(());
        }
        c.note = format!("shape {} of {} broken {} asynchronous {}", ["one list", "two lists", "a line per token", "headers after", "value", "reason", "location", "repeated accept-like headers", "headers before"][shape], n, broken, asy);
        let mk = move |key: &str| -> Vec<u8> {
            let accept = if broken == 1 { accept_for("x") } else { accept_for(key) };
            let token = if broken == 2 { "upgrade2" } else { "UpGrade" };
            let up = if broken == 3 { "web socket" } else { "webSocket" };
            let mut con: Vec<String> = (0..n.min(300)).map(|k| format!("t{}", k)).collect();
            if shape < 3 {
                let at = [0, con.len() / 2, con.len()][n % 3];
                con.insert(at, token.into());
            } else {
                con = vec![token.into()];
            }
            let con = match shape {
                2 => con.iter().map(|t| format!("Connection: {}\r\n", t)).collect::<String>(),
                1 => {
                    let (a, b) = con.split_at(con.len() / 2);
                    format!("{}Connection: {}\r\n", if a.is_empty() { String::new() } else { format!("Connection: {}\r\n", a.join(",")) }, b.join(" , "))
                }
                _ => format!("Connection: {}\r\n", con.join(", ")),
            };
            let reason = if shape == 5 { word(n, 1) } else { "OK then".into() };
            let extra = match shape {
                3 | 8 => (0..n).map(|k| format!("X-Sec-WebSocket-Accept-{}: {}\r\n", k, k)).collect::<String>(),
                4 => format!("X-Long: {}\r\n", word(n, 2)),
                6 => format!("Location: {}\r\n", word(n, 3)),
                7 => (0..n.min(60)).map(|_| "Set-Cookie: Sec-WebSocket-Accept=x\r\n".to_string()).collect::<String>(),
                _ => String::new(),
            };
            let (before, after) = if shape == 8 { (extra, String::new()) } else { (String::new(), extra) };
            format!("HTTP/1.1 101 {}\r\n{}{}Upgrade: {}\r\nSec-WebSocket-Accept: {}\r\n{}\r\n", reason, before, con, up, accept, after).into_bytes()
        };
        c.step();
        let got = run_client(asy, n % 2 == 0, mk)?;
        ensure!(got == if broken == 0 { Dec::Ok } else { Dec::Other }, "{:?}", got);
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    x.bound("redirect locations of every length to 48 and around powers of two to 64 KB: reported whole");
    x.section("locations", (nv * 2 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let asy = ix.take(2) == 1;
        let status = [300, 301, 307, 399][ix.take(4)];
        let n = values[ix.0 as usize];
        if n == 0 {
            return Ok(());
        }
        let loc = format!("{}?{}", word(n, 1), n);
        let l = loc.clone();
        c.note = format!("status {} location of {} bytes asynchronous {}", status, loc.len(), asy);
        c.step();
        let got = run_client(asy, false, move |_| format!("HTTP/1.1 {} Go\r\nLocation: {}\r\nContent-Length: 0\r\n\r\n", status, l).into_bytes())?;
        ensure!(got == Dec::Redirect(status, loc.clone()), "{:.200}", format!("{:?}", got));
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    // every key byte
    x.bound("each of the 256 values at each of the 16 bytes of the key: the genuine accept passes, that of a neighbour key does not");
    x.section("keys", 256 * 16 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let asy = ix.take(2) == 1;
        let wrong = ix.take(2) == 1;
        let at = ix.take(16);
        let mut k = [(ix.0 as u8).wrapping_mul(5); 16];
        k[at] = ix.0 as u8;
        let mut other = k;
        other[(at + 7) % 16] ^= 1;
        let io = Mock::with(&response(&accept_for(&b64(if wrong { &other } else { &k }))), Tail::WouldBlock);
        c.note = format!("key {:?} wrong {} asynchronous {}", k, wrong, asy);
        c.step();
        let b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?.key(k);
        let got = if asy {
            run_future(b.async_connect_on(io), 1000)?.is_ok()
        } else {
            let mut b = b;
            b.connect_on(io).is_ok()
        };
        ensure!(got != wrong, "connected={}", got);
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    // what else the builder was told does not matter
    let n = seq_count(OPS.len(), x.tier(2, 3));
    x.bound(&format!("all builder histories to length {} x 6 responses (genuine, genuine with a protocol and an extension that were not asked for, wrong accept, no upgrade, 200, redirect)", x.tier(2, 3)));
    x.section("histories", n * 6 * 2, |c, i| {
        let mut ix = Ix(i);
        let asy = ix.take(2) == 1;
        let r = ix.take(6);
        let ops = history(seq_of(OPS.len(), ix.0));
        c.note = format!("{:?} response {} asynchronous {}", ops, r, asy);
        c.step();
        let io = Mock::new(vec![], Tail::WouldBlock);
        io.st().responder = Some(Box::new(move |out| {
            let h = parse_head(out).ok()?;
            let k = h.one("Sec-WebSocket-Key").ok()?;
            Some(match r {
                0 => response(&accept_for(k)),
                1 => format!("HTTP/1.1 101 X\r\nUpgrade: websocket\r\nSec-WebSocket-Protocol: never-asked\r\nSec-WebSocket-Extensions: never; a=b\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept_for(k)).into_bytes(),
                2 => response(&accept_for(&k.to_ascii_lowercase())),
                3 => format!("HTTP/1.1 101 X\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept_for(k)).into_bytes(),
                4 => format!("HTTP/1.1 200 OK\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept_for(k)).into_bytes(),
                _ => b"HTTP/1.1 302 Found\r\nLocation: ws://elsewhere/\r\n\r\n".to_vec(),
            })
        }));
        let b = apply(ClientBuilder::new("ws://u:p@example.com/x").map_err(|e| e.to_string())?, &ops);
        let got = if asy {
            run_future(b.async_connect_on(io), 100_000)?.err()
        } else {
            let mut b = b;
            b.connect_on(io).err()
        };
        let got = got.map(dec).unwrap_or(Dec::Ok);
        let want = match r {
            0 | 1 => Dec::Ok,
            2 | 3 => Dec::Other,
            4 => Dec::Status(200),
            _ => Dec::Redirect(302, "ws://elsewhere/".into()),
        };
        ensure!(got == want, "{:?}, expected {:?}", got, want);
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    // every way to connect
    x.bound("6 connect methods over real sockets and TLS x ws and wss x 12 statuses x every accept, Upgrade and Connection variant alone");
    x.section_t("methods", 6 * 2 * (12 + 9 + 12 + 24) as u64, 16, |c, i| {
        let mut ix = Ix(i);
        let method = ix.take(6);
        let scheme = ["ws", "wss"][ix.take(2)];
        let v = ix.0 as usize;
        let (mut status, mut acc, mut upg, mut con, mut loc) = (101u16, 0, 0, 0, 0);
        match v {
            0..=11 => acc = v,
            12..=20 => upg = v - 12,
            21..=32 => con = v - 21,
            _ => {
                status = [100, 102, 200, 204, 300, 301, 302, 304, 307, 400, 426, 503][(v - 33) / 2];
                loc = (v - 33) % 2;
            }
        }
        c.note = format!("{} {} {}", crate::tls::METHODS[method], scheme, String::from_utf8_lossy(&resp_for(status, acc, upg, con, loc, KEY)));
        c.step();
        let d = crate::tls::dial(
            scheme,
            method,
            "",
            None,
            "/x",
            |u| Ok(ClientBuilder::new(u).map_err(|e| e.to_string())?),
            move |h| resp_for(status, acc, upg, con, loc, &parse_head(h).ok().and_then(|h| h.one("Sec-WebSocket-Key").ok().map(|s| s.to_string())).unwrap_or_default()),
            vec![],
        )?;
        let good = ACC[acc] == ["="]
            && UPG[upg].len() == 1
            && UPG[upg][0].eq_ignore_ascii_case("websocket")
            && CON[con].iter().flat_map(|l| l.split(',')).any(|t| t.trim().eq_ignore_ascii_case("upgrade"));
        let got = match d.got {
            Ok(_) => Dec::Ok,
            Err(e) => dec(e),
        };
        let ok = match status {
            101 => got == if good { Dec::Ok } else { Dec::Other },
            100..=199 => got != Dec::Ok,
            300..=399 if loc > 0 => got == Dec::Redirect(status, "http://elsewhere.example/x?y".into()),
            _ => got == Dec::Status(status),
        };
        ensure!(ok, "{:?}", got);
        c.state(&i);
        c.trace(&(method, scheme, got));
        Ok(())
    });
    // a builder used for several connections validates each response against the key of that connection
    x.bound("one builder reused for two connections with generated keys: the response to the first must not pass for the second");
    x.section("stale-accept", 2, |c, i| {
        let replay = i == 1;
        let mut b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?;
        let io = answering(usize::MAX);
        b.connect_on(io.clone()).map_err(|e| format!("{:?}", e))?;
        let k = parse_head(&io.out())?.one("Sec-WebSocket-Key")?.to_string();
        let io2 = if replay { Mock::with(&response(&accept_for(&k)), Tail::WouldBlock) } else { answering(usize::MAX) };
        c.step();
        let got = b.connect_on(io2).is_ok();
        ensure!(got != replay, "second connection: connected={}", got);
        c.state(&i);
        c.trace(&got);
        Ok(())
    });
    x.bound("one builder reused for up to 300 connections: each response is judged by the key of its own connection");
    x.section("stale-accept/long", 300, |c, i| {
        let n = i as usize + 2;
        let back = 1 + (i as usize * 7) % (n - 1);
        let mut b = ClientBuilder::new("ws://h/").map_err(|e| e.to_string())?;
        let mut keys = vec![];
        for t in 0..n {
            let io = answering(usize::MAX);
            b.connect_on(io.clone()).map_err(|e| format!("connection {}: {:?}", t, e))?;
            keys.push(parse_head(&io.out())?.one("Sec-WebSocket-Key")?.to_string());
        }
        c.note = format!("{} connections, then the response to the {}th last", n, back);
        c.step();
        let io = Mock::with(&response(&accept_for(&keys[n - back])), Tail::WouldBlock);
        ensure!(b.connect_on(io).is_err(), "connected with the accept of an earlier connection");
        c.state(&i);
        c.trace(&i);
        Ok(())
    });
}
