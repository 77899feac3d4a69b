//! C24: errors say what happened.
use crate::drv::*;
use crate::engine::*;
use crate::ensure;
use crate::fail;
use crate::http::*;
use crate::io::*;
use crate::model::*;
use crate::shim;
use crate::tls::{acceptor, connector, herr};
use futures::{Future, Sink, Stream};
use std::collections::HashMap;
use std::error::Error;
use std::fmt;
use std::io::{self, ErrorKind};
use std::net::{Ipv4Addr, TcpListener, TcpStream, ToSocketAddrs};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use tokio_codec::Decoder;
use websocket::codec::http::{HttpClientCodec, HttpCodecError, HttpServerCodec};
use websocket::header::Headers;
use websocket::receiver::Reader;
use websocket::result::{WSUrlErrorKind, WebSocketError, WebSocketOtherError};
use websocket::sender::Writer;
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::IntoWs as SIntoWs;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::server::InvalidConnection;
use websocket::sync::Server;
use websocket::{ClientBuilder, Message, OwnedMessage};

const KINDS: [ErrorKind; 22] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::WouldBlock,
    ErrorKind::Interrupted,
];
/// an error of the caller's own making, with a chain of causes
#[derive(Debug)]
struct Own(u32, Option<Box<Own>>);
impl fmt::Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "own error {}", self.0)
    }
}
impl Error for Own {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.1.as_ref().map(|e| e as &(dyn Error + 'static))
    }
}
fn own(n: u32, depth: usize) -> Own {
    Own(n, if depth == 0 { None } else { Some(Box::new(own(n + 1, depth - 1))) })
}
/// the three makings of an I/O error: bare, with a cause, from the system
fn ioe(i: usize) -> io::Error {
    let k = KINDS[i / 3 % KINDS.len()];
    match i % 3 {
        0 => k.into(),
        1 => io::Error::new(k, own(i as u32, 1)),
        _ => io::Error::from_raw_os_error((i / 3 % 130) as i32 + 1),
    }
}
const IOES: usize = 3 * 130;
fn same_io(a: &io::Error, i: usize) -> bool {
    let b = ioe(i);
    a.kind() == b.kind()
        && a.raw_os_error() == b.raw_os_error()
        && a.to_string() == b.to_string()
        && a.get_ref().is_some() == b.get_ref().is_some()
        && a.get_ref().map_or(true, |e| e.downcast_ref::<Own>().map_or(false, |o| o.0 == i as u32))
}
fn hyper_io(e: &hyper::Error) -> Option<&io::Error> {
    match e {
        hyper::Error::Io(e) => Some(e),
        _ => None,
    }
}
/// the I/O error an error stands for
fn find_io<'a>(e: &'a (dyn Error + 'static)) -> Option<&'a io::Error> {
    if let Some(e) = e.downcast_ref::<io::Error>() {
        return Some(e);
    }
    if let Some(e) = e.downcast_ref::<hyper::Error>() {
        return hyper_io(e);
    }
    let inner = match e.downcast_ref::<WebSocketError>() {
        Some(WebSocketError::IoError(e)) => return Some(e),
        Some(WebSocketError::Other(e)) => find_io(&**e as &(dyn Error + 'static)),
        _ => None,
    };
    if inner.is_some() {
        return inner;
    }
    e.source().and_then(find_io)
}
/// what a user can print about an error
fn report(e: &(dyn Error + 'static)) -> Result<(String, usize), String> {
    let mut s = e.to_string();
    ensure!(!s.trim().is_empty(), "{:?} has no text", e);
    ensure!(!format!("{:?}", e).is_empty() && !format!("{:#?}", e).is_empty(), "{} has no debug text", s);
    let mut n = 0;
    let mut x = e.source();
    while let Some(c) = x {
        n += 1;
        ensure!(n < 32, "the causes of {:?} do not end", e);
        s.push_str(" / ");
        s.push_str(&c.to_string());
        x = c.source();
    }
    Ok((s, n))
}
fn has(e: &(dyn Error + 'static), part: &str) -> Res {
    let (r, _) = report(e)?;
    ensure!(r.contains(part), "the report of {:?} is {:?}, without {:?}", e, r, part);
    Ok(())
}
const TEXTS: [&str; 5] = ["one", "a reason", "Ein Grund: ü€😀", "{} %s \\n", "x"];
fn hyper_err(i: usize) -> hyper::Error {
    use hyper::Error::*;
    match i {
        0 => Method,
        1 => Version,
        2 => Header,
        3 => TooLarge,
        4 => Status,
        5 => Ssl(Box::new(own(5, 1))),
        6 => Utf8(std::str::from_utf8(b"ab\xff").unwrap_err()),
        n if n < 17 => Uri(url_err(n - 7)),
        n => Io(ioe(n - 17)),
    }
}
const HYPERS: usize = 17 + IOES;
fn url_err(i: usize) -> url::ParseError {
    use url::ParseError::*;
    [
        EmptyHost,
        IdnaError,
        InvalidPort,
        InvalidIpv4Address,
        InvalidIpv6Address,
        InvalidDomainCharacter,
        RelativeUrlWithoutBase,
        RelativeUrlWithCannotBeABaseBase,
        SetHostOnCannotBeABaseUrl,
        Overflow,
    ][i]
}
const REFUSALS: usize = 8;
fn refusal(i: usize) -> HyperIntoWsError {
    use HyperIntoWsError::*;
    match i {
        0 => MethodNotGet,
        1 => UnsupportedHttpVersion,
        2 => UnsupportedWebsocketVersion,
        3 => NoSecWsKeyHeader,
        4 => NoWsUpgradeHeader,
        5 => NoUpgradeHeader,
        6 => NoWsConnectionHeader,
        _ => NoConnectionHeader,
    }
}
fn url_kind(i: usize) -> WSUrlErrorKind {
    match i {
        0 => WSUrlErrorKind::CannotSetFragment,
        1 => WSUrlErrorKind::InvalidScheme,
        _ => WSUrlErrorKind::NoHostName,
    }
}
fn values(x: &Ctx) {
    x.section("io errors", IOES as u64, |c, i| {
        let i = i as usize;
        let b = ioe(i);
        c.step();
        // through every wrapper
        let w: WebSocketError = ioe(i).into();
        if b.kind() == ErrorKind::UnexpectedEof {
            ensure!(matches!(w, WebSocketError::NoDataAvailable), "an end of data became {:?}", w);
        } else {
            match &w {
                WebSocketError::IoError(e) if same_io(e, i) => {}
                w => fail!("{:?} became {:?}", b, w),
            }
            has(&w, &b.to_string())?;
        }
        let v = WebSocketError::IoError(ioe(i));
        has(&v, &b.to_string())?;
        let o = WebSocketOtherError::IoError(ioe(i));
        has(&o, &b.to_string())?;
        let u: HyperIntoWsError = ioe(i).into();
        match &u {
            HyperIntoWsError::Io(e) if same_io(e, i) => {}
            u => fail!("{:?} became {:?}", b, u),
        }
        has(&u, &b.to_string())?;
        let k: HttpCodecError = ioe(i).into();
        match &k {
            HttpCodecError::Io(e) if same_io(e, i) => {}
            k => fail!("{:?} became {:?}", b, k),
        }
        has(&k, &b.to_string())?;
        let all: Vec<Box<dyn Error>> = vec![
            Box::new(v),
            Box::new(o),
            Box::new(u),
            Box::new(k),
            Box::new(WebSocketOtherError::from(HyperIntoWsError::Io(ioe(i)))),
            Box::new(WebSocketOtherError::from(HyperIntoWsError::Parsing(hyper::Error::Io(ioe(i))))),
            Box::new(WebSocketOtherError::from(HttpCodecError::Io(ioe(i)))),
            Box::new(WebSocketOtherError::from(HttpCodecError::Http(hyper::Error::Io(ioe(i))))),
            Box::new(WebSocketOtherError::from(hyper::Error::Io(ioe(i)))),
            Box::new(HyperIntoWsError::from(HttpCodecError::Io(ioe(i)))),
            Box::new(HyperIntoWsError::from(HttpCodecError::Http(hyper::Error::Io(ioe(i))))),
            Box::new(WebSocketError::from(WebSocketOtherError::IoError(ioe(i)))),
            Box::new(WebSocketError::from(WebSocketOtherError::HttpError(hyper::Error::Io(ioe(i))))),
            Box::new(WebSocketError::from(WebSocketOtherError::from(HyperIntoWsError::Io(ioe(i))))),
            Box::new(WebSocketError::from(WebSocketOtherError::from(HttpCodecError::Io(ioe(i))))),
            Box::new(WebSocketError::from(WebSocketOtherError::from(HttpCodecError::Http(hyper::Error::Io(ioe(i)))))),
            Box::new(WebSocketError::Other(Box::new(ioe(i)))),
            Box::new(WebSocketError::Other(Box::new(HyperIntoWsError::Io(ioe(i))))),
        ];
        for (n, e) in all.iter().enumerate() {
            c.step();
            match find_io(&**e) {
                Some(f) if same_io(f, i) => {}
                f => fail!("wrapping {}: {:?} is found as {:?} in {:?}", n, b, f, e),
            }
            has(&**e, &b.to_string())?;
        }
        let d = format!("{:?}", InvalidConnection::<Mock, ()> { stream: None, parsed: None, buffer: None, error: HyperIntoWsError::Io(ioe(i)) });
        ensure!(d.contains(&format!("{:?}", b)), "{:?} does not show the error {:?}", d, b);
        c.state(&("io", format!("{:?}", b)));
        c.trace(&w.to_string());
        Ok(())
    });
    x.section("parse errors", HYPERS as u64, |c, i| {
        let i = i as usize;
        let t = hyper_err(i).to_string();
        let same = |e: &hyper::Error| format!("{:?}", e) == format!("{:?}", hyper_err(i));
        let a = HyperIntoWsError::from(hyper_err(i));
        ensure!(matches!(&a, HyperIntoWsError::Parsing(e) if same(e)), "{} became {:?}", t, a);
        let b = HttpCodecError::from(hyper_err(i));
        ensure!(matches!(&b, HttpCodecError::Http(e) if same(e)), "{} became {:?}", t, b);
        let d = WebSocketOtherError::from(hyper_err(i));
        ensure!(matches!(&d, WebSocketOtherError::HttpError(e) if same(e)), "{} became {:?}", t, d);
        let all: Vec<Box<dyn Error>> = vec![
            Box::new(a),
            Box::new(b),
            Box::new(d),
            Box::new(HyperIntoWsError::from(HttpCodecError::Http(hyper_err(i)))),
            Box::new(WebSocketOtherError::from(HttpCodecError::Http(hyper_err(i)))),
            Box::new(WebSocketOtherError::from(HyperIntoWsError::Parsing(hyper_err(i)))),
            Box::new(WebSocketError::from(WebSocketOtherError::HttpError(hyper_err(i)))),
        ];
        for e in &all {
            c.step();
            has(&**e, &t)?;
            let found = {
                let mut x: Option<&(dyn Error + 'static)> = Some(&**e);
                let mut ok = matches!(e.downcast_ref::<WebSocketError>(), Some(WebSocketError::Other(o)) if matches!(o.downcast_ref::<WebSocketOtherError>(), Some(WebSocketOtherError::HttpError(h)) if same(h)));
                while let Some(y) = x {
                    ok |= y.downcast_ref::<hyper::Error>().map_or(false, same);
                    x = y.source();
                }
                ok
            };
            ensure!(found, "the parse error {} is not found in {:?}", t, e);
        }
        c.state(&("hyper", i));
        c.trace(&t);
        Ok(())
    });
    let mut named: Vec<(String, Box<dyn Fn() -> Box<dyn Error> + Sync>)> = vec![];
    for t in TEXTS.iter() {
        let t: &'static str = t;
        named.push((t.into(), Box::new(move || Box::new(WebSocketOtherError::ProtocolError(t)))));
        named.push((t.into(), Box::new(move || Box::new(WebSocketOtherError::RequestError(t)))));
        named.push((t.into(), Box::new(move || Box::new(WebSocketOtherError::ResponseError(t)))));
    }
    for i in 0..10 {
        let t = url_err(i).to_string();
        named.push((t.clone(), Box::new(move || Box::new(WebSocketOtherError::UrlError(url_err(i))))));
        named.push((t, Box::new(move || Box::new(WebSocketOtherError::from(url_err(i))))));
    }
    for i in 0..3 {
        let t = url_kind(i).to_string();
        named.push((t.clone(), Box::new(move || Box::new(url_kind(i)))));
        named.push((t.clone(), Box::new(move || Box::new(WebSocketOtherError::WebSocketUrlError(url_kind(i))))));
        named.push((t, Box::new(move || Box::new(WebSocketOtherError::from(url_kind(i))))));
    }
    for i in 0..REFUSALS {
        named.push((String::new(), Box::new(move || Box::new(refusal(i)))));
        named.push((String::new(), Box::new(move || Box::new(WebSocketOtherError::from(refusal(i))))));
    }
    let tls = || native_tls::Certificate::from_pem(b"nothing").err().expect("not a certificate");
    let t = tls().to_string();
    named.push((t.clone(), Box::new(move || Box::new(WebSocketOtherError::TlsError(tls())))));
    named.push((t, Box::new(move || Box::new(WebSocketOtherError::from(tls())))));
    named.push((String::new(), Box::new(|| Box::new(WebSocketOtherError::TlsHandshakeFailure))));
    named.push((String::new(), Box::new(|| Box::new(WebSocketOtherError::TlsHandshakeInterruption))));
    for d in 0..6 {
        for n in &[0u32, 7, u32::max_value() - 6] {
            let n = *n;
            named.push((format!("own error {}", n), Box::new(move || Box::new(WebSocketError::Other(Box::new(own(n, d)))))));
        }
    }
    for i in 0..4 {
        named.push((
            String::new(),
            Box::new(move || {
                Box::new(match i {
                    0 => WebSocketError::ProtocolError("why"),
                    1 => WebSocketError::DataFrameError("why"),
                    2 => WebSocketError::NoDataAvailable,
                    _ => WebSocketError::Utf8Error(std::str::from_utf8(b"ab\xff").unwrap_err()),
                })
            }),
        ));
    }
    x.section("named errors", named.len() as u64 * 2, |c, i| {
        let (part, make) = &named[i as usize / 2];
        let e = make();
        c.step();
        has(&*e, part)?;
        let (r, n) = report(&*e)?;
        let again = make();
        ensure!(again.to_string() == e.to_string() && format!("{:?}", again) == format!("{:?}", e), "{:?} is told in two ways", e);
        if i % 2 == 1 {
            // and as the cause inside the receiver's error
            let w = match e.downcast::<WebSocketOtherError>() {
                Ok(o) => WebSocketError::from(*o),
                Err(_) => return Ok(()),
            };
            c.step();
            let inner = make();
            has(&w, &inner.to_string())?;
            ensure!(w.to_string().contains(&inner.to_string()), "{:?} does not tell {:?}", w.to_string(), inner.to_string());
            match &w {
                WebSocketError::Other(o) => {
                    let o = o.downcast_ref::<WebSocketOtherError>();
                    ensure!(o.map_or(false, |o| format!("{:?}", o) == format!("{:?}", inner)), "{:?} became {:?}", inner, w);
                }
                w => fail!("{:?} became {:?}", inner, w),
            }
            let (_, m) = report(&w)?;
            ensure!(m >= n, "causes of {:?} are lost", w);
        }
        c.state(&r);
        c.trace(&n);
        Ok(())
    });
    // every 3xx with every location, every other status
    const LOC: [&str; 9] = ["/", "ws://other.test/", "", "a b", "{}", "%41", "/ü€", "https://x.test/?a=b#c", "x"];
    x.section("statuses", 500 * (1 + LOC.len() as u64), |c, i| {
        use hyper::status::StatusCode;
        let (n, l) = (100 + (i / 10) as u16, i as usize % 10);
        let st = StatusCode::from_u16(n);
        let o = || if l == 0 { WebSocketOtherError::StatusCodeError(st) } else { WebSocketOtherError::RedirectError(st, LOC[l - 1].to_string()) };
        c.step();
        for part in &[n.to_string(), if l == 0 { String::new() } else { LOC[l - 1].to_string() }] {
            ensure!(o().to_string().contains(part), "{:?} is told without {:?}", o(), part);
            let w = WebSocketError::from(o());
            ensure!(w.to_string().contains(part), "{:?} is told without {:?}", w, part);
        }
        report(&WebSocketError::from(o()))?;
        c.state(&(n, l));
        c.trace(&l);
        Ok(())
    });
    // locations of every length and width of character
    const UNITS: [&str; 6] = ["a", "é", "→", "😀", "%C3%A9", "é→"];
    x.section("locations", 6 * (320 + 12), |c, i| {
        use hyper::status::StatusCode;
        let (u, k) = (UNITS[i as usize % 6], i as usize / 6);
        let n = if k < 320 { k } else { 1 << (k - 320 + 6) };
        for lead in &["", "x", "ws://other.test/"] {
            let l = format!("{}{}", lead, u.repeat(n));
            let o = || WebSocketOtherError::RedirectError(StatusCode::from_u16(300 + (n % 9) as u16), l.clone());
            c.step();
            let t = o().to_string();
            ensure!(t.contains(&l), "a location of {} bytes is told as {:?}", l.len(), t.chars().take(100).collect::<String>());
            let w = WebSocketError::from(o());
            ensure!(w.to_string().contains(&l), "a location of {} bytes is cut in the general error", l.len());
            if n < 330 {
                report(&w)?;
            }
        }
        c.state(&(n, u));
        c.trace(&(n.min(8), u));
        Ok(())
    });
    // different reasons, different texts
    x.section("distinct", 4, |c, i| {
        let list: Vec<String> = match i {
            0 => (0..REFUSALS).map(|k| refusal(k).to_string()).collect(),
            1 => (0..REFUSALS).map(|k| WebSocketOtherError::from(refusal(k)).to_string()).chain((0..3).map(|k| WebSocketOtherError::from(url_kind(k)).to_string())).collect(),
            2 => {
                let mut v = vec![
                    WebSocketOtherError::RequestError("x").to_string(),
                    WebSocketOtherError::ResponseError("x").to_string(),
                    WebSocketOtherError::TlsHandshakeFailure.to_string(),
                    WebSocketOtherError::TlsHandshakeInterruption.to_string(),
                ];
                v.extend((0..10).map(|k| WebSocketOtherError::from(url_err(k)).to_string()));
                v.extend((0..5).map(|k| WebSocketOtherError::from(hyper_err(k)).to_string()));
                v
            }
            _ => {
                let mut v: Vec<String> = vec![
                    WebSocketError::ProtocolError("x").to_string(),
                    WebSocketError::DataFrameError("x").to_string(),
                    WebSocketError::NoDataAvailable.to_string(),
                    WebSocketError::IoError(ErrorKind::Other.into()).to_string(),
                    WebSocketError::Utf8Error(std::str::from_utf8(b"\xff").unwrap_err()).to_string(),
                ];
                v.extend((0..REFUSALS).map(|k| WebSocketError::from(WebSocketOtherError::from(refusal(k))).to_string()));
                v
            }
        };
        let mut seen: HashMap<&String, usize> = HashMap::new();
        for (k, t) in list.iter().enumerate() {
            c.step();
            if let Some(j) = seen.insert(t, k) {
                fail!("two errors of list {} ({} and {}) are both {:?}", i, j, k, t);
            }
        }
        c.state(&list);
        c.trace(&list.len());
        Ok(())
    });
    // where UTF-8 goes wrong is kept
    x.section("utf-8", 64, |c, i| {
        let mut v = b"abcdefgh".to_vec();
        v[(i % 8) as usize] = [0xff, 0xc0, 0x80, 0xf5, 0xe0, 0xed, 0xf8, 0xc1][(i / 8) as usize];
        let u = std::str::from_utf8(&v).unwrap_err();
        let w = WebSocketError::from(u);
        c.step();
        match &w {
            WebSocketError::Utf8Error(e) if *e == u => {}
            w => fail!("{:?} became {:?}", u, w),
        }
        has(&w, &u.to_string())?;
        c.state(&(u.valid_up_to(), u.error_len()));
        c.trace(&i);
        Ok(())
    });
}
/// an operation met by this I/O error reports it
fn judge(what: &str, k: ErrorKind, e: &(dyn Error + 'static)) -> Res {
    report(e)?;
    if k == ErrorKind::UnexpectedEof {
        if let Some(WebSocketError::NoDataAvailable) = e.downcast_ref::<WebSocketError>() {
            return Ok(());
        }
    }
    match find_io(e) {
        Some(f) if f.kind() == k && f.to_string() == "mock" => Ok(()),
        f => fail!("{}: the transport reported {:?}, the caller is told {:?} (I/O error {:?})", what, k, e, f),
    }
}
fn faults(x: &Ctx) {
    let kinds: Vec<ErrorKind> = KINDS.iter().cloned().filter(|k| *k != ErrorKind::WouldBlock && *k != ErrorKind::Interrupted).collect();
    let nk = kinds.len() as u64;
    let resp = response(&accept_for(KEY));
    let req = request("/");
    let frames = |server: bool| -> (Vec<u8>, Vec<usize>) {
        let mut v = vec![];
        let mut ends = vec![];
        for f in &[fr(true, 1, b"ab"), fr(true, 9, b""), fr(true, 2, &pat(130, 3))] {
            let mut f = f.clone();
            if server {
                f.mask = Some(KEYS[0]);
            }
            v.extend(wire(&[f]));
            ends.push(v.len());
        }
        (v, ends)
    };
    // receiving
    const RX: [&str; 8] = ["recv_message", "incoming_messages", "recv_dataframe", "incoming_dataframes", "reader", "reader iterator", "framed", "reader_mut"];
    let longest = frames(true).0.len() as u64 + 1;
    x.section("faults/receiving", RX.len() as u64 * 2 * nk * longest, |c, i| {
        let mut ix = Ix(i);
        let (op, server, k, p) = (ix.take(RX.len()), ix.take(2) == 1, *ix.pick(&kinds), ix.take(longest as usize));
        let (v, ends) = frames(server);
        if p > v.len() {
            return Ok(());
        }
        let whole = ends.iter().filter(|e| **e <= p).count();
        let io = Mock::new(vec![Seg::Data(v[..p].to_vec()), Seg::Fail(k)], Tail::Eof);
        let what = format!("{} ({}) after {} bytes", RX[op], if server { "server" } else { "client" }, p);
        c.step();
        let mut got = 0;
        let e: WebSocketError = if op == 6 {
            let mut f = async_client(&Mock::new(vec![], Tail::WouldBlock), server, None).map(|_| framed(io.clone(), server, (1 << 20, 1 << 20)))?;
            loop {
                match run_future(f.into_future(), 1000)? {
                    Ok((Some(_), n)) => {
                        got += 1;
                        f = n;
                    }
                    Ok((None, _)) => fail!("{}: the end instead of {:?}", what, k),
                    Err((e, _)) => break e,
                }
            }
        } else {
            let quiet = Mock::new(vec![], Tail::Eof);
            let mut cl = sync_client(&quiet, server, None)?;
            quiet.st().input = std::mem::replace(&mut io.st().input, Default::default());
            macro_rules! drain {
                ($n:expr) => {
                    loop {
                        match $n {
                            Ok(_) => got += 1,
                            Err(e) => break e,
                        }
                    }
                };
            }
            match op {
                0 => drain!(cl.recv_message()),
                1 => {
                    let mut it = cl.incoming_messages();
                    drain!(match it.next() {
                        Some(r) => r.map(|_| ()),
                        None => fail!("{}: the end instead of {:?}", what, k),
                    })
                }
                2 => drain!(cl.recv_dataframe()),
                3 => {
                    let mut it = cl.incoming_dataframes();
                    drain!(match it.next() {
                        Some(r) => r.map(|_| ()),
                        None => fail!("{}: the end instead of {:?}", what, k),
                    })
                }
                4 => {
                    let mut r: Reader<Mock> = reader(quiet.clone(), server, (1 << 20, 1 << 20));
                    drain!(r.recv_message())
                }
                5 => {
                    let mut r: Reader<Mock> = reader(quiet.clone(), server, (1 << 20, 1 << 20));
                    let mut it = r.incoming_messages();
                    drain!(match it.next() {
                        Some(r) => r.map(|_| ()),
                        None => fail!("{}: the end instead of {:?}", what, k),
                    })
                }
                _ => {
                    let mut b = vec![];
                    match std::io::Read::read_to_end(cl.reader_mut(), &mut b) {
                        Ok(_) => fail!("{}: the end instead of {:?}", what, k),
                        Err(e) => {
                            ensure!(b == v[..p], "{}: raw bytes {}", what, hex(&b));
                            got = whole;
                            WebSocketError::IoError(e)
                        }
                    }
                }
            }
        };
        ensure!(got == whole, "{}: {} frames before {:?}, {} were whole", what, got, k, whole);
        judge(&what, k, &e)?;
        c.state(&("rx", op, server, p));
        c.trace(&(op, k, whole));
        Ok(())
    });
    // sending: `p` bytes are taken
    const TX: [&str; 5] = ["send_message", "send_dataframe", "writer", "writer dataframe", "framed"];
    x.section("faults/sending", TX.len() as u64 * 2 * nk * 20, |c, i| {
        let mut ix = Ix(i);
        let (op, server, k, p) = (ix.take(TX.len()), ix.take(2) == 1, *ix.pick(&kinds), ix.take(20));
        let m = Message::text("0123456789");
        let len = if server { 12 } else { 16 };
        if p >= len {
            return Ok(());
        }
        let io = Mock::new(vec![], Tail::WouldBlock);
        let what = format!("{} ({}) after {} bytes", TX[op], if server { "server" } else { "client" }, p);
        let arm = |io: &Mock| {
            let mut s = io.st();
            s.budget = Some(p);
            s.wtail = Some(k);
        };
        c.step();
        let e: WebSocketError = match op {
            4 => {
                let f = async_client(&io, server, None)?;
                arm(&io);
                match run_future(f.send(OwnedMessage::from(m)), 1000)? {
                    Ok(_) => fail!("{}: done although {:?}", what, k),
                    Err(e) => e,
                }
            }
            2 | 3 => {
                arm(&io);
                let mut w = Writer { stream: io.clone(), sender: websocket::sender::Sender::new(!server) };
                let r = if op == 2 { w.send_message(&m) } else { w.send_dataframe(&m) };
                match r {
                    Ok(_) => fail!("{}: done although {:?}", what, k),
                    Err(e) => e,
                }
            }
            _ => {
                let mut cl = sync_client(&io, server, None)?;
                arm(&io);
                let r = if op == 0 { cl.send_message(&m) } else { cl.send_dataframe(&m) };
                match r {
                    Ok(_) => fail!("{}: done although {:?}", what, k),
                    Err(e) => e,
                }
            }
        };
        judge(&what, k, &e)?;
        c.state(&("tx", op, server, p));
        c.trace(&(op, k));
        Ok(())
    });
    // handshakes, reading the other side's head
    const HS: [&str; 6] = ["connect_on", "async_connect_on", "into_ws", "async into_ws", "client head codec", "server head codec"];
    let span = resp.len().max(req.len()) as u64;
    x.section("faults/reading heads", HS.len() as u64 * nk * span, |c, i| {
        let mut ix = Ix(i);
        let (op, k, p) = (ix.take(HS.len()), *ix.pick(&kinds), ix.take(span as usize));
        let head = if op == 2 || op == 3 || op == 5 { &req } else { &resp };
        if p >= head.len() {
            return Ok(());
        }
        let io = Mock::new(vec![Seg::Data(head[..p].to_vec()), Seg::Fail(k)], Tail::Eof);
        let what = format!("{} after {} bytes of the head", HS[op], p);
        let b = || ClientBuilder::new("ws://example.com/").map_err(|e| format!("{:?}", e)).map(|b| b.key(KEY_BYTES));
        c.step();
        let e: Box<dyn Error> = match op {
            0 => match b()?.connect_on(io.clone()) {
                Ok(_) => fail!("{}: connected", what),
                Err(e) => Box::new(e),
            },
            1 => match run_future(b()?.async_connect_on(io.clone()), 1000)? {
                Ok(_) => fail!("{}: connected", what),
                Err(e) => Box::new(e),
            },
            2 => match SIntoWs::into_ws(io.clone()) {
                Ok(_) => fail!("{}: a request", what),
                Err((_, _, _, e)) => Box::new(e),
            },
            3 => match run_future(AIntoWs::into_ws(io.clone()), 1000)? {
                Ok(_) => fail!("{}: a request", what),
                Err((_, _, _, e)) => Box::new(e),
            },
            4 => match run_future(HttpClientCodec.framed(io.clone()).into_future(), 1000)? {
                Ok(_) => fail!("{}: a head", what),
                Err((e, _)) => Box::new(e),
            },
            _ => match run_future(HttpServerCodec.framed(io.clone()).into_future(), 1000)? {
                Ok(_) => fail!("{}: a head", what),
                Err((e, _)) => Box::new(e),
            },
        };
        // the same kind the parsers use for a head which ends early
        if k == ErrorKind::UnexpectedEof {
            report(&*e)?;
        } else {
            judge(&what, k, &*e)?;
        }
        c.state(&("hs", op, p));
        c.trace(&(op, k));
        Ok(())
    });
    // handshakes, writing the own head
    const WS: [&str; 7] = ["connect_on", "async_connect_on", "accept", "accept_with", "reject", "async accept", "async reject"];
    x.section("faults/writing heads", WS.len() as u64 * nk * 300, |c, i| {
        let mut ix = Ix(i);
        let (op, k, p) = (ix.take(WS.len()), *ix.pick(&kinds), ix.take(300));
        let io = Mock::new(vec![], Tail::Eof);
        io.st().budget = Some(p);
        io.st().wtail = Some(k);
        let what = format!("{} when {} bytes are written", WS[op], p);
        let b = || ClientBuilder::new("ws://example.com/").map_err(|e| format!("{:?}", e)).map(|b| b.key(KEY_BYTES));
        let up = || match websocket::server::upgrade::sync::RequestStreamPair(io.clone(), good_request()).into_ws() {
            Ok(u) => Ok(u),
            Err((_, _, e)) => Err(format!("valid request refused: {:?}", e)),
        };
        let aup = || websocket::server::upgrade::r#async::Upgrade { headers: Headers::new(), stream: io.clone(), request: good_request(), buffer: bytes::BytesMut::new() };
        c.step();
        let mut extra = Headers::new();
        extra.set_raw("X-One", vec![b"1".to_vec()]);
        let e: Result<(), Box<dyn Error>> = match op {
            0 => b()?.connect_on(io.clone()).map(|_| ()).map_err(|e| e.into()),
            1 => run_future(b()?.async_connect_on(io.clone()), 1000)?.map(|_| ()).map_err(|e| e.into()),
            2 => up()?.accept().map(|_| ()).map_err(|e| e.1.into()),
            3 => up()?.accept_with(&extra).map(|_| ()).map_err(|e| e.1.into()),
            4 => up()?.reject().map(|_| ()).map_err(|e| e.1.into()),
            5 => run_future(aup().accept(), 1000)?.map(|_| ()).map_err(|e| e.into()),
            _ => run_future(aup().reject(), 1000)?.map(|_| ()).map_err(|e| e.into()),
        };
        // the whole head went out: the transport was never asked for more
        if !io.failed() {
            return Ok(());
        }
        match e {
            Ok(()) => fail!("{}: done although {:?}", what, k),
            Err(e) => judge(&what, k, &*e)?,
        }
        c.state(&("wr", op, p));
        c.trace(&(op, k));
        Ok(())
    });
}
static NEXT: AtomicU32 = AtomicU32::new(0);
fn sockets(x: &Ctx) {
    // nobody listens; no such name
    const M: [&str; 6] = ["connect_insecure", "connect_secure", "connect", "async_connect_insecure", "async_connect_secure", "async_connect"];
    // the system's own reasons; not: interrupted, already, in progress, would block, connected
    let codes: Vec<i32> = (1..134).filter(|e| ![4, 11, 41, 58, 106, 114, 115].contains(e)).collect();
    let codes = &codes;
    x.bound("every dialling method, ws and wss: an unknown name, nobody listening (stand-in and real), and each of 126 error codes of connect");
    x.section("dialling", 6 * 2 * (3 + codes.len() as u64), |c, i| {
        let mut ix = Ix(i);
        let (m, secure) = (ix.take(6), ix.take(2) == 1);
        let way = ix.0 as usize;
        let named = way > 0;
        let id = NEXT.fetch_add(1, SeqCst);
        let host = format!("err{}.mc.test", id);
        let ip = u32::from(Ipv4Addr::new(127, 77, 200 + (id >> 8) as u8, id as u8));
        let default = if secure { 443 } else { 80 };
        if named {
            shim::name(&host, ip);
        }
        let code = match way {
            0 | 1 => shim::ECONNREFUSED,
            2 => {
                shim::route(ip, default, 1);
                shim::ECONNREFUSED
            }
            _ => {
                shim::unreachable(ip, codes[way - 3]);
                codes[way - 3]
            }
        };
        c.step();
        let url = format!("{}://{}/", if secure { "wss" } else { "ws" }, host);
        let mut b = ClientBuilder::new(&url).map_err(|e| format!("{:?}", e))?;
        let run = |f: websocket::r#async::WebSocketFuture<()>| -> Result<Option<WebSocketError>, String> {
            let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(herr)?;
            Ok(rt.block_on(f).err())
        };
        let conf = Some(connector()?);
        let e = match m {
            0 => b.connect_insecure().err(),
            1 => b.connect_secure(conf).err(),
            2 => b.connect(conf).err(),
            3 => run(Box::new(b.async_connect_insecure().map(|_| ())))?,
            4 => run(Box::new(b.async_connect_secure(conf).map(|_| ())))?,
            _ => run(Box::new(b.async_connect(conf).map(|_| ())))?,
        };
        let lookup = (&host[..], default).to_socket_addrs().err().map(|e| (e.kind(), e.to_string()));
        shim::unreachable(ip, 0);
        shim::unroute(ip, default);
        shim::forget(&host, ip);
        let what = format!("{} to {}", M[m], url);
        let e = match e {
            None => fail!("{}: connected", what),
            Some(e) => e,
        };
        report(&e)?;
        match find_io(&e) {
            Some(f) if named && f.raw_os_error() == Some(code) => c.trace(&code),
            Some(f) if !named && lookup == Some((f.kind(), f.to_string())) => c.trace(&lookup),
            f => fail!("{}: {:?}, I/O error {:?}; the system's {}", what, e, f, if named { format!("code is {}", code) } else { format!("answer is {:?}", lookup) }),
        }
        c.state(&(m, secure, way));
        Ok(())
    });
    // URLs which lead nowhere
    x.section("urls", 6 * 8, |c, i| {
        let (m, u) = (i % 6, ["ws:", "data:text/plain,x", "ws:///", "unix:/run/x", "ws:path", "mailto:a@b", "http:///", "foo:bar"][i as usize / 6]);
        let mut b = match ClientBuilder::new(u) {
            Err(e) => {
                report(&e)?;
                c.trace(&e.to_string());
                return Ok(());
            }
            Ok(b) => b,
        };
        c.step();
        if url::Url::parse(u).map(|u| u.has_host()).unwrap_or(false) {
            return Ok(());
        }
        let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(herr)?;
        let conf = Some(connector()?);
        let e = match m {
            0 => b.connect_insecure().err(),
            1 => b.connect_secure(conf).err(),
            2 => b.connect(conf).err(),
            3 => rt.block_on(b.async_connect_insecure()).err(),
            4 => rt.block_on(b.async_connect_secure(conf)).err(),
            _ => rt.block_on(b.async_connect(conf)).err(),
        };
        match e {
            None => fail!("{} with {}: connected", M[m as usize], u),
            Some(WebSocketError::Other(o)) => match o.downcast_ref::<WebSocketOtherError>() {
                Some(WebSocketOtherError::WebSocketUrlError(k)) => c.trace(&k.to_string()),
                o => fail!("{} with {}: {:?}", M[m as usize], u, o),
            },
            Some(e) => fail!("{} with {}: {:?}", M[m as usize], u, e),
        }
        c.state(&(m, u));
        Ok(())
    });
    // a clear-text peer is no TLS peer
    x.section("no tls", 4 * 3, |c, i| {
        let (m, reply) = ([1, 2, 4, 5][i as usize % 4], [&b"HTTP/1.1 400 Bad Request\r\n\r\n"[..], b"", b"\x15\x03\x01\x00\x02\x02\x28"][i as usize / 4]);
        let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
        let at = l.local_addr().map_err(herr)?;
        let reply = reply.to_vec();
        let th = std::thread::spawn(move || {
            if let Ok((mut s, _)) = l.accept() {
                use std::io::{Read, Write};
                let _ = s.read(&mut [0; 4096]);
                let _ = s.write_all(&reply);
                shim::reset_on_close(std::os::unix::io::AsRawFd::as_raw_fd(&s));
                let _ = s.shutdown(std::net::Shutdown::Write);
                let _ = s.read(&mut [0; 4096]);
            }
        });
        c.step();
        let url = format!("wss://localhost:{}/", at.port());
        let mut b = ClientBuilder::new(&url).map_err(|e| format!("{:?}", e))?;
        let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(herr)?;
        let conf = Some(connector()?);
        let e = match m {
            1 => b.connect_secure(conf).err(),
            2 => b.connect(conf).err(),
            4 => rt.block_on(b.async_connect_secure(conf)).err(),
            _ => rt.block_on(b.async_connect(conf)).err(),
        };
        // in case the client never came
        let _ = TcpStream::connect(at);
        let _ = th.join();
        let e = match e {
            None => fail!("{}: connected to a peer which speaks no TLS", M[m]),
            Some(e) => e,
        };
        let tls = matches!(&e, WebSocketError::Other(o) if matches!(o.downcast_ref::<WebSocketOtherError>(), Some(WebSocketOtherError::TlsHandshakeFailure) | Some(WebSocketOtherError::TlsError(_))));
        ensure!(tls, "{}: the failed TLS handshake is reported as {:?}", M[m], e);
        report(&e)?;
        c.state(&(m, i / 4));
        c.trace(&m);
        Ok(())
    });
    // a TLS handshake over a transport which fails or would block, converted
    x.section("tls conversions", 2, |c, i| {
        let io = if i == 0 { Mock::with(b"no tls at all", Tail::Eof) } else { Mock::new(vec![], Tail::WouldBlock) };
        let e = match connector()?.connect("localhost", io) {
            Ok(_) => fail!("{}: connected", HARNESS),
            Err(e) => e,
        };
        c.step();
        let interrupted = matches!(e, native_tls::HandshakeError::WouldBlock(_));
        ensure!(interrupted == (i == 1), "{}: {:?}", HARNESS, interrupted);
        match WebSocketOtherError::from(e) {
            WebSocketOtherError::TlsHandshakeFailure | WebSocketOtherError::TlsError(_) if !interrupted => {}
            WebSocketOtherError::TlsHandshakeInterruption if interrupted => {}
            e => fail!("a handshake which {} became {:?}", if interrupted { "would block" } else { "failed" }, e),
        }
        c.state(&i);
        c.trace(&i);
        Ok(())
    });
    // a client of a secure server which speaks no TLS: the server is told why
    let peers: [&[u8]; 8] = [
        b"GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\n\r\n",
        b"\x15\x03\x01\x00\x02\x02\x28",
        b"\x16\x03\x01\x00\x04\x01\x00\x00\x00",
        b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00",
        b"\x16\x09\x09\x00\x04\x01\x00\x00\x00",
        b"\x81\x05hello and more",
        b"CONNECT h:443 HTTP/1.1\r\n\r\n",
        b"\x16\x03\x01\x00\x06\x02\x00\x00\x02\x03\x03",
    ];
    x.section("server tls", peers.len() as u64 * 3, |c, i| {
        let (bytes, how) = (peers[i as usize / 3], i % 3);
        // what TLS itself says about these bytes
        let direct = match acceptor(0)?.accept(Mock::with(bytes, Tail::Eof)) {
            Err(native_tls::HandshakeError::Failure(e)) => e.to_string(),
            _ => fail!("{}: no failure", HARNESS),
        };
        c.step();
        c.note = format!("bytes {}", hex(bytes));
        let go = |at: std::net::SocketAddr| -> Result<TcpStream, String> {
            use std::io::Write;
            let mut s = TcpStream::connect(at).map_err(herr)?;
            s.write_all(bytes).map_err(herr)?;
            s.shutdown(std::net::Shutdown::Write).map_err(herr)?;
            shim::reset_on_close(std::os::unix::io::AsRawFd::as_raw_fd(&s));
            Ok(s)
        };
        let e: HyperIntoWsError = if how < 2 {
            let mut s = Server::bind_secure("127.0.0.1:0", acceptor(0)?).map_err(|e| format!("{:?}", e))?;
            let _p = go(s.local_addr().map_err(herr)?)?;
            let r = if how == 0 { s.accept() } else { s.next().ok_or("the iterator over connections ended")? };
            match r {
                Ok(_) => fail!("a request came out of what is not TLS"),
                Err(e) => e.error,
            }
        } else {
            let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(herr)?;
            let s = websocket::r#async::Server::bind_secure("127.0.0.1:0", acceptor(0)?, &Default::default()).map_err(|e| format!("{:?}", e))?;
            let _p = go(s.local_addr().map_err(herr)?)?;
            match rt.block_on(s.incoming().into_future()) {
                Ok(_) => fail!("a request came out of what is not TLS"),
                Err((e, _)) => e.error,
            }
        };
        has(&e, &direct)?;
        c.state(&i);
        c.trace(&direct);
        Ok(())
    });
    // a listener whose accept fails
    let errs = [1, 4, 9, 11, 12, 23, 24, 71, 93, 95, 100, 101, 103, 105, 110, 112, 113];
    x.section("accept", errs.len() as u64 * 4, |c, i| {
        let (n, tls, iter) = (errs[i as usize / 4], i % 2 == 1, i / 2 % 2 == 1);
        macro_rules! go {
            ($s:expr) => {{
                let mut s = $s;
                let port = s.local_addr().map_err(|e| format!("{:?}", e))?.port();
                shim::script_accepts(port, vec![n]);
                // EINTR is tried again: somebody is there
                let other = TcpStream::connect(("127.0.0.1", port)).map_err(herr)?;
                shim::reset_on_close(std::os::unix::io::AsRawFd::as_raw_fd(&other));
                drop(other);
                let r = if iter { s.next().ok_or("the iterator over connections ended")? } else { s.accept() };
                let left = shim::accepts_left(port);
                shim::clear_scripts(port);
                ensure!(left == 0, "{}: the scripted accept was not reached", HARNESS);
                match r {
                    Ok(_) => fail!("a connection although accept failed with {}", n),
                    Err(e) => {
                        let d = format!("{:?}", e);
                        if n != 4 {
                            ensure!(e.stream.is_none() && e.parsed.is_none() && e.buffer.is_none(), "a stream although accept failed with {}", n);
                            match &e.error {
                                HyperIntoWsError::Io(e) if e.raw_os_error() == Some(n) => ensure!(d.contains(&format!("{:?}", e)), "{} hides {:?}", d, e),
                                e => fail!("accept failed with {}, reported is {:?}", n, e),
                            }
                        }
                    }
                }
            }};
        }
        c.step();
        if tls {
            go!(Server::bind_secure("127.0.0.1:0", acceptor(0)?).map_err(|e| format!("{:?}", e))?)
        } else {
            go!(Server::bind("127.0.0.1:0").map_err(|e| format!("{:?}", e))?)
        }
        c.state(&(n, tls, iter));
        c.trace(&n);
        Ok(())
    });
    x.section("bind", 6, |c, i| {
        let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
        let at = l.local_addr().map_err(herr)?;
        c.step();
        let h = tokio_reactor::Handle::default();
        let name = "nobody.mc.test:0";
        let e = match i {
            0 => Server::bind(at).err(),
            1 => Server::bind_secure(at, acceptor(0)?).err(),
            2 => websocket::r#async::Server::bind(at, &h).err(),
            3 => websocket::r#async::Server::bind_secure(at, acceptor(0)?, &h).err(),
            4 => Server::bind(name).err(),
            _ => websocket::r#async::Server::bind(name, &h).err(),
        };
        match e {
            None => fail!("bound to what cannot be bound ({})", i),
            Some(e) => ensure!(i >= 4 || e.kind() == ErrorKind::AddrInUse, "binding to a taken port: {:?}", e),
        }
        c.state(&i);
        c.trace(&i);
        Ok(())
    });
}
pub fn c24(x: &Ctx) {
    x.bound("every variant of every error type over 390 I/O errors, 407 parse errors, 500 statuses, 9 locations and locations of every length to 319 (and powers of two to 128 Ki) characters of 6 widths, all conversions between the types");
    x.bound("20 kinds of I/O error at every byte of a handshake read or written and of a connection's frames, blocking and asynchronous");
    values(x);
    faults(x);
    sockets(x);
}
