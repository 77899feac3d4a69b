//! C18: what decides transport security. Scripted servers behind the network stand-ins.
use crate::engine::*;
use crate::ensure;
use crate::http::*;
use crate::model::*;
use crate::shim;
use futures::{Future, Sink, Stream};
use native_tls::{Certificate, Identity, TlsAcceptor, TlsConnector};
use std::io::{Read, Write};
use std::net::{Ipv4Addr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;
use std::time::Duration;
use websocket::result::{WebSocketError, WebSocketOtherError};
use websocket::{ClientBuilder, OwnedMessage};

pub const CERTS: [&[u8]; 4] = [
    include_bytes!("../certs/good.p12"),
    include_bytes!("../certs/wrong.p12"),
    include_bytes!("../certs/self.p12"),
    include_bytes!("../certs/expired.p12"),
];
pub fn acceptor(k: usize) -> Result<TlsAcceptor, String> {
    let id = Identity::from_pkcs12(CERTS[k], "mc").map_err(|e| format!("{}: identity: {}", HARNESS, e))?;
    TlsAcceptor::new(id).map_err(|e| format!("{}: acceptor: {}", HARNESS, e))
}
pub fn connector() -> Result<TlsConnector, String> {
    let ca = Certificate::from_pem(include_bytes!("../certs/ca.pem")).map_err(|e| format!("{}: ca: {}", HARNESS, e))?;
    TlsConnector::builder().add_root_certificate(ca).disable_built_in_roots(true).build().map_err(|e| format!("{}: connector: {}", HARNESS, e))
}
/// a configuration which trusts nobody
fn distrust() -> Result<TlsConnector, String> {
    TlsConnector::builder().disable_built_in_roots(true).build().map_err(|e| format!("{}: connector: {}", HARNESS, e))
}
/// The system's trust store is the test CA: called before any thread starts
pub fn system_trust(root: &str) {
    std::env::set_var("SSL_CERT_FILE", format!("{}/mc/certs/ca.pem", root));
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
}
pub fn herr<E: std::fmt::Display>(e: E) -> String {
    format!("{}: loopback: {}", HARNESS, e)
}
/// records everything read
pub struct Rec(pub TcpStream, pub Arc<Mutex<Vec<u8>>>);
impl Read for Rec {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.read(b)?;
        self.1.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl Write for Rec {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
/// lets only so many bytes out
struct Cut(Rec, usize);
impl Read for Cut {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 {
            return Ok(0);
        }
        self.0.read(b)
    }
}
impl Write for Cut {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        if n == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let n = self.0.write(&b[..n])?;
        self.1 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Srv {
    /// TLS with certificate k, then a proper response
    Tls(usize),
    /// TLS (good), then a redirect to the insecure URL
    TlsRedirect,
    /// TLS (good), then end
    TlsEnd,
    /// TLS (good) of which only the first bytes are sent, followed by nothing or by a response in clear
    TlsCut(usize, bool),
    Plain,
    /// answers before reading
    PlainEarly,
    PlainClose,
    Plain400,
    Reset,
    Refused,
}
const SRVS: [Srv; 12] = [
    Srv::Tls(0),
    Srv::Tls(1),
    Srv::Tls(2),
    Srv::Tls(3),
    Srv::TlsRedirect,
    Srv::TlsEnd,
    Srv::Plain,
    Srv::PlainEarly,
    Srv::PlainClose,
    Srv::Plain400,
    Srv::Reset,
    Srv::Refused,
];
#[derive(Default, Debug)]
struct Seen {
    conns: usize,
    raw: Vec<u8>,
    /// decrypted
    plain: Vec<u8>,
    tls: bool,
    message: bool,
    ended: bool,
}
fn head_of<S: Read>(s: &mut S, v: &mut Vec<u8>) -> bool {
    let mut b = [0];
    while !v.ends_with(b"\r\n\r\n") {
        match s.read(&mut b) {
            Ok(1) => v.push(b[0]),
            _ => return false,
        }
        if v.len() == 1 && v[0] != b'G' {
            return false;
        }
    }
    true
}
fn key_of(head: &[u8]) -> String {
    parse_head(head).ok().and_then(|h| h.one("Sec-WebSocket-Key").ok().map(|s| s.to_string())).unwrap_or_default()
}
/// answer the handshake, exchange one message, read to the end
fn session<S: Read + Write>(s: &mut S, seen: &mut Seen, early: bool) {
    if !head_of(s, &mut seen.plain) {
        return;
    }
    let mut out = if early { vec![] } else { response(&accept_for(&key_of(&seen.plain))) };
    out.extend(fr(true, 1, b"yo").bytes());
    if s.write_all(&out).is_err() {
        return;
    }
    // "hi", masked: 2 + 4 + 2 bytes
    let mut b = [0; 8];
    if s.read_exact(&mut b).is_ok() {
        seen.message = parse_wire(&b).map_or(false, |f| f.len() == 1 && f[0].payload == b"hi" && f[0].mask.is_some());
    }
    let mut rest = vec![];
    seen.ended = s.read_to_end(&mut rest).is_ok() && rest.is_empty();
}
fn serve(l: TcpListener, srv: Srv, insecure: String) -> JoinHandle<Result<Seen, String>> {
    std::thread::spawn(move || {
        let mut seen = Seen::default();
        loop {
            let (mut s, _) = l.accept().map_err(herr)?;
            s.set_read_timeout(Some(Duration::from_secs(20))).map_err(herr)?;
            s.set_write_timeout(Some(Duration::from_secs(20))).map_err(herr)?;
            let mut first = [1];
            let n = s.peek(&mut first).unwrap_or(0);
            if n == 1 && first[0] == 0 {
                return Ok(seen);
            }
            seen.conns += 1;
            if seen.conns > 1 {
                continue;
            }
            let log = Arc::new(Mutex::new(vec![]));
            let mut rec = Rec(s.try_clone().map_err(herr)?, log.clone());
            match srv {
                Srv::Tls(_) | Srv::TlsRedirect | Srv::TlsEnd => {
                    let k = if let Srv::Tls(k) = srv { k } else { 0 };
                    if let Ok(mut t) = acceptor(k)?.accept(rec) {
                        seen.tls = true;
                        match srv {
                            Srv::Tls(_) => session(&mut t, &mut seen, false),
                            Srv::TlsRedirect => {
                                head_of(&mut t, &mut seen.plain);
                                let _ = t.write_all(format!("HTTP/1.1 301 Moved\r\nLocation: {}\r\n\r\n", insecure).as_bytes());
                            }
                            _ => {
                                head_of(&mut t, &mut seen.plain);
                            }
                        }
                    }
                }
                Srv::TlsCut(n, clear) => {
                    if let Ok(mut t) = acceptor(0)?.accept(Cut(rec, n)) {
                        seen.tls = true;
                        session(&mut t, &mut seen, false);
                    }
                    if clear {
                        let _ = s.write_all(&response(&accept_for(KEY)));
                    }
                }
                Srv::Plain | Srv::PlainEarly => {
                    if srv == Srv::PlainEarly {
                        let _ = rec.write_all(&response(&accept_for(KEY)));
                    }
                    session(&mut rec, &mut seen, srv == Srv::PlainEarly);
                }
                Srv::Plain400 => {
                    let mut v = vec![];
                    if !head_of(&mut rec, &mut v) {
                        // a TLS client: take some of its hello
                        let _ = rec.read(&mut [0; 64]);
                    }
                    let _ = rec.write_all(b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n");
                }
                Srv::PlainClose => {
                    let _ = rec.read(&mut [0; 4096]);
                }
                Srv::Reset => {
                    use std::os::unix::io::AsRawFd;
                    let _ = rec.read(&mut [0; 64]);
                    shim::reset_on_close(s.as_raw_fd());
                }
                Srv::Refused => {}
            }
            // whatever else the client sends
            if srv != Srv::Reset && srv != Srv::PlainClose {
                let _ = s.shutdown(std::net::Shutdown::Write);
                let mut b = [0; 4096];
                while let Ok(n) = s.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    log.lock().unwrap().extend_from_slice(&b[..n]);
                }
            }
            seen.raw = log.lock().unwrap().clone();
        }
    })
}
#[derive(Debug)]
enum Out {
    Ok { got: bool },
    Redirect,
    Err(String),
}
fn of_err(e: WebSocketError) -> Out {
    if let WebSocketError::Other(ref b) = e {
        if let Some(WebSocketOtherError::RedirectError(..)) = b.downcast_ref::<WebSocketOtherError>() {
            return Out::Redirect;
        }
    }
    Out::Err(format!("{:?}", e))
}
pub const METHODS: [&str; 6] = ["connect", "connect_secure", "connect_insecure", "async_connect", "async_connect_secure", "async_connect_insecure"];
static NEXT: AtomicU32 = AtomicU32::new(1);

fn blocking(b: &mut ClientBuilder, method: usize, conf: Option<TlsConnector>, joined: impl FnOnce() -> Result<Seen, String>) -> Result<(Out, Option<Seen>), String> {
    macro_rules! sync {
        ($c:expr) => {
            match $c {
                Err(e) => Ok((of_err(e), None)),
                Ok(mut c) => {
                    let got = c.recv_message().ok() == Some(OwnedMessage::Text("yo".into()));
                    c.send_message(&OwnedMessage::Text("hi".into())).map_err(|e| format!("send: {:?}", e))?;
                    // the peer must see the end while this client is still there
                    c.shutdown().map_err(|e| format!("shutdown: {:?}", e))?;
                    let s = joined()?;
                    drop(c);
                    Ok((Out::Ok { got }, Some(s)))
                }
            }
        };
    }
    match method {
        0 => sync!(b.connect(conf)),
        1 => sync!(b.connect_secure(conf)),
        _ => sync!(b.connect_insecure()),
    }
}
fn attempt(url: &str, method: usize, conf: Option<TlsConnector>, fixed_key: bool, joined: impl FnOnce() -> Result<Seen, String>) -> Result<(Out, Option<Seen>), String> {
    let mut b = match ClientBuilder::new(url) {
        Ok(b) => b,
        Err(e) => return Ok((Out::Err(format!("{:?}", e)), None)),
    };
    if fixed_key {
        b = b.key(KEY_BYTES);
    }
    attempt_b(b, method, conf, joined)
}
fn attempt_b(mut b: ClientBuilder, method: usize, conf: Option<TlsConnector>, joined: impl FnOnce() -> Result<Seen, String>) -> Result<(Out, Option<Seen>), String> {
    macro_rules! asy {
        ($f:expr) => {{
            let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(herr)?;
            match rt.block_on($f) {
                Err(e) => Ok((of_err(e), None)),
                Ok((c, _)) => {
                    let (m, c) = rt.block_on(c.into_future()).map_err(|(e, _)| format!("receive: {:?}", e))?;
                    let got = m == Some(OwnedMessage::Text("yo".into()));
                    let c = rt.block_on(c.send(OwnedMessage::Text("hi".into()))).map_err(|e| format!("send: {:?}", e))?;
                    drop(c);
                    Ok((Out::Ok { got }, None))
                }
            }
        }};
    }
    match method {
        0..=2 => blocking(&mut b, method, conf, joined),
        3 => asy!(b.async_connect(conf).map(|x| x)),
        4 => asy!(b.async_connect_secure(conf)),
        _ => asy!(b.async_connect_insecure()),
    }
}
fn has(b: &[u8], s: &[u8]) -> bool {
    b.windows(s.len()).any(|w| w == s)
}
fn is_tls(raw: &[u8]) -> bool {
    raw.get(0).map_or(true, |b| *b == 0x16) && raw.get(1).map_or(true, |b| *b == 3) && !has(raw, b"GET /") && !has(raw, b"HTTP/1.1") && !has(raw, b"Sec-WebSocket")
}

pub fn c18(x: &Ctx) {
    shim::selftest();
    x.assume("name resolution and connect() are redirected by the harness to loopback servers it scripts; TLS itself (OpenSSL behind native-tls) is trusted");
    x.assume("not judged: an explicitly written port that equals the default of the URL's own scheme but not of the connect method, which the URL parser drops; IPv6 literals");
    let schemes = ["ws", "wss", "http", "https", "foo"];
    let ports: [Option<u16>; 4] = [None, Some(8443), Some(80), Some(443)];
    x.bound("5 schemes x 6 connect methods x trust configuration (default: the system's store, which the harness makes its test CA; passed in: the test CA; passed in: nobody) x 4 ports (none, 8443, 80, 443) x 3 hosts (covered name, covered address, uncovered address) x 12 server behaviours (4 certificates, redirect, plain, early answer, close, reset, refused)");
    let n = schemes.len() * 6 * 3 * ports.len() * 3 * SRVS.len();
    x.section("matrix", n as u64, |c, i| {
        let mut ix = Ix(i);
        let scheme = schemes[ix.take(5)];
        let method = ix.take(6);
        let conf = ix.take(3);
        let port = ports[ix.take(4)];
        let host_kind = ix.take(3);
        let srv = SRVS[ix.take(SRVS.len())];
        let secure = match method % 3 {
            0 => scheme == "wss" || scheme == "https",
            1 => true,
            _ => false,
        };
        let own_default = match scheme {
            "ws" | "http" => Some(80),
            "wss" | "https" => Some(443),
            _ => None,
        };
        let want_port = port.unwrap_or(if secure { 443 } else { 80 });
        if port.is_some() && port == own_default && want_port != if secure { 443 } else { 80 } {
            return Ok(());
        }
        let id = NEXT.fetch_add(1, SeqCst);
        // addresses cannot be told apart between parallel cases by the standard ports: one address per case for names only
        if host_kind != 0 && port != Some(8443) {
            return Ok(());
        }
        let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
        let real = l.local_addr().map_err(herr)?.port();
        let (host, ip, want_port, port) = match host_kind {
            0 => (format!("h{}.mc.test", id), u32::from(Ipv4Addr::new(127, 77, (id >> 8) as u8, id as u8)), want_port, port),
            // unique by port
            1 => ("127.78.0.1".into(), u32::from(Ipv4Addr::new(127, 78, 0, 1)), real, Some(real)),
            _ => ("127.78.0.3".to_string(), u32::from(Ipv4Addr::new(127, 78, 0, 3)), real, Some(real)),
        };
        let insecure = format!("ws://{}:{}/moved", host, real);
        let url = format!("{}://{}{}/p?q", scheme, host, port.map(|p| format!(":{}", p)).unwrap_or_default());
        c.note = format!("{} {} trust {} server {:?}", METHODS[method], url.replace(&id.to_string(), "N"), ["system", "own CA", "nobody"][conf], srv);
        c.state(&i);
        c.step();
        if host_kind == 0 {
            shim::name(&host, ip);
            // listen everywhere it might go wrong
            for p in [80, 443, 8443, 21] {
                shim::route(ip, p, real);
            }
        } else {
            shim::route(ip, real, real);
        }
        if srv == Srv::Refused {
            shim::unroute(ip, want_port);
        }
        let th = serve(l, srv, insecure);
        let stop = move || -> Result<Seen, String> {
            let mut s = TcpStream::connect(("127.0.0.1", real)).map_err(herr)?;
            s.write_all(&[0]).map_err(herr)?;
            th.join().map_err(|_| format!("{}: server thread panicked", HARNESS))?
        };
        let mut stop = Some(stop);
        let conf_v = match conf {
            0 => None,
            1 => Some(connector()?),
            _ => Some(distrust()?),
        };
        let r = guarded(|| attempt(&url, method, conf_v, srv == Srv::PlainEarly, || (stop.take().unwrap())()));
        let tried: Vec<u16> = if host_kind == 0 { shim::attempts(ip) } else { shim::attempts(ip).into_iter().filter(|p| *p == real).collect() };
        for p in [80, 443, 8443, 21, real] {
            shim::unroute(ip, p);
        }
        if host_kind == 0 {
            shim::forget(&host, ip);
        } else {
            // ports are used again by later cases
            shim::forget_port(ip, real);
        }
        let (out, seen) = match r {
            Ok(Ok(o)) => o,
            Ok(Err(e)) | Err(e) => {
                if let Some(s) = stop.take() {
                    s()?;
                }
                return Err(e);
            }
        };
        let seen = match seen {
            Some(s) => s,
            None => (stop.take().unwrap())()?,
        };
        ensure!(tried == [want_port], "connected to port(s) {:?}, expected {} once", tried, want_port);
        ensure!(seen.conns == (srv != Srv::Refused) as usize, "{} connections", seen.conns);
        let shown = String::from_utf8_lossy(&seen.raw[..seen.raw.len().min(40)]).to_string();
        if secure {
            ensure!(is_tls(&seen.raw), "handshake bytes outside TLS: {:?}", shown);
            let genuine = seen.tls && conf != 2 && host_kind != 2;
            let trusted = conf != 2 && host_kind != 2 && matches!(srv, Srv::Tls(0) | Srv::TlsRedirect | Srv::TlsEnd);
            match srv {
                Srv::Tls(0) if trusted => {
                    ensure!(matches!(out, Out::Ok { got: true }), "verified TLS server: {:?}", out);
                    ensure!(seen.message, "the client's message did not arrive inside TLS");
                }
                Srv::TlsRedirect if trusted => ensure!(matches!(out, Out::Redirect), "redirect answered with {:?}", out),
                _ => ensure!(matches!(out, Out::Err(_)), "the client reports {:?}", out),
            }
            ensure!(trusted || !seen.tls || seen.plain.is_empty(), "handshake sent to an unverified server: {:?}", String::from_utf8_lossy(&seen.plain));
            if trusted {
                ensure!(genuine, "TLS session was not established: {:?}", out);
                let h = parse_head(&seen.plain)?;
                ensure!(h.start == "GET /p?q HTTP/1.1", "request line {}", h.start);
            }
        } else {
            match srv {
                Srv::Plain | Srv::PlainEarly => {
                    ensure!(matches!(out, Out::Ok { got: true }), "plain server: {:?}", out);
                    ensure!(seen.message, "the client's message did not arrive");
                    let h = parse_head(&seen.plain)?;
                    ensure!(h.start == "GET /p?q HTTP/1.1", "request line {}", h.start);
                }
                _ => ensure!(matches!(out, Out::Err(_)), "the client reports {:?}", out),
            }
            ensure!(seen.raw.is_empty() || seen.raw[0] == b'G', "not a clear handshake: {:?}", shown);
            ensure!(!seen.tls, "a TLS session was established");
        }
        if matches!(out, Out::Ok { .. }) {
            ensure!(method >= 3 || seen.ended, "the peer did not see the end after shutdown");
        }
        c.trace(&(scheme, method, conf, want_port, format!("{:?}", srv), secure, matches!(out, Out::Ok { .. })));
        Ok(())
    });
    wide(x);
    x.bound("two connects in a row on one blocking builder: 5 schemes x 9 method pairs x 9 trust pairs x 9 pairs of servers (verified TLS, wrong certificate, plain)");
    x.section("reuse", 5 * 9 * 9 * 9, |c, i| {
        let mut ix = Ix(i);
        let scheme = schemes[ix.take(5)];
        let id = NEXT.fetch_add(1, SeqCst);
        let host = format!("r{}.mc.test", id);
        let ip = u32::from(Ipv4Addr::new(127, 77, (id >> 8) as u8, id as u8));
        shim::name(&host, ip);
        let mut b = ClientBuilder::new(&format!("{}://{}/p?q", scheme, host)).map_err(|e| format!("{:?}", e))?;
        c.state(&i);
        let mut want = vec![];
        let mut verdict = Ok(());
        for _ in 0..2 {
            let method = ix.take(3);
            let conf = ix.take(3);
            let srv = [Srv::Tls(0), Srv::Tls(1), Srv::Plain][ix.take(3)];
            let secure = match method {
                0 => scheme == "wss" || scheme == "https",
                1 => true,
                _ => false,
            };
            c.note = format!("{}{} {} trust {} server {:?}; ", c.note, METHODS[method], scheme, ["system", "own CA", "nobody"][conf], srv);
            c.step();
            want.push(if secure { 443 } else { 80 });
            let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
            let real = l.local_addr().map_err(herr)?.port();
            for p in [80, 443] {
                shim::route(ip, p, real);
            }
            let th = serve(l, srv, String::new());
            let mut stop = Some(move || -> Result<Seen, String> {
                let mut s = TcpStream::connect(("127.0.0.1", real)).map_err(herr)?;
                s.write_all(&[0]).map_err(herr)?;
                th.join().map_err(|_| format!("{}: server thread panicked", HARNESS))?
            });
            let conf_v = match conf {
                0 => None,
                1 => Some(connector()?),
                _ => Some(distrust()?),
            };
            let r = guarded(|| blocking(&mut b, method, conf_v, || (stop.take().unwrap())()));
            let (r, seen) = match r {
                Ok(Ok((o, Some(s)))) => (Ok(o), Some(s)),
                Ok(Ok((o, None))) => (Ok(o), None),
                Ok(Err(e)) | Err(e) => (Err(e), None),
            };
            let seen = match (seen, stop) {
                (Some(s), _) => s,
                (None, Some(s)) => s()?,
                _ => return r.map(|_| ()),
            };
            let ok = if secure { srv == Srv::Tls(0) && conf != 2 } else { srv == Srv::Plain };
            verdict = match r {
                Err(e) => Err(e),
                Ok(o) if matches!(o, Out::Ok { got: true }) != ok => Err(format!("{:?}", o)),
                Ok(_) if seen.conns != 1 => Err(format!("{} connections", seen.conns)),
                Ok(_) if secure && !is_tls(&seen.raw) => Err("handshake bytes outside TLS".into()),
                Ok(_) if secure && !ok && seen.tls && !seen.plain.is_empty() => Err("handshake sent to an unverified server".into()),
                Ok(_) if !secure && seen.raw.first().map_or(false, |b| *b != b'G') => Err("not a clear handshake".into()),
                Ok(_) if ok && !seen.message => Err("the client's message did not arrive".into()),
                Ok(_) => Ok(()),
            };
            c.trace(&(secure, method, conf, ok));
            if verdict.is_err() {
                break;
            }
        }
        let tried = shim::attempts(ip);
        for p in [80, 443] {
            shim::unroute(ip, p);
        }
        shim::forget(&host, ip);
        verdict?;
        ensure!(tried == want, "connected to ports {:?}, expected {:?}", tried, want);
        Ok(())
    });
    x.bound("URLs without a usable host x 6 methods: an error, no panic, no connection");
    let odd = ["ws:", "unix:/tmp/x", "foo:bar", "ws://", "foo:///x", "data:text/plain,hi", "", "ws://h99999.nowhere.test/", "wss://h99999.nowhere.test:1/", "ws://[::1", "ws://a b/", "ws://h:99999/", "foo://"];
    x.section("no-host", (odd.len() * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let u = odd[ix.take(odd.len())];
        let m = ix.take(6);
        c.note = format!("{} {:?}", METHODS[m], u);
        c.state(&i);
        c.step();
        let r = guarded(|| attempt(u, m, Some(connector()?), false, || Err("unexpected".into())))??;
        ensure!(matches!(r.0, Out::Err(_)), "{:?}", r.0);
        c.trace(&m);
        Ok(())
    });
}

struct Trial<'a> {
    /// with H for the host
    url: &'a str,
    host: String,
    id: u32,
    method: usize,
    conf: usize,
    srv: Srv,
    secure: bool,
    /// the server proves to be the URL's host
    trusted: bool,
    want_port: u16,
    prep: &'a dyn Fn(ClientBuilder<'static>) -> ClientBuilder<'static>,
}
/// the server name a TLS client hello asks for
fn sni(raw: &[u8]) -> Result<Option<String>, String> {
    fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
        if b.len() < n {
            return Err("client hello cut short".into());
        }
        let (x, y) = b.split_at(n);
        *b = y;
        Ok(x)
    }
    fn len(b: &mut &[u8], n: usize) -> Result<usize, String> {
        Ok(take(b, n)?.iter().fold(0, |a, x| a << 8 | *x as usize))
    }
    let b = &mut &raw[..];
    take(b, 5 + 4 + 2 + 32)?;
    for w in &[1, 2, 1] {
        let n = len(b, *w)?;
        take(b, n)?;
    }
    let n = len(b, 2)?;
    let b = &mut take(b, n)?;
    while !b.is_empty() {
        let t = len(b, 2)?;
        let n = len(b, 2)?;
        let e = &mut take(b, n)?;
        if t == 0 {
            take(e, 3)?;
            let n = len(e, 2)?;
            return Ok(Some(String::from_utf8_lossy(take(e, n)?).to_string()));
        }
    }
    Ok(None)
}
/// one connect to a scripted server; checks what the connection may carry and the outcome
fn trial(t: Trial, c: &mut Case) -> Res {
    let literal: Option<Ipv4Addr> = t.host.parse().ok();
    let ip = u32::from(literal.unwrap_or_else(|| Ipv4Addr::new(127, 77, (t.id >> 8) as u8, t.id as u8)));
    let url = t.url.replace("HOST", &t.host);
    c.note = format!("{} {} trust {} server {:?} {}", METHODS[t.method], url.replace(&t.id.to_string(), "N"), ["system", "own CA", "nobody"][t.conf], t.srv, c.note);
    c.step();
    let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
    let real = l.local_addr().map_err(herr)?.port();
    shim::name(&t.host, ip);
    let mut ports = vec![80, 443, 8443, 21];
    ports.push(t.want_port);
    if t.srv != Srv::Refused {
        for p in &ports {
            shim::route(ip, *p, real);
        }
    }
    let th = serve(l, t.srv, String::new());
    let mut stop = Some(move || -> Result<Seen, String> {
        let mut s = TcpStream::connect(("127.0.0.1", real)).map_err(herr)?;
        s.write_all(&[0]).map_err(herr)?;
        th.join().map_err(|_| format!("{}: server thread panicked", HARNESS))?
    });
    let conf = match t.conf {
        0 => None,
        1 => Some(connector()?),
        _ => Some(distrust()?),
    };
    let r = guarded(|| match ClientBuilder::new(&url) {
        Ok(b) => attempt_b((t.prep)(b), t.method, conf, || (stop.take().unwrap())()),
        Err(e) => Err(format!("URL {:?} refused: {:?}", url, e)),
    });
    let tried: Vec<u16> = shim::attempts(ip).into_iter().filter(|p| literal.is_none() || *p != real).collect();
    for p in ports {
        shim::unroute(ip, p);
        shim::forget_port(ip, p);
    }
    shim::forget_port(ip, real);
    shim::forget(&t.host, ip);
    let (out, seen) = match r {
        Ok(Ok(o)) => o,
        Ok(Err(e)) | Err(e) => {
            if let Some(s) = stop.take() {
                s()?;
            }
            return Err(e);
        }
    };
    let seen = match seen {
        Some(s) => s,
        None => (stop.take().unwrap())()?,
    };
    ensure!(tried == [t.want_port], "connected to port(s) {:?}, expected {} once", tried, t.want_port);
    ensure!(seen.conns == (t.srv != Srv::Refused) as usize, "{} connections", seen.conns);
    let connected = matches!(out, Out::Ok { got: true });
    if t.secure {
        ensure!(is_tls(&seen.raw), "handshake bytes outside TLS: {:?}", String::from_utf8_lossy(&seen.raw[..seen.raw.len().min(40)]));
        ensure!(t.trusted || !seen.tls || seen.plain.is_empty(), "handshake sent to an unverified server: {:?}", String::from_utf8_lossy(&seen.plain));
        if matches!(t.srv, Srv::Tls(_)) {
            let n = sni(&seen.raw)?;
            ensure!(literal.is_some() && n.is_none() || n.as_ref().map_or(false, |n| *n == t.host.to_ascii_lowercase()), "TLS is for {:?}, not the URL's host", n);
        }
        match t.srv {
            Srv::Tls(_) => ensure!(connected == t.trusted, "the client reports {:?} and the server is {}genuine", out, if t.trusted { "" } else { "not " }),
            Srv::TlsCut(..) => ensure!(!matches!(out, Out::Ok { .. }) || connected && seen.tls, "the client reports {:?} without a whole TLS handshake", out),
            _ => ensure!(matches!(out, Out::Err(_)), "the client reports {:?}", out),
        }
    } else {
        ensure!(!seen.tls && (seen.raw.is_empty() || seen.raw[0] == b'G'), "not a clear handshake");
        ensure!(connected == (t.srv == Srv::Plain), "the client reports {:?}", out);
    }
    if connected {
        ensure!(seen.message, "the client's message did not arrive");
        let u = url::Url::parse(&url).map_err(|e| format!("{}: {}", HARNESS, e))?;
        let h = parse_head(&seen.plain)?;
        let target = format!("{}{}", u.path(), u.query().map(|q| format!("?{}", q)).unwrap_or_default());
        ensure!(h.start == format!("GET {} HTTP/1.1", target), "request line {}", h.start);
    }
    c.trace(&(t.secure, t.trusted, t.method, format!("{:?}", t.srv).len().min(6), connected, t.want_port));
    Ok(())
}
fn asks_tls(scheme: &str, method: usize) -> bool {
    match method % 3 {
        0 => scheme.eq_ignore_ascii_case("wss") || scheme.eq_ignore_ascii_case("https"),
        1 => true,
        _ => false,
    }
}
fn wide(x: &Ctx) {
    let schemes = [
        "ws", "wss", "http", "https", "foo", "WSS", "Wss", "wsS", "HTTPS", "Ws", "HTTP", "wsss", "ws-s", "xwss", "wssx", "ws+ssl", "tls", "ssl", "https2", "httpss", "shttp", "ftp", "secure", "s", "w", "wss.ws",
    ];
    // what follows the scheme; secure words anywhere but in the scheme
    let rests = [
        "HOST/p?q",
        "HOST/wss://HOST/?wss=https://x:443/",
        "HOST?https=ws:80#wss:443",
        "wss:https@HOST/ws",
        "ws@HOST/p",
        "https:ws@HOST:8443/80",
        "HOST:8443?wss",
        "HOST",
        "HOST:/",
        "443@HOST/",
    ];
    let servers = [Srv::Tls(0), Srv::Plain, Srv::Tls(1), Srv::PlainEarly];
    x.bound("26 schemes (case variants, near misses of the secure ones, others) x 10 forms of URL with secure and insecure words in user info, path, query and fragment x host prefixes x 6 methods x 3 servers");
    x.section("urls", (schemes.len() * rests.len() * 6 * 3 * 4) as u64, |c, i| {
        let mut ix = Ix(i);
        let scheme = schemes[ix.take(schemes.len())];
        let rest = rests[ix.take(rests.len())];
        let method = ix.take(6);
        let srv = servers[ix.take(3)];
        let prefix = ["h", "wss", "https-ws-", "http80"][ix.take(4)];
        // the other prefixes with the plain form only
        if prefix != "h" && rest != rests[0] {
            return Ok(());
        }
        let id = NEXT.fetch_add(1, SeqCst);
        let secure = asks_tls(scheme, method);
        c.state(&i);
        trial(
            Trial {
                url: &format!("{}://{}", scheme, rest),
                host: format!("{}{}.mc.test", prefix, id),
                id,
                method,
                conf: i as usize % 2,
                srv,
                secure,
                trusted: secure && srv == Srv::Tls(0),
                want_port: if rest.contains("8443") { 8443 } else if secure { 443 } else { 80 },
                prep: &|b| b,
            },
            c,
        )
    });
    x.bound("9 host names within, beside, above and below what 2 certificates cover x 6 methods x 2 trust configurations: only a covered name connects");
    let names = ["HN.mc.test", "a.HN.mc.test", "HN.x.mc.test", "HN.other.test", "HN.mc.testing.test", "HNmc.test", "HN.mc.test.test", "mc.HN.test", "other.HN.mc.test"];
    x.section("names", (names.len() * 6 * 2 * 2 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let n = ix.take(names.len());
        let method = ix.take(6);
        let conf = ix.take(2);
        let cert = ix.take(2);
        let scheme = ["wss", "https"][ix.take(2)];
        let id = NEXT.fetch_add(1, SeqCst);
        let secure = asks_tls(scheme, method);
        c.state(&i);
        let trusted = secure && if cert == 0 { n == 0 } else { n == 2 || n == 3 };
        trial(
            Trial {
                url: &format!("{}://HOST/", scheme),
                host: names[n].replace("HN", &format!("n{}", id)),
                id,
                method,
                conf,
                srv: Srv::Tls(cert),
                secure,
                trusted,
                want_port: if secure { 443 } else { 80 },
                prep: &|b| b,
            },
            c,
        )
    });
    let special = [
        "localhost", "LocalHost", "localhost.localdomain", "app.localhost", "localhost.mc.test", "mc.test", "mc.local", "nas.lan", "x.internal", "dev.test", "example.com", "a.example", "a.invalid", "a.onion", "home.arpa", "intranet", "127.0.0.1", "127.0.1.1",
        "127.78.0.1", "127.78.0.2", "10.0.0.1", "192.168.1.1", "172.16.0.1", "169.254.1.1", "8.8.8.8",
    ];
    x.bound("25 special host names and addresses (local, reserved, private) x 6 methods x 3 trust configurations x 4 certificates (good, wrong name, self-signed, expired): trusted for no host but what the certificate names");
    x.section_t("special-hosts", special.len() as u64 * 6 * 3 * 4, 1, |c, i| {
        let mut ix = Ix(i);
        let host = special[ix.take(special.len())];
        let (method, conf, cert) = (ix.take(6), ix.take(3), ix.take(4));
        let id = NEXT.fetch_add(1, SeqCst);
        let scheme = ["wss", "https"][id as usize % 2];
        let secure = asks_tls(scheme, method);
        c.state(&i);
        let l = host.to_ascii_lowercase();
        let named = match cert {
            0 => l == "localhost" || l == "localhost.mc.test" || l == "127.78.0.1",
            1 => l == "mc.test" || l == "127.78.0.2",
            _ => false,
        };
        trial(
            Trial {
                url: &format!("{}://HOST/", scheme),
                host: l,
                id,
                method,
                conf,
                srv: Srv::Tls(cert),
                secure,
                trusted: secure && conf != 2 && named,
                want_port: if secure { 443 } else { 80 },
                prep: &|b| b,
            },
            c,
        )
    });
    let labels = ["www", "m", "a1", "api", "mail", "localhost", "test", "mc", "com", "xn--bcher-kva", "w-w", "ftp", "192"];
    let depth = x.tier(2, 3);
    x.bound(&format!("host names of 1 to {} labels out of 13 above one more, and names of every length of label to 63 and in all to 250: TLS asks for exactly the URL's host, and a certificate that does not name it is refused, one that does accepted; 4 secure methods", depth + 1));
    let nl = seq_count(labels.len(), depth);
    x.section("host-labels", nl + 63 + 240, |c, i| {
        let id = NEXT.fetch_add(1, SeqCst);
        let (host, good) = if i < nl {
            let s = seq_of(labels.len(), i);
            let mut h: String = s.iter().map(|k| format!("{}.", labels[*k])).collect();
            h.push_str(&format!("l{}.{}", id, if i % 2 == 0 { "mc.test" } else { "org.test" }));
            (h, s.is_empty())
        } else if i < nl + 63 {
            let n = (i - nl) as usize + 1;
            let t = format!("{}", id);
            let l = if n < t.len() { return Ok(()) } else { format!("{}{}", "abcdefghijk".repeat(6)[..n - t.len()].to_string(), t) };
            (format!("{}.mc.test", l), true)
        } else {
            let n = (i - nl - 63) as usize;
            let mut h = format!("t{}.", id);
            while h.len() + 8 < n {
                let l = 40.min(n - h.len() - 8);
                h.push_str(&"wxyz".repeat(10)[..l]);
                h.push('.');
            }
            (format!("{}mc.test", h), n <= 8 + format!("t{}.", id).len())
        };
        c.state(&i);
        for (k, method) in [0usize, 1, 3, 4].iter().enumerate() {
            for cert in &[0, 1] {
                if *cert == 0 && !good && k % 2 == 1 {
                    continue;
                }
                trial(
                    Trial {
                        url: &format!("{}://HOST/p", ["wss", "https"][k % 2]),
                        host: host.clone(),
                        id,
                        method: *method,
                        conf: k / 2 % 2,
                        srv: Srv::Tls(*cert),
                        secure: true,
                        trusted: *cert == 0 && good,
                        want_port: 443,
                        prep: &|b| b,
                    },
                    c,
                )?;
                c.note.clear();
            }
        }
        Ok(())
    });
    x.bound("builders with each of 14 operations (a Host header naming another host, origins, custom headers, credentials, protocols, limits, keys) x ws, wss, https x 6 methods x 3 hosts and certificates x verified, wrong and clear servers: security and verification stay those of the URL");
    type P = fn(ClientBuilder<'static>) -> ClientBuilder<'static>;
    let host = |h: &'static str| {
        move |b: ClientBuilder<'static>| {
            let mut hs = websocket::header::Headers::new();
            hs.set_raw("Host", vec![h.as_bytes().to_vec()]);
            b.custom_headers(&hs)
        }
    };
    let (h1, h2, h3) = (host("good.mc.test"), host("bad.other.test"), host("good.mc.test:80"));
    let raw = |n: &'static str, v: &'static str| {
        move |b: ClientBuilder<'static>| {
            let mut hs = websocket::header::Headers::new();
            hs.set_raw(n, vec![v.as_bytes().to_vec()]);
            b.custom_headers(&hs)
        }
    };
    let (r1, r2, r3) = (raw("Upgrade", "TLS/1.2, websocket"), raw("Upgrade-Insecure-Requests", "1"), raw("X-Forwarded-Proto", "https"));
    let ps: [(&str, &(dyn Fn(ClientBuilder<'static>) -> ClientBuilder<'static> + Sync)); 14] = [
        ("Host: good.mc.test", &h1),
        ("Host: bad.other.test", &h2),
        ("Host: good.mc.test:80", &h3),
        ("Upgrade: TLS", &r1),
        ("Upgrade-Insecure-Requests", &r2),
        ("X-Forwarded-Proto", &r3),
        ("origin https", &((|b| b.origin("https://good.mc.test".into())) as P)),
        ("origin http", &((|b| b.origin("http://good.mc.test".into())) as P)),
        ("protocol wss", &((|b| b.add_protocol("wss")) as P)),
        ("protocol ws", &((|b| b.add_protocol("ws").add_protocol("http")) as P)),
        ("key", &((|b| b.key(KEY_BYTES)) as P)),
        ("limits", &((|b| b.max_dataframe_size(443).max_message_size(80)) as P)),
        ("version", &((|b| b.version(websocket::header::WebSocketVersion::Unknown("443".into()))) as P)),
        ("cleared", &((|b| b.origin("x".into()).add_protocol("y").key(KEY_BYTES).clear_origin().clear_protocols().clear_key().clear_version().clear_extensions()) as P)),
    ];
    x.section("builders", (ps.len() * 3 * 6 * 2 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let (what, p) = ps[ix.take(ps.len())];
        let scheme = ["ws", "wss", "https"][ix.take(3)];
        let method = ix.take(6);
        let other = ix.take(2) == 1;
        let srv = servers[ix.take(3)];
        let id = NEXT.fetch_add(1, SeqCst);
        let secure = asks_tls(scheme, method);
        c.state(&i);
        c.note = format!("builder {}", what);
        trial(
            Trial {
                url: &format!("{}://HOST/p?q", scheme),
                host: format!("b{}.{}.test", id, if other { "other" } else { "mc" }),
                id,
                method,
                conf: i as usize % 2,
                srv,
                secure,
                trusted: secure && srv == if other { Srv::Tls(1) } else { Srv::Tls(0) },
                want_port: if secure { 443 } else { 80 },
                prep: &|b| p(b),
            },
            c,
        )
    });
    x.bound("a TLS server whose output ends after n bytes, n = 0..2600 (quick: every 7th), followed by nothing or by a genuine-looking response in clear, to the 4 secure methods: never success, nothing outside TLS");
    let step = x.tier(7, 1);
    x.section("cut-tls", (2600 / step * 4 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let method = [0, 1, 3, 4][ix.take(4)];
        let clear = ix.take(2) == 1;
        let n = ix.0 as usize * step;
        let id = NEXT.fetch_add(1, SeqCst);
        c.state(&i);
        trial(
            Trial { url: "wss://HOST/p?q", host: format!("c{}.mc.test", id), id, method, conf: n % 2, srv: Srv::TlsCut(n, clear), secure: true, trusted: true, want_port: 443, prep: &|b| b.key(KEY_BYTES) },
            c,
        )
    });
    x.bound("every port 0..65535 x 2 methods and a scheme by rotation (thorough: 6 methods x 5 schemes), nobody listening: exactly that port is tried, once, and the error is reported");
    let ns = x.tier(1, 5);
    let nm = x.tier(2, 6);
    x.section("ports", 65536 * nm as u64 * ns, |c, i| {
        let mut ix = Ix(i);
        let port = ix.take(65536) as u16;
        let m = ix.take(nm);
        let method = if nm == 6 { m } else { m * 3 + (port as usize / 5) % 3 };
        let k = ix.take(ns as usize);
        let scheme = ["ws", "wss", "http", "https", "foo"][(k + port as usize + method) % 5];
        let secure = asks_tls(scheme, method);
        let own_default = match scheme {
            "ws" | "http" => Some(80),
            "wss" | "https" => Some(443),
            _ => None,
        };
        let std = if secure { 443 } else { 80 };
        if own_default == Some(port) && port != std {
            return Ok(());
        }
        // one address per case
        let id = NEXT.fetch_add(1, SeqCst);
        let ip = u32::from(Ipv4Addr::new(127, 77, (id >> 8) as u8, id as u8));
        let url = format!("{}://{}:{}/p", scheme, Ipv4Addr::from(ip), port);
        c.note = format!("{} {}://N:{}/p", METHODS[method], scheme, port);
        c.step();
        let r = guarded(|| attempt(&url, method, None, false, || Err("unexpected".into())));
        let tried = shim::attempts(ip);
        shim::forget("", ip);
        let r = r??;
        ensure!(matches!(r.0, Out::Err(_)), "{:?} though nobody listens", r.0);
        ensure!(tried == [port], "connected to port(s) {:?}, expected {} once", tried, port);
        c.trace(&(scheme, method));
        Ok(())
    });
}

// ---------------------------------------------------------------- every connect method, against a scripted peer
/// What one connect produced: the head the client sent, what followed it, and what the client received
pub struct Dialled {
    pub head: Vec<u8>,
    pub after: Vec<u8>,
    pub tls: bool,
    pub got: Result<(hyper::header::Headers, Vec<Obs>), WebSocketError>,
}
pub fn dials_tls(scheme: &str, method: usize) -> bool {
    match method % 3 {
        0 => scheme == "wss" || scheme == "https",
        1 => true,
        _ => false,
    }
}
fn listen_once<S: Read + Write>(s: &mut S, reply: impl FnOnce(&[u8]) -> Vec<u8>, head: &mut Vec<u8>, after: &mut Vec<u8>, end: impl FnOnce(&mut S)) {
    if head_of(s, head) {
        let out = reply(head);
        // a client which refuses may be gone already
        let _ = s.write_all(&out);
    }
    end(s);
    let mut b = [0; 65536];
    while let Ok(n) = s.read(&mut b) {
        if n == 0 {
            break;
        }
        after.extend_from_slice(&b[..n]);
    }
}
/// Connect with `method` to `scheme://user@host[:port]rest`; the peer sends `reply(head)` and ends its side; the
/// client sends `sends` and receives to the end.
pub fn dial(
    scheme: &str,
    method: usize,
    user: &str,
    port: Option<u16>,
    rest: &str,
    build: impl FnOnce(&str) -> Result<ClientBuilder<'static>, String>,
    reply: impl FnOnce(&[u8]) -> Vec<u8> + Send + 'static,
    sends: Vec<OwnedMessage>,
) -> Result<Dialled, String> {
    let id = NEXT.fetch_add(1, SeqCst);
    let host = format!("d{}.mc.test", id);
    let ip = u32::from(Ipv4Addr::new(127, 77, (id >> 8) as u8, id as u8));
    let l = TcpListener::bind("127.0.0.1:0").map_err(herr)?;
    let real = l.local_addr().map_err(herr)?.port();
    let ports = [80, 443, port.unwrap_or(80)];
    shim::name(&host, ip);
    for p in &ports {
        shim::route(ip, *p, real);
    }
    let secure = dials_tls(scheme, method);
    let th = std::thread::spawn(move || -> Result<(Vec<u8>, Vec<u8>), String> {
        let (mut head, mut after) = (vec![], vec![]);
        let mut reply = Some(reply);
        loop {
            let (mut s, _) = l.accept().map_err(herr)?;
            s.set_read_timeout(Some(Duration::from_secs(20))).map_err(herr)?;
            s.set_write_timeout(Some(Duration::from_secs(20))).map_err(herr)?;
            let mut first = [1];
            if s.peek(&mut first).unwrap_or(0) == 1 && first[0] == 0 {
                return Ok((head, after));
            }
            let f = match reply.take() {
                Some(f) => f,
                None => continue,
            };
            if secure {
                if let Ok(mut t) = acceptor(0)?.accept(s) {
                    listen_once(&mut t, f, &mut head, &mut after, |t| {
                        let _ = t.shutdown();
                    });
                }
            } else {
                listen_once(&mut s, f, &mut head, &mut after, |s| {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                });
            }
        }
    });
    let url = format!("{}://{}{}{}{}", scheme, user, host, port.map(|p| format!(":{}", p)).unwrap_or_default(), rest);
    let got = guarded(|| -> Result<_, String> {
        let mut b = build(&url)?;
        let conf = Some(connector()?);
        macro_rules! sync {
            ($c:expr) => {
                match $c {
                    Err(e) => Ok(Err(e)),
                    Ok(mut c) => {
                        for m in &sends {
                            c.send_message(m).map_err(|e| format!("send: {:?}", e))?;
                        }
                        let mut v = vec![];
                        loop {
                            let o = crate::drv::res_obs(c.recv_message());
                            v.push(o);
                            if !matches!(v.last(), Some(Obs::Msg(_))) {
                                break;
                            }
                        }
                        Ok(Ok((c.headers().clone(), v)))
                    }
                }
            };
        }
        macro_rules! asy {
            ($f:expr) => {{
                let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(herr)?;
                match rt.block_on($f) {
                    Err(e) => Ok(Err(e)),
                    Ok((mut c, h)) => {
                        for m in &sends {
                            c = rt.block_on(c.send(m.clone())).map_err(|e| format!("send: {:?}", e))?;
                        }
                        let mut v = vec![];
                        loop {
                            match rt.block_on(c.into_future()) {
                                Ok((Some(m), n)) => {
                                    v.push(Obs::Msg(m));
                                    c = n;
                                }
                                Ok((None, _)) => {
                                    v.push(Obs::End);
                                    break;
                                }
                                Err((e, _)) => {
                                    v.push(crate::drv::show_ws_err(e));
                                    break;
                                }
                            }
                        }
                        Ok(Ok((h, v)))
                    }
                }
            }};
        }
        match method {
            0 => sync!(b.connect(conf)),
            1 => sync!(b.connect_secure(conf)),
            2 => sync!(b.connect_insecure()),
            3 => asy!(b.async_connect(conf).map(|x| x)),
            4 => asy!(b.async_connect_secure(conf)),
            _ => asy!(b.async_connect_insecure()),
        }
    });
    for p in &ports {
        shim::unroute(ip, *p);
    }
    shim::forget(&host, ip);
    let mut s = TcpStream::connect(("127.0.0.1", real)).map_err(herr)?;
    s.write_all(&[0]).map_err(herr)?;
    let seen = th.join().map_err(|_| format!("{}: server thread panicked", HARNESS))?;
    let got = got??;
    let (head, after) = seen?;
    Ok(Dialled { head, after, tls: secure, got })
}
