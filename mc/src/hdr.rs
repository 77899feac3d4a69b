//! C14: handshake header codecs.
use crate::engine::*;
use crate::ensure;
use crate::http::*;
use std::fmt::Debug;
use std::str::FromStr;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{Header, HeaderFormat, Headers, Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};

/// The header's value as the library formats it into a head
fn line<H: Header + HeaderFormat>(h: H) -> Result<String, String> {
    let mut hs = Headers::new();
    hs.set(h);
    let t = hs.to_string();
    let p = format!("{}: ", H::header_name());
    match t.strip_prefix(&p[..]).and_then(|t| t.strip_suffix("\r\n")) {
        Some(v) => Ok(v.to_string()),
        None => Err(format!("formatted header is {:?}", t)),
    }
}
fn parse<H: Header>(v: &[u8]) -> Option<H> {
    H::parse_header(&[v.to_vec()]).ok()
}
/// through a header collection, as a handshake does
fn get<H: Header + HeaderFormat + Clone>(lines: &[Vec<u8>]) -> Option<H> {
    let mut h = Headers::new();
    h.set_raw(H::header_name(), lines.to_vec());
    h.get::<H>().cloned()
}
fn round<H: Header + HeaderFormat + Clone + PartialEq + Debug>(v: &H) -> Res {
    let t = line(v.clone())?;
    match parse::<H>(t.as_bytes()) {
        Some(b) => ensure!(b == *v, "{:?} formats as {:?} and parses back as {:?}", v, t, b),
        None => return Err(format!("{:?} formats as {:?}, which is refused", v, t)),
    }
    match get::<H>(&[t.clone().into_bytes()]) {
        Some(b) => ensure!(b == *v, "{:?} read from a header collection as {:?}", v, b),
        None => return Err(format!("{:?} formats as {:?}, which a header collection refuses", v, t)),
    }
    Ok(())
}
/// shown as it is formatted in a head
fn shown<H: Header + HeaderFormat + Clone + std::fmt::Display>(v: &H) -> Res {
    let (d, l) = (v.to_string(), line(v.clone())?);
    ensure!(d == l, "displayed as {:?} but formatted as {:?}", d, l);
    Ok(())
}
/// key texts and accept texts: accepted exactly when they encode 16 (20) bytes; Err(true) of unb64 is a non-canonical text
fn judge(text: &[u8], c: &mut Case) -> Res {
    let want = std::str::from_utf8(text).ok().map(unb64);
    for which in 0..2 {
        c.step();
        let n = [16, 20][which];
        let name = ["key", "accept value"][which];
        let mut got: Vec<(&str, Option<String>)> = vec![];
        if which == 0 {
            if let Ok(s) = std::str::from_utf8(text) {
                got.push(("from_str", WebSocketKey::from_str(s).ok().map(|k| k.serialize())));
            }
            got.push(("parse_header", parse::<WebSocketKey>(text).map(|k| k.serialize())));
            got.push(("header collection", get::<WebSocketKey>(&[text.to_vec()]).map(|k| k.serialize())));
        } else {
            if let Ok(s) = std::str::from_utf8(text) {
                got.push(("from_str", WebSocketAccept::from_str(s).ok().map(|k| k.serialize())));
            }
            got.push(("parse_header", parse::<WebSocketAccept>(text).map(|k| k.serialize())));
            got.push(("header collection", get::<WebSocketAccept>(&[text.to_vec()]).map(|k| k.serialize())));
        }
        for (how, g) in got {
            match &want {
                Some(Ok(d)) if d.len() == n => {
                    ensure!(g.as_ref().map(|s| s.as_bytes()) == Some(text), "{} {:?} gives {:?} by {}", name, String::from_utf8_lossy(text), g, how)
                }
                Some(Err(true)) if text.iter().filter(|b| **b != b'=').count() * 6 / 8 == n => {}
                _ => ensure!(g.is_none(), "{} {:?} accepted by {} as {:?}", name, String::from_utf8_lossy(text), how, g),
            }
        }
    }
    c.trace(&(text.len(), matches!(want, Some(Ok(_)))));
    Ok(())
}
fn key_case(k: [u8; 16], c: &mut Case) -> Res {
    c.step();
    let key = WebSocketKey::from_array(k);
    let t = b64(&k);
    ensure!(!format!("{:?}{:?}", key, WebSocketAccept::new(&key)).is_empty(), "nothing to show");
    ensure!(key.serialize() == t, "key {} serialises as {}", hex(&k), key.serialize());
    ensure!((key.0).0 == k, "key bytes changed");
    let a = WebSocketAccept::new(&key);
    ensure!(a.serialize() == accept_for(&t), "accept of {} is {} not {}", t, a.serialize(), accept_for(&t));
    let back = WebSocketKey::from_str(&t).map_err(|e| format!("key {} refused: {:?}", t, e))?;
    ensure!((back.0).0 == k, "key {} parses as {:?}", t, back);
    let pa = WebSocketAccept::from_str(&a.serialize()).map_err(|e| format!("accept refused: {:?}", e))?;
    ensure!(pa == a && pa == WebSocketAccept::new(&back), "accept does not compare equal to itself");
    Ok(())
}
fn tok(i: usize) -> &'static str {
    ["a", "chat.v2", "permessage-deflate", "x_Y~1"][i]
}
/// value and text with whitespace variant `ws`
fn ext_of(ix: &mut Ix, maxp: usize, vals: &[Option<&str>], ws: usize) -> (Extension, String) {
    let (sp, eq) = [("; ", "="), (";", "="), (" ; ", " = "), ("\t;  ", "=\t"), ("; ", " =")][ws];
    let name = tok(ix.take(4));
    let n = ix.take(maxp + 1);
    let mut e = Extension::new(name.into());
    let mut t = name.to_string();
    for _ in 0..n {
        let p = tok(ix.take(4));
        let v = vals[ix.take(vals.len())];
        e.params.push(Parameter::new(p.into(), v.map(|s| s.into())));
        t.push_str(sp);
        t.push_str(p);
        if let Some(v) = v {
            t.push_str(eq);
            t.push_str(v);
        }
    }
    (e, t)
}

pub fn c14(x: &Ctx) {
    x.assume("oracle: the harness's own base64 and SHA-1; non-canonical base64 (unpadded, non-zero trailing bits) of the right length is not judged");
    x.bound("keys: every value of every byte on 4 backgrounds, every value pair of every two bytes; the same single bytes for accept values");
    x.section("keys/single", 4 * 16 * 256, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(256) as u8;
        let p = ix.take(16);
        let mut k = [[0u8; 16], [255; 16], KEY_BYTES, *b"\x00\xff\x10\xef\x3f\xfb\xbe\x01\x80\x7f\xaa\x55\xc3\x28\x0d\x0a"][ix.take(4)];
        k[p] = v;
        c.note = format!("key {}", hex(&k));
        c.state(&k);
        key_case(k, c)?;
        let key = WebSocketKey::from_array(k);
        round(&key)?;
        round(&WebSocketAccept::new(&key))?;
        ensure!(line(key)? == b64(&k), "key header is {}", line(key)?);
        ensure!(line(WebSocketAccept::new(&key))? == accept_for(&b64(&k)), "accept header wrong");
        c.trace(&(p, v));
        Ok(())
    });
    let pairs: Vec<(usize, usize)> = (0..16).flat_map(|a| (a + 1..16).map(move |b| (a, b))).collect();
    x.section("keys/pairs", (pairs.len() * 65536) as u64, |c, i| {
        let mut ix = Ix(i);
        let (u, v) = (ix.take(256) as u8, ix.take(256) as u8);
        let (p, q) = pairs[ix.take(pairs.len())];
        let mut k = KEY_BYTES;
        k[p] = u;
        k[q] = v;
        if c.note.is_empty() {
            c.note = format!("key with bytes {} {} set to {} {}", p, q, u, v);
        }
        key_case(k, c)?;
        c.trace(&(p, q));
        Ok(())
    });
    x.section("accepts", 4 * 20 * 256, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(256) as u8;
        let p = ix.take(20);
        let mut k = [[0u8; 20], [255; 20], *b"the sample accept va", sha1(b"x")][ix.take(4)];
        k[p] = v;
        let t = b64(&k);
        c.note = format!("accept {}", t);
        c.state(&k);
        c.step();
        let a = WebSocketAccept::from_str(&t).map_err(|e| format!("refused: {:?}", e))?;
        ensure!(a.serialize() == t, "{} serialises as {}", t, a.serialize());
        round(&a)?;
        // only equal values compare equal
        let mut o = k;
        o[(p + 1) % 20] ^= 1 << (v % 8);
        let b = WebSocketAccept::from_str(&b64(&o)).map_err(|e| format!("refused: {:?}", e))?;
        ensure!(a != b, "different accept values compare equal");
        c.trace(&p);
        Ok(())
    });
    x.bound("key and accept texts: encodings of 0-64 bytes; every single-character replacement, insertion, deletion and truncation over all 256 byte values (thorough: every two replacements over 20 values); every tail of up to 5 (6) characters over 13 classes after every 4-character-aligned prefix");
    x.section("lengths", 65 * 3, |c, i| {
        let mut ix = Ix(i);
        let n = ix.take(65);
        let d: Vec<u8> = (0..n).map(|k| [0, 255, (k * 37) as u8][(i / 65) as usize]).collect();
        let t = b64(&d);
        c.note = format!("text {}", t);
        c.state(&i);
        judge(t.as_bytes(), c)
    });
    let bases: Vec<Vec<u8>> = vec![
        KEY.as_bytes().to_vec(),
        accept_for(KEY).into_bytes(),
        b64(&[255; 16]).into_bytes(),
        b64(&[0; 20]).into_bytes(),
        b64(b"fifteen bytes..").into_bytes(),
        b64(b"eighteen bytes....").into_bytes(),
        b64(b"seventeen bytes..").into_bytes(),
        b64(b"nineteen bytes.....").into_bytes(),
        b64(b"twenty-one bytes.....").into_bytes(),
    ];
    x.section("edits", (bases.len() * 32 * 4 * 256) as u64, |c, i| {
        let mut ix = Ix(i);
        let v = ix.take(256) as u8;
        let how = ix.take(4);
        let p = ix.take(32);
        let mut t = bases[ix.take(bases.len())].clone();
        match how {
            0 if p < t.len() => t[p] = v,
            1 if p <= t.len() => t.insert(p, v),
            2 if p < t.len() && v == 0 => {
                t.remove(p);
            }
            3 if p < t.len() && v == 0 => t.truncate(p),
            _ => return Ok(()),
        }
        c.note = format!("text {:?}", String::from_utf8_lossy(&t));
        c.state(&t);
        judge(&t, c)
    });
    let cls: Vec<&[u8]> = vec![b"A", b"Q", b"z", b"9", b"+", b"/", b"=", b"-", b" ", b"\n", "é".as_bytes(), b"\0", b"\xff"];
    let tl = x.tier(5, 6);
    x.section("tails", 2 * 9 * seq_count(13, tl), |c, i| {
        let mut ix = Ix(i);
        let b = ix.take(2);
        let pre = ix.take(9) * 4;
        let mut t = if b == 0 { b64(&[7; 24]) } else { b64(&[0xa5; 24]) }.into_bytes();
        t.truncate(pre);
        for k in seq_of(13, ix.0) {
            t.extend_from_slice(cls[k]);
        }
        c.note = format!("text {:?}", String::from_utf8_lossy(&t));
        c.state(&t);
        judge(&t, c)
    });
    if x.thorough {
        let vals = b"AQz9+/=-_ \n\r\t,\"\0\x7f\x80\xc3~";
        x.section("edits/two", (bases.len() * 28 * 28 * 20 * 20) as u64, |c, i| {
            let mut ix = Ix(i);
            let mut t = bases[ix.take(bases.len())].clone();
            let (p, q) = (ix.take(28), ix.take(28));
            if q <= p || q >= t.len() {
                return Ok(());
            }
            t[p] = vals[ix.take(20)];
            t[q] = vals[ix.take(20)];
            c.note = format!("text {:?}", String::from_utf8_lossy(&t));
            c.state(&t);
            judge(&t, c)
        });
    }
    x.bound("versions and origins: every string of up to 4 (5) characters over 9 classes; protocol lists of up to 4 tokens in 6 spacing and line variants");
    let al = ["1", "3", "0", "a", " ", ",", ";", "é", "="];
    x.section("strings", seq_count(9, x.tier(4, 6)), |c, i| {
        let s: String = seq_of(9, i).iter().map(|k| al[*k]).collect();
        c.note = format!("{:?}", s);
        c.state(&s);
        c.step();
        if s.is_empty() {
            ensure!(parse::<WebSocketKey>(b"").is_none() && parse::<WebSocketAccept>(b"").is_none(), "an empty key was accepted");
            c.trace(&0);
            return Ok(());
        }
        let padded = s.trim() != s;
        // parse, format, parse, format
        if let Some(v) = parse::<WebSocketVersion>(s.as_bytes()) {
            if !padded {
                ensure!((v == WebSocketVersion::WebSocket13) == (s == "13"), "version {:?} parses as {:?}", s, v);
                ensure!(line(v.clone())? == s, "version {:?} formats as {:?}", s, line(v)?);
            }
        } else {
            return Err("a version was refused".into());
        }
        match parse::<Origin>(s.as_bytes()) {
            Some(o) if !padded => ensure!(o.0 == s && line(o.clone())? == s, "origin {:?} is {:?}", s, o),
            Some(_) => {}
            None => return Err("an origin was refused".into()),
        }
        if !padded {
            round(&Origin(s.clone()))?;
            shown(&Origin(s.clone()))?;
            ensure!(**Origin(s.clone()) == s[..], "an origin dereferences to something else");
            shown(&WebSocketVersion::Unknown(s.clone()))?;
            shown(&WebSocketVersion::WebSocket13)?;
            round(&if s == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(s.clone()) })?;
            c.trace(&(s == "13", s.len()));
        }
        Ok(())
    });
    let plist: Vec<Vec<usize>> = (0..seq_count(4, 4)).map(|i| seq_of(4, i)).collect();
    x.section("protocols", (plist.len() * 6) as u64, |c, i| {
        let mut ix = Ix(i);
        let l: Vec<String> = plist[ix.take(plist.len())].iter().map(|k| tok(*k).to_string()).collect();
        let ws = ix.take(6);
        let lines: Vec<Vec<u8>> = match ws {
            0 => vec![l.join(", ").into_bytes()],
            1 => vec![l.join(",").into_bytes()],
            2 => vec![l.join(" ,\t").into_bytes()],
            3 => vec![format!(",{},,", l.join(",, ,")).into_bytes()],
            4 => l.iter().map(|t| t.clone().into_bytes()).collect(),
            _ => l.chunks(2).map(|t| t.join(", ").into_bytes()).collect(),
        };
        c.note = format!("protocols {:?} as {:?}", l, lines.iter().map(|l| String::from_utf8_lossy(l)).collect::<Vec<_>>());
        c.state(&(&l, ws));
        c.step();
        let v = WebSocketProtocol(l.clone());
        round(&v)?;
        shown(&v)?;
        ensure!(*v == l, "a protocol list dereferences to something else");
        ensure!(line(v.clone())? == l.join(", "), "formatted as {:?}", line(v)?);
        let g = WebSocketProtocol::parse_header(&lines).map_err(|e| e.to_string())?;
        ensure!(g.0 == l, "parsed as {:?}", g);
        if !lines.is_empty() {
            ensure!(get::<WebSocketProtocol>(&lines) == Some(v), "read from a header collection as {:?}", get::<WebSocketProtocol>(&lines));
        }
        c.trace(&(l.len(), ws));
        Ok(())
    });
    x.bound("extension lists: up to 1 extension with up to 3 parameters, 2 with up to 1 each (thorough: 2), 3 with none; values none, empty, 1, with '=' signs, quoted; 5 spacings, one or several lines; every string of up to 8 (9) characters over 7 classes is parse-format stable");
    let vals: [Option<&str>; 6] = [None, Some(""), Some("1"), Some("a=b"), Some("=="), Some("\"q r\"")];
    let one = (4 * 4 * 24u64.pow(3)) * 5;
    x.section("extensions/one", one, |c, i| {
        let mut ix = Ix(i);
        let ws = ix.take(5);
        let (e, t) = ext_of(&mut ix, 3, &vals, ws);
        if ix.0 != 0 {
            return Ok(());
        }
        c.note = format!("{:?}", t);
        c.state(&(ws, &t));
        ext_case(vec![e], &[t], ws, c)
    });
    let p2 = x.tier(1, 2);
    let n2 = 4 * (p2 as u64 + 1) * 24u64.pow(p2 as u32);
    x.section("extensions/two", n2 * n2 * 2 * 5, |c, i| {
        let mut ix = Ix(i);
        let ws = ix.take(5);
        let multi = ix.take(2) == 1;
        let half = Ix(ix.0 % n2);
        let rest = Ix(ix.0 / n2);
        let (mut a, mut b) = (half, rest);
        let (e, t) = ext_of(&mut a, p2, &vals, ws);
        let (f, u) = ext_of(&mut b, p2, &vals, ws);
        if a.0 != 0 || b.0 != 0 {
            return Ok(());
        }
        c.note = format!("{:?} {:?} lines: {}", t, u, multi);
        c.state(&(ws, &t, &u, multi));
        if multi {
            ext_case(vec![e, f], &[t, u], ws, c)
        } else {
            ext_case(vec![e, f], &[format!("{}{}{}", t, [", ", ",", " , ", ",,\t", ", "][ws], u)], ws, c)
        }
    });
    x.section("extensions/many", seq_count(4, 5), |c, i| {
        let l: Vec<Extension> = seq_of(4, i).iter().map(|k| Extension::new(tok(*k).into())).collect();
        let t = l.iter().map(|e| e.name.clone()).collect::<Vec<_>>().join(", ");
        c.note = format!("{:?}", t);
        c.state(&i);
        ext_case(l, &[t], 0, c)
    });
    let sa = ["a", ";", ",", "=", " ", "\"", "\t"];
    x.section("stable", seq_count(7, x.tier(8, 9)), |c, i| {
        let s: String = seq_of(7, i).iter().map(|k| sa[*k]).collect();
        c.step();
        let p = WebSocketExtensions::parse_header(&[s.clone().into_bytes()]).map_err(|e| e.to_string())?;
        let f = line(p.clone())?;
        let q: WebSocketExtensions = parse(f.as_bytes()).ok_or("its own format is refused")?;
        ensure!(p == q, "{:?} parses as {:?}, formats as {:?}, parses as {:?}", s, p, f, q);
        ensure!(line(q)? == f, "{:?}: format is not stable", s);
        let p = WebSocketProtocol::parse_header(&[s.clone().into_bytes()]).map_err(|e| e.to_string())?;
        let f = line(p.clone())?;
        ensure!(parse::<WebSocketProtocol>(f.as_bytes()) == Some(p), "protocols {:?} not stable", s);
        c.trace(&f.len());
        Ok(())
    });
    wide(x);
    x.bound("no crash: every header with every one- and two-byte value, with none, one or two lines");
    x.section("bytes", 65536 * 4, |c, i| {
        let (a, b) = (i as u8, (i >> 8) as u8);
        let lines: Vec<Vec<u8>> = match i >> 16 {
            0 => vec![vec![a, b]],
            1 => vec![vec![a], vec![b]],
            2 if b == 0 => vec![vec![a]],
            3 if i & 65535 == 0 => vec![],
            _ => return Ok(()),
        };
        c.note = format!("{:?}", lines);
        c.state(&lines);
        c.step();
        ensure!(WebSocketKey::parse_header(&lines).is_err(), "accepted as a key");
        ensure!(WebSocketAccept::parse_header(&lines).is_err(), "accepted as an accept value");
        let mut n = 0;
        n += WebSocketVersion::parse_header(&lines).map(|v| line(v).map(|_| 1)).is_ok() as u32;
        n += Origin::parse_header(&lines).map(|v| line(v).map(|_| 1)).is_ok() as u32 * 2;
        n += WebSocketProtocol::parse_header(&lines).map(|v| line(v).map(|_| 1)).is_ok() as u32 * 4;
        n += WebSocketExtensions::parse_header(&lines).map(|v| line(v).map(|_| 1)).is_ok() as u32 * 8;
        c.trace(&n);
        Ok(())
    });
}
fn ext_case(l: Vec<Extension>, lines: &[String], ws: usize, c: &mut Case) -> Res {
    c.step();
    let v = WebSocketExtensions(l.clone());
    round(&v)?;
    ensure!(*v == l, "an extension list dereferences to something else");
    let raw: Vec<Vec<u8>> = lines.iter().map(|t| t.clone().into_bytes()).collect();
    let g = WebSocketExtensions::parse_header(&raw).map_err(|e| e.to_string())?;
    ensure!(g == v, "{:?} parses as {:?}, expected {:?}", lines, g, v);
    if lines.len() == 1 && !l.is_empty() {
        ensure!(get::<WebSocketExtensions>(&raw).as_ref() == Some(&v), "a header collection reads {:?}", get::<WebSocketExtensions>(&raw));
        ensure!(v.to_string() == line(v.clone())?, "Display differs from the header");
    }
    if l.len() == 1 {
        let e = Extension::from_str(&lines[0]).map_err(|e| format!("{:?}", e))?;
        ensure!(e == l[0], "Extension::from_str gives {:?}", e);
        ensure!(Extension::from_str(&e.to_string()).map_err(|e| format!("{:?}", e))? == e, "Extension does not round-trip");
    }
    c.trace(&(ws, l.len(), l.iter().map(|e| e.params.len()).collect::<Vec<_>>()));
    Ok(())
}

const TCHAR: &[u8] = b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
fn one_ext(name: &str, params: Vec<(String, Option<String>)>) -> Extension {
    let mut e = Extension::new(name.into());
    e.params = params.into_iter().map(|(n, v)| Parameter::new(n, v)).collect();
    e
}
fn ext_text(e: &Extension) -> String {
    let mut t = e.name.clone();
    for p in &e.params {
        t.push_str("; ");
        t.push_str(&p.name);
        if let Some(v) = &p.value {
            t.push('=');
            t.push_str(v);
        }
    }
    t
}
/// sizes, numbers and alphabets beyond the small lists above
fn wide(x: &Ctx) {
    x.bound("tokens: every pair of token characters as (or at either end of) a protocol, an extension, a parameter name and value; every pair of printable characters and every two-byte character as origin and version; every version number up to 70000 with 6 spellings");
    x.section("tokens", (77 * 77 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let (a, b) = (TCHAR[ix.take(77)] as char, TCHAR[ix.take(77)] as char);
        let t = match ix.take(3) {
            0 => format!("{}{}", a, b),
            1 => format!("{}mid-dle{}", a, b),
            _ => format!("m{}{}m", a, b),
        };
        c.note = format!("token {:?}", t);
        c.state(&t);
        c.step();
        let v = WebSocketProtocol(vec!["x".into(), t.clone(), t.to_uppercase(), t.to_lowercase(), t.clone()]);
        round(&v)?;
        ensure!(line(v.clone())? == v.0.join(", "), "protocols {:?} format as {:?}", v, line(v.clone())?);
        let l = vec![
            one_ext(&t, vec![(t.clone(), Some(t.clone())), (t.to_lowercase(), None), (t.clone(), Some(String::new()))]),
            one_ext(&t.to_uppercase(), vec![]),
            one_ext(&t, vec![("v".into(), Some(format!("{}={}", t, t)))]),
        ];
        let texts: Vec<String> = l.iter().map(ext_text).collect();
        ext_case(l, &[texts.join(", ")], 0, c)
    });
    // printable ASCII pairs, then characters of two bytes
    x.section("characters", 95 * 95 + 1920, |c, i| {
        let s = if i < 95 * 95 {
            let mut ix = Ix(i);
            format!("{}{}", (32 + ix.take(95) as u8) as char, (32 + ix.take(95) as u8) as char)
        } else {
            let ch = std::char::from_u32(0x80 + (i - 95 * 95) as u32).unwrap();
            format!("a{}b", ch)
        };
        c.state(&s);
        c.note = format!("{:?}", s);
        c.step();
        if s.trim() == s {
            for t in &[s.clone(), format!("http://{}.example", s), format!("{}x{}", s, s)] {
                round(&Origin(t.clone()))?;
                ensure!(line(Origin(t.clone()))? == *t, "origin {:?} formats as {:?}", t, line(Origin(t.clone()))?);
                let v = if t == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(t.clone()) };
                round(&v)?;
                ensure!(line(v.clone())? == *t, "version {:?} formats as {:?}", t, line(v)?);
            }
        }
        // a parameter value keeps everything but separators
        if s.trim() == s && !s.contains(|ch| ch == ',' || ch == ';') {
            let e = one_ext("e", vec![("p".into(), Some(s.clone())), ("q".into(), Some(format!("\"{}\"", s)))]);
            ext_case(vec![e.clone()], &[ext_text(&e)], 0, c)?;
        }
        c.trace(&(s.trim() == s, s.len()));
        Ok(())
    });
    x.section("versions", 70001 * 6, |c, i| {
        let mut ix = Ix(i);
        let how = ix.take(6);
        let n = ix.0;
        let s = match how {
            0 => format!("{}", n),
            1 => format!("0{}", n),
            2 => format!("+{}", n),
            3 => format!("{}.0", n),
            4 => format!("{}a", n),
            _ => format!("-{}", n),
        };
        c.note = format!("version {:?}", s);
        c.step();
        let v: WebSocketVersion = parse(s.as_bytes()).ok_or("a version was refused")?;
        ensure!((v == WebSocketVersion::WebSocket13) == (s == "13"), "version {:?} parses as {:?}", s, v);
        let want = if s == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(s.clone()) };
        ensure!(v == want && line(v.clone())? == s, "version {:?} parses as {:?} and formats as {:?}", s, v, line(v.clone()));
        round(&v)?;
        c.trace(&(how, s.len()));
        Ok(())
    });
    x.bound("sizes: protocols, extension and parameter names and values, origins and versions of every length up to 300 and around every power of two up to 64 KiB (1 MiB); lists of every number up to 70 (300) and around every power of two up to 4096 (16384) of protocols, extensions or parameters on one or many lines");
    let mut lens: Vec<usize> = (1..=300).collect();
    lens.extend(crate::rx::sizes_around_powers(x.tier(1 << 16, 1 << 20)).into_iter().filter(|n| *n > 300));
    x.section("lengths/values", (lens.len() * 7) as u64, |c, i| {
        let mut ix = Ix(i);
        let what = ix.take(7);
        let n = lens[ix.0 as usize];
        let s: String = (0..n).map(|k| TCHAR[(k * 7 + k / 77) % 77] as char).collect();
        c.note = format!("length {} of {}", n, ["protocol", "extension", "parameter name", "parameter value", "origin", "version", "quoted value"][what]);
        c.state(&(what, n));
        let e = match what {
            0 => {
                c.step();
                let v = WebSocketProtocol(vec!["a".into(), s.clone(), "b".into()]);
                ensure!(line(v.clone())? == format!("a, {}, b", s), "formatted differently");
                c.trace(&(what, n < 300));
                return round(&v).map_err(short);
            }
            1 => one_ext(&s, vec![("a".into(), None)]),
            2 => one_ext("a", vec![(s.clone(), Some("1".into())), ("b".into(), None)]),
            3 => one_ext("a", vec![("p".into(), Some(s.clone())), ("b".into(), None)]),
            4 => {
                c.step();
                c.trace(&(what, n < 300));
                ensure!(line(Origin(s.clone()))? == s, "formatted differently");
                return round(&Origin(s)).map_err(short);
            }
            5 => {
                c.step();
                c.trace(&(what, n < 300));
                let v = if s == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(s) };
                return round(&v).map_err(short);
            }
            _ => one_ext("a", vec![("p".into(), Some(format!("\"{} {}\"", s, s))), ("b".into(), None)]),
        };
        let t = ext_text(&e);
        ext_case(vec![e], &[t], 0, c).map_err(short)
    });
    let mut ns: Vec<usize> = (0..=x.tier(70, 300)).collect();
    let top = *ns.last().unwrap();
    ns.extend(crate::rx::sizes_around_powers(x.tier(1 << 12, 1 << 14)).into_iter().filter(|n| *n > top));
    x.section("lists/large", (ns.len() * 6 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let shape = ix.take(6);
        let names = ix.take(3);
        let n = ns[ix.0 as usize];
        // distinct and descending, two alternating that differ in case, all the same
        let nm = |k: usize| match names {
            0 => format!("n{}", n - k),
            1 => ["Same", "same"][k % 2].to_string(),
            _ => "x".to_string(),
        };
        c.note = format!("{} entries, shape {}, names {}", n, shape, names);
        c.state(&(shape, names, n));
        let l: Vec<String> = (0..n).map(nm).collect();
        match shape {
            0 | 1 => {
                c.step();
                let v = WebSocketProtocol(l.clone());
                round(&v).map_err(short)?;
                ensure!(line(v.clone())? == l.join(", "), "formatted differently");
                let lines: Vec<Vec<u8>> = if shape == 0 { vec![l.join(",").into_bytes()] } else { l.iter().map(|s| s.clone().into_bytes()).collect() };
                let g = WebSocketProtocol::parse_header(&lines).map_err(|e| e.to_string())?;
                ensure!(g.0 == l, "{} protocols parsed as {}", n, g.0.len());
                if n > 0 {
                    ensure!(get::<WebSocketProtocol>(&lines) == Some(v), "a header collection reads other protocols");
                }
                c.trace(&(shape, names, n.min(3)));
                Ok(())
            }
            2 | 3 => {
                let v: Vec<Extension> = l.iter().enumerate().map(|(k, s)| one_ext(s, if k % 3 == 2 { vec![("p".into(), Some(k.to_string()))] } else { vec![] })).collect();
                let t: Vec<String> = v.iter().map(ext_text).collect();
                let lines = if shape == 2 { vec![t.join(", ")] } else { t };
                c.step();
                let w = WebSocketExtensions(v.clone());
                round(&w).map_err(short)?;
                let raw: Vec<Vec<u8>> = lines.iter().map(|t| t.clone().into_bytes()).collect();
                let g = WebSocketExtensions::parse_header(&raw).map_err(|e| e.to_string())?;
                ensure!(g == w, "{} extensions parsed as {}", n, g.len());
                c.trace(&(shape, names, n.min(3)));
                Ok(())
            }
            _ => {
                let e = one_ext("many", l.into_iter().enumerate().map(|(k, s)| (s, if shape == 4 || k % 2 == 0 { Some(format!("v{}", k)) } else { None })).collect());
                let t = ext_text(&e);
                ext_case(vec![e.clone(), one_ext("z", vec![])], &[format!("{}, z", t)], 0, c).map_err(short)?;
                ext_case(vec![e], &[t], 0, c).map_err(short)
            }
        }
    });
    x.bound("every list of up to 5 (6) of 7 related tokens (prefixes, case variants, repeats), as protocols, as extensions and as parameter names with values");
    const REL: [&str; 7] = ["a", "A", "aa", "a.a", "b", "a-b", "aA"];
    x.section("lists/related", seq_count(7, x.tier(5, 6)), |c, i| {
        let l: Vec<String> = seq_of(7, i).iter().map(|k| REL[*k].to_string()).collect();
        c.note = format!("{:?}", l);
        c.state(&l);
        c.step();
        let v = WebSocketProtocol(l.clone());
        round(&v)?;
        ensure!(line(v.clone())? == l.join(", "), "formatted as {:?}", line(v)?);
        let g = WebSocketProtocol::parse_header(&[l.join(", ").into_bytes()]).map_err(|e| e.to_string())?;
        ensure!(g.0 == l, "parsed as {:?}", g);
        let es: Vec<Extension> = l.iter().map(|s| one_ext(s, vec![])).collect();
        let t: Vec<String> = es.iter().map(ext_text).collect();
        ext_case(es, &[t.join(", ")], 0, c)?;
        let e = one_ext("e", l.iter().enumerate().map(|(k, s)| (s.clone(), if k % 2 == 0 { Some(s.to_uppercase()) } else { None })).collect());
        let t = ext_text(&e);
        ext_case(vec![e], &[t], 0, c)
    });
}
fn short(e: String) -> String {
    if e.len() > 400 {
        format!("{}...", e.chars().take(400).collect::<String>())
    } else {
        e
    }
}
