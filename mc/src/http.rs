//! Independent HTTP head parser, SHA-1 and base64.

#[derive(Debug, Clone)]
pub struct Head {
    pub start: String,
    pub headers: Vec<(String, String)>,
    pub len: usize,
}
impl Head {
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect()
    }
    pub fn one(&self, name: &str) -> Result<&str, String> {
        let v = self.all(name);
        if v.len() == 1 {
            Ok(v[0])
        } else {
            Err(format!("header {} occurs {} times", name, v.len()))
        }
    }
    /// comma separated tokens over all occurrences
    pub fn tokens(&self, name: &str) -> Vec<String> {
        self.all(name).iter().flat_map(|v| v.split(',')).map(|t| t.trim().to_string()).filter(|t| !t.is_empty()).collect()
    }
}

/// Strict parse of exactly one head at the start of `b`; bare CR or LF is an error.
pub fn parse_head(b: &[u8]) -> Result<Head, String> {
    let end = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(p) => p,
        None => return Err("no end of head".into()),
    };
    let text = match std::str::from_utf8(&b[..end]) {
        Ok(t) => t,
        Err(_) => return Err("head is not UTF-8".into()),
    };
    let mut lines = text.split("\r\n");
    let start = lines.next().unwrap_or("").to_string();
    let mut headers = vec![];
    if start.contains(|c| c == '\r' || c == '\n') {
        return Err(format!("line break in start line {:?}", start));
    }
    for l in lines {
        if l.contains(|c| c == '\r' || c == '\n') {
            return Err(format!("bare line break in {:?}", l));
        }
        let p = match l.find(':') {
            Some(p) => p,
            None => return Err(format!("header line without colon {:?}", l)),
        };
        let name = &l[..p];
        if name.is_empty() || !name.bytes().all(is_tchar) {
            return Err(format!("bad header name {:?}", name));
        }
        headers.push((name.to_string(), l[p + 1..].trim().to_string()));
    }
    Ok(Head { start, headers, len: end + 4 })
}
pub fn is_tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}

const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// strict decoding of padded base64; Err(true) = only non-canonical in the unused bits or padding (not judged)
pub fn unb64(s: &str) -> Result<Vec<u8>, bool> {
    let b = s.as_bytes();
    let data: Vec<u8> = b.iter().cloned().take_while(|c| *c != b'=').collect();
    let pad = b.len() - data.len();
    if b[data.len()..].iter().any(|c| *c != b'=') {
        return Err(false);
    }
    let mut v = vec![];
    let mut acc = 0u32;
    let mut bits = 0;
    for c in &data {
        let x = match A.iter().position(|a| a == c) {
            Some(x) => x as u32,
            None => return Err(false),
        };
        acc = acc << 6 | x;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            v.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if data.len() % 4 == 1 {
        return Err(false);
    }
    let want = (4 - data.len() % 4) % 4;
    if pad != want || acc != 0 {
        return Err(true);
    }
    Ok(v)
}

pub fn sha1(d: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = d.to_vec();
    let l = (d.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&l.to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut cc, mut dd, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for i in 0..80 {
            let (f, k) = match i / 20 {
                0 => ((b & cc) | (!b & dd), 0x5A827999),
                1 => (b ^ cc ^ dd, 0x6ED9EBA1),
                2 => ((b & cc) | (b & dd) | (cc & dd), 0x8F1BBCDC),
                _ => (b ^ cc ^ dd, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = dd;
            dd = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        h[0] = h[0].wrapping_add(a);
        h[1] = h[1].wrapping_add(b);
        h[2] = h[2].wrapping_add(cc);
        h[3] = h[3].wrapping_add(dd);
        h[4] = h[4].wrapping_add(e);
    }
    let mut o = [0u8; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
/// RFC 6455 accept value for the text of a key header
pub fn accept_for(key_text: &str) -> String {
    b64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key_text).as_bytes()))
}
pub const KEY: &str = "dGhlIHNhbXBsZSBub25jZQ==";
pub const KEY_BYTES: [u8; 16] = *b"the sample nonce";

pub fn selftest() {
    assert_eq!(accept_for(KEY), "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=");
    assert_eq!(b64(&KEY_BYTES), KEY);
    assert_eq!(unb64(KEY), Ok(KEY_BYTES.to_vec()));
}

/// A minimal valid client handshake
pub fn request(path: &str) -> Vec<u8> {
    format!(
        "GET {} HTTP/1.1\r\nHost: example.com\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {}\r\nSec-WebSocket-Version: 13\r\n\r\n",
        path, KEY
    )
    .into_bytes()
}
pub fn response(accept: &str) -> Vec<u8> {
    format!(
        "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n",
        accept
    )
    .into_bytes()
}
