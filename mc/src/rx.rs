//! Receive side: C01, C04, C05, C06, C07, C08.
use crate::drv::*;
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::{ensure, fail};
use futures::executor;
use futures::Stream;
use std::io::ErrorKind;
use websocket::codec::ws::DataFrameCodec;
use websocket::dataframe::DataFrame;
use websocket::message::Message;
use websocket::receiver::Receiver;
use websocket::ws::Message as MessageTrait;
use websocket::ws::Receiver as ReceiverTrait;
use websocket::OwnedMessage;

/// frame alphabet shared by C01, C04 and C06
pub fn alphabet(server: bool) -> Vec<Fr> {
    let v = vec![
        fr(true, 1, b"a"),
        fr(false, 1, b"\xc3"),
        fr(true, 0, b"\xa9"),
        fr(false, 0, b""),
        fr(true, 9, b""),
        fr(true, 8, &[3, 0xe8]),
        fr(false, 2, b""),
        fr(true, 2, &[0, 0xff]),
        fr(true, 10, b"p"),
        fr(false, 0, b"b"),
        fr(true, 0, b""),
        fr(true, 1, b""),
        // illegal ones
        fr(true, 1, b"").rsv(4),
        fr(true, 3, b""),
        fr(false, 9, b""),
        fr(true, 2, b"").form(1),
    ];
    let n = v.len();
    let mut v: Vec<Fr> = v.into_iter().enumerate().map(|(i, f)| f.to(server, i)).collect();
    let mut wrong = fr(true, 2, b"w");
    wrong.mask = if server { None } else { Some(KEYS[0]) };
    v.push(wrong);
    debug_assert!(v.len() == n + 1);
    v
}
fn pick(alpha: &[Fr], ix: &[usize]) -> Vec<Fr> {
    ix.iter().map(|i| alpha[*i].clone()).collect()
}
fn lens(frames: &[Fr]) -> Vec<usize> {
    frames.iter().map(|f| f.bytes().len()).collect()
}
/// interesting cut positions of a stream of frames
fn hot_cuts(frames: &[Fr]) -> Vec<usize> {
    let mut v = std::collections::BTreeSet::new();
    let mut pos = 0;
    let total: usize = lens(frames).iter().sum();
    for l in lens(frames) {
        for d in 0..16 {
            v.insert(pos + d);
        }
        for d in 0..3 {
            v.insert(pos + l / 2 + d);
            v.insert((pos + l).saturating_sub(d));
        }
        pos += l;
    }
    for x in &[4095usize, 4096, 4097, 8191, 8192, 8193, 16384] {
        v.insert(*x);
    }
    v.into_iter().filter(|x| *x > 0 && *x < total).collect()
}
fn tuples_of(pos: &[usize], k: usize) -> Vec<Vec<usize>> {
    cut_tuples(pos.len() + 1, k).into_iter().map(|t| t.into_iter().map(|i| pos[i - 1]).collect()).collect()
}

/// expected observations per prefix (given by a one-shot decode, which is itself checked by the model)
fn prefix_table(bytes: &[u8], server: bool, lim: (usize, usize), at: &[usize], c: &mut Case) -> Result<Vec<Vec<Obs>>, String> {
    let mut t = vec![];
    for &p in at {
        let mut d = AsyncDec::new(server, lim);
        d.feed(&bytes[..p], c);
        let o = d.open_obs();
        check_obs(&bytes[..p], RxModel::limits(server, lim.0 as u64, lim.1 as u64), Ending::Open, &o)
            .map_err(|e| format!("async decode of the unsplit prefix of {} bytes: {}", p, e))?;
        c.state(&(server, lim, &bytes[..p.min(300)], p));
        c.trace(&o);
        t.push(o);
    }
    Ok(t)
}

pub fn c01(x: &Ctx) {
    let roles = [false, true];
    let (depth, full) = x.tier((3, 12), (3, 16));
    let na = alphabet(false).len();
    x.bound(&format!("frame sequences to depth {} over {} frames; all partitions up to {} bytes, else all <=2 cut positions", depth, na, full));
    let nseq = seq_count(na, depth);
    x.section("short-streams/async+sync", nseq * 2, |c, i| {
        let mut ix = Ix(i);
        let server = *ix.pick(&roles);
        let s = seq_of(na, ix.0);
        let frames = pick(&alphabet(server), &s);
        let bytes = wire(&frames);
        c.note = format!("role server={} frames {} bytes {}", server, show(&frames), hex(&bytes));
        let n = bytes.len();
        let at: Vec<usize> = (0..=n).collect();
        let table = prefix_table(&bytes, server, DEF, &at, c)?;
        let parts: Vec<Vec<usize>> = if n <= full {
            (0..1u64 << n.saturating_sub(1)).map(|m| cuts_of_mask(m, n)).collect()
        } else {
            let mut p = cut_tuples(n, if n < 30 { 2 } else { 1 });
            p.push((1..n).collect());
            p
        };
        let mut fdref = FrameDec::new(server);
        fdref.feed(&bytes, c);
        let mut sync_ref: Option<Vec<Obs>> = None;
        for cuts in &parts {
            // codec driven directly
            let mut d = AsyncDec::new(server, DEF);
            let mut fd = FrameDec::new(server);
            let mut p = 0;
            for ch in split_at(&bytes, cuts) {
                d.feed(&ch, c);
                fd.feed(&ch, c);
                p += ch.len();
                same(&format!("async decode, cuts {:?}, after {} bytes", cuts, p), &d.open_obs(), &table[p])?;
                if d.dead {
                    break;
                }
            }
            if fd.out.len() > 0 || fdref.out.len() > 0 || fdref.err.is_some() {
                ensure!(
                    fd.out == fdref.out && fd.err.is_some() == fdref.err.is_some() || (d.dead && p < n && fd.out[..] == fdref.out[..fd.out.len()]),
                    "frame codec, cuts {:?}: {:?} err {:?} but unsplit {:?} err {:?}",
                    cuts,
                    fd.out,
                    fd.err,
                    fdref.out,
                    fdref.err
                );
            }
            c.trace(&d.obs);
            // blocking receiver with short reads
            let o = bare_obs(Mock::chunks(&bytes, cuts, Tail::Eof), server, DEF, c);
            match &sync_ref {
                None => {
                    check_obs(&bytes, RxModel::new(server), Ending::SyncEof, &o).map_err(|e| format!("blocking receiver, cuts {:?}: {}", cuts, e))?;
                    sync_ref = Some(o);
                }
                Some(r) => same(&format!("blocking receiver, cuts {:?}", cuts), &o, r)?,
            }
            c.traces += 1;
        }
        Ok(())
    });
    // framed streams: not ready between any two chunks, everything complete must have been delivered
    let depth = x.tier(2, 3);
    x.section("short-streams/framed", seq_count(na, depth) * 2, |c, i| {
        let mut ix = Ix(i);
        let server = *ix.pick(&roles);
        let s = seq_of(na, ix.0);
        let frames = pick(&alphabet(server), &s);
        let bytes = wire(&frames);
        c.note = format!("role server={} frames {} bytes {}", server, show(&frames), hex(&bytes));
        let n = bytes.len();
        let at: Vec<usize> = (0..=n).collect();
        let table = prefix_table(&bytes, server, DEF, &at, c)?;
        let parts: Vec<Vec<usize>> = if n <= 10 {
            (0..1u64 << n.saturating_sub(1)).map(|m| cuts_of_mask(m, n)).collect()
        } else {
            cut_tuples(n, if n < 30 { 2 } else { 1 })
        };
        for cuts in &parts {
            let io = Mock::new(vec![], Tail::WouldBlock);
            let mut f = executor::spawn(framed(io.clone(), server, DEF));
            let mut all: Vec<Obs> = vec![];
            let mut p = 0;
            for ch in split_at(&bytes, cuts) {
                io.push(&ch);
                p += ch.len();
                let mut o = poll_stream(&mut f, 1, c);
                all.append(&mut o);
                same(&format!("framed, cuts {:?}, after {} bytes", cuts, p), &all, &table[p])?;
                if all.last() == Some(&Obs::Pending) {
                    ensure!(io.rest().is_empty(), "framed stream said not ready with unread bytes available");
                    all.pop();
                } else {
                    break;
                }
            }
            c.trace(&all);
        }
        Ok(())
    });
    let wl = wide_list(x.thorough);
    let wl = &wl;
    x.bound("wide streams: up to 4097 fragments, payload sizes around every power of two to 1 MiB, histories to 5000 messages, frames at every alignment to the read buffer; each in chunks of 10 sizes");
    x.section("wide-streams/chunk-sizes", wl.len() as u64 * 2, |c, i| {
        let server = i % 2 == 1;
        let w = &wl[(i / 2) as usize];
        let frames = wide_frames(w, server);
        let bytes = wire(&frames);
        let n = bytes.len();
        let t = complete_at(&frames);
        c.state(&(server, &bytes[..n.min(5000)], n));
        for k in &[1usize, 2, 3, 11, 127, 1000, 1024, 4095, 4096, 4097, 8192, 16384, 50_000, 65536, usize::MAX] {
            if (n / *k > 2_500 || n / *k > 100 && matches!(w, Wide::History(h, _) if *h > 2500)) && !x.thorough || n / *k > 2_000_000 {
                continue;
            }
            c.note = format!("server={} {:?} in chunks of {}", server, w, k);
            let cuts: Vec<usize> = if *k >= n { vec![] } else { (1..=(n - 1) / *k).map(|j| j * *k).collect() };
            let mut d = AsyncDec::new(server, DEF);
            let io = Mock::new(vec![], Tail::WouldBlock);
            let mut f = executor::spawn(framed(io.clone(), server, DEF));
            let mut all: Vec<Obs> = vec![];
            let mut p = 0;
            for ch in split_at(&bytes, &cuts) {
                d.feed(&ch, c);
                p += ch.len();
                let want = complete_in(&t, p);
                ensure!(d.obs.len() == want && !d.dead, "async decode delivered {} messages after {} bytes that complete {}", d.obs.len(), p, want);
                io.push(&ch);
                let mut o = poll_stream(&mut f, 1, c);
                ensure!(o.pop() == Some(Obs::Pending), "framed stream not pending after {} bytes: {}", p, show_obs(&o));
                all.append(&mut o);
                ensure!(all.len() == want, "framed stream delivered {} messages after {} bytes that complete {}", all.len(), p, want);
                ensure!(io.rest().is_empty(), "framed stream said not ready with unread bytes available");
            }
            check_obs(&bytes, RxModel::new(server), Ending::Open, &d.open_obs()).map_err(|e| format!("async decode: {}", e))?;
            all.push(Obs::Pending);
            same("framed", &all, &d.open_obs())?;
            let o = reader_obs(Mock::with(&bytes, Tail::Eof).max_read(*k), server, DEF, c);
            check_obs(&bytes, RxModel::new(server), Ending::SyncEof, &o).map_err(|e| format!("Reader: {}", e))?;
            let o = bare_obs(Mock::with(&bytes, Tail::Eof).max_read(*k), server, DEF, c);
            check_obs(&bytes, RxModel::new(server), Ending::SyncEof, &o).map_err(|e| format!("Receiver: {}", e))?;
            c.traces += 4;
        }
        Ok(())
    });
    // long frames
    let longs: Vec<(Vec<usize>, usize)> = vec![
        (vec![125], 2),
        (vec![126], 2),
        (vec![127, 1], 2),
        (vec![300, 126], 2),
        (vec![4090], 2),
        (vec![4096, 3], 2),
        (vec![8186, 20], 1),
        (vec![8192], 1),
        (vec![65535], 1),
        (vec![65536], 1),
        (vec![65536, 1], 1),
        (vec![70000, 126], 1),
    ];
    let longs2 = longs.clone();
    let variants = 4usize;
    let kcuts = x.tier(2, 3);
    x.section("long-frames/all-drivers", (longs.len() * variants * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = *ix.pick(&roles);
        let variant = ix.take(variants);
        let (ls, k) = ix.pick(&longs2);
        let mut frames = vec![];
        for (j, l) in ls.iter().enumerate() {
            match variant {
                0 => frames.push(fr(true, 2, &patb(*l, j))),
                1 => {
                    frames.push(fr(false, 1, &pat(*l, j)));
                    frames.push(fr(true, 9, b"ping"));
                    frames.push(fr(true, 0, b"end"));
                }
                2 => {
                    frames.push(fr(true, 9, &pat(125, 1)));
                    frames.push(fr(true, 1, &pat(*l, j)));
                }
                _ => {
                    frames.push(fr(true, 2, &patb(*l, j)));
                    frames.push(fr(true, 2, b"x").rsv(1));
                }
            }
        }
        let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(j, f)| f.to(server, j)).collect();
        let bytes = wire(&frames);
        let n = bytes.len();
        c.note = format!("role server={} frames {}", server, show(&frames));
        let hot = hot_cuts(&frames);
        let big = n > 9000;
        let tuples = tuples_of(&hot, if big { *k } else { kcuts.min(k + 1) });
        let step = if tuples.len() > 60_000 { tuples.len() / 60_000 + 1 } else { 1 };
        if step > 1 {
            c.note.push_str(" (cut triples thinned)");
        }
        let mut at: Vec<usize> = hot.clone();
        at.push(n);
        let tv = prefix_table(&bytes, server, DEF, &at, c)?;
        let table: std::collections::HashMap<usize, &Vec<Obs>> = at.iter().cloned().zip(tv.iter()).collect();
        for (ti, cuts) in tuples.iter().enumerate() {
            if ti % step != 0 {
                continue;
            }
            let mut d = AsyncDec::new(server, DEF);
            let io = Mock::new(vec![], Tail::WouldBlock);
            let mut f = executor::spawn(framed(io.clone(), server, DEF));
            let mut all: Vec<Obs> = vec![];
            let mut p = 0;
            for ch in split_at(&bytes, cuts) {
                d.feed(&ch, c);
                p += ch.len();
                same(&format!("async decode, cuts {:?}, after {}", cuts, p), &d.open_obs(), table[&p])?;
                if all.last().map_or(true, |o| matches!(o, Obs::Msg(_))) {
                    io.push(&ch);
                    let mut o = poll_stream(&mut f, 1, c);
                    all.append(&mut o);
                    same(&format!("framed, cuts {:?}, after {}", cuts, p), &all, table[&p])?;
                    if all.last() == Some(&Obs::Pending) {
                        all.pop();
                    }
                }
            }
            let o = reader_obs(Mock::chunks(&bytes, cuts, Tail::Eof), server, DEF, c);
            check_obs(&bytes, RxModel::new(server), Ending::SyncEof, &o).map_err(|e| format!("Reader, cuts {:?}: {}", cuts, e))?;
            c.trace(&o);
            if cuts.len() <= 1 {
                let io = Mock::chunks(&bytes, cuts, Tail::Eof);
                let mut cl = sync_client(&io, server, None)?;
                let o = sync_obs(|| cl.recv_message(), c, 100_000);
                check_obs(&bytes, RxModel::new(server), Ending::SyncEof, &o).map_err(|e| format!("Client, cuts {:?}: {}", cuts, e))?;
            }
        }
        // fixed small read sizes
        for k in &[1usize, 2, 3, 4, 5, 7, 8, 13, 64, 1000, 4095, 4096, 4097, 8191] {
            if *k < 7 && n > 20_000 && !x.thorough {
                continue;
            }
            let o = reader_obs(Mock::with(&bytes, Tail::Eof).max_read(*k), server, DEF, c);
            check_obs(&bytes, RxModel::new(server), Ending::SyncEof, &o).map_err(|e| format!("Reader, reads of {}: {}", k, e))?;
            let o = bare_obs(Mock::with(&bytes, Tail::Eof).max_read(*k), server, DEF, c);
            check_obs(&bytes, RxModel::new(server), Ending::SyncEof, &o).map_err(|e| format!("Receiver, reads of {}: {}", k, e))?;
            let mut f = executor::spawn(framed(Mock::with(&bytes, Tail::Eof).max_read(*k), server, DEF));
            let o = poll_stream(&mut f, 1, c);
            check_obs(&bytes, RxModel::new(server), Ending::AsyncEof, &o).map_err(|e| format!("Framed, reads of {}: {}", k, e))?;
            c.trace(&o);
        }
        Ok(())
    });
}

/// Streams that ordinary short sequences do not reach: many fragments, sizes around every power of two,
/// long histories, frames at every alignment to the read buffer.
#[derive(Clone, Debug)]
pub enum Wide {
    /// number of fragments, bytes per fragment, text, a control frame every so many fragments
    Frags(usize, usize, bool, usize),
    /// payload size
    Size(usize, bool),
    /// number of messages, step of the size pattern
    History(usize, usize),
    /// offset at which the second frame starts, its size
    Align(usize, usize),
    /// so many of one kind, then so many of another, then the first again
    Runs(usize, usize, usize, usize),
}
/// kinds of frame (or fragmented message) for runs
const RUN_KINDS: usize = 10;
fn run_frames(kind: usize, k: usize) -> Vec<Fr> {
    match kind {
        0 => vec![fr(true, 9, b"")],
        1 => vec![fr(true, 9, &patb(125 - k % 3, k))],
        2 => vec![fr(true, 10, &patb(k % 2, k))],
        3 => vec![fr(true, 1, b"")],
        4 => vec![fr(true, 1, &pat(20 + k % 3, k))],
        5 => vec![fr(true, 2, &patb(130, k))],
        6 => vec![fr(false, 1, &pat(3, k)), fr(true, 9, b"in"), fr(true, 0, &pat(2, k))],
        7 => vec![fr(true, 2, &patb(9000, k))],
        8 => vec![fr(true, 1, &pat(70_000, k))],
        _ => vec![fr(false, 2, &patb(40_000, k)), fr(true, 10, b"mid"), fr(true, 0, &patb(40_000, k + 1))],
    }
}
pub fn sizes_around_powers(top: usize) -> Vec<usize> {
    let mut v = vec![0usize];
    let mut k = 1;
    while k <= top {
        v.extend_from_slice(&[k - 1, k, k + 1, k + k / 2]);
        k *= 2;
    }
    v.extend(vec![10, 100, 1000, 10_000, 100_000, 1_000_000].into_iter().filter(|n| *n <= top));
    v.sort();
    v.dedup();
    v
}
pub fn wide_list(thorough: bool) -> Vec<Wide> {
    let mut v = vec![];
    let mut counts: Vec<usize> = (1..=130).collect();
    for b in &[150usize, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2000, 2048, 3000, 4095, 4096, 4097] {
        counts.push(*b);
    }
    if thorough {
        counts.extend(131..700);
        counts.extend(vec![8192, 10_000, 20_000, 32_769]);
    }
    counts.sort();
    counts.dedup();
    for n in &counts {
        for size in &[0usize, 1, 3, 126] {
            if *n > 1100 && *size > 3 {
                continue;
            }
            for text in &[false, true] {
                for ctl in &[0usize, 1, 7, 100] {
                    if *ctl == 100 && *n < 100 || *n > 600 && *ctl == 1 || *n > 200 && *size == 3 && !thorough {
                        continue;
                    }
                    v.push(Wide::Frags(*n, *size, *text, *ctl));
                }
            }
        }
    }
    for (n, size) in &[(3usize, 70_000usize), (40, 5000), (70, 1000), (9, 65536), (200, 1024), (17, 20_000)] {
        v.push(Wide::Frags(*n, *size, true, 3));
        v.push(Wide::Frags(*n, *size, false, 0));
    }
    for n in sizes_around_powers(if thorough { 16 << 20 } else { 1 << 20 }) {
        v.push(Wide::Size(n, false));
        v.push(Wide::Size(n, true));
    }
    for n in &[10usize, 33, 65, 129, 257, 300, 600, 1030, 2100, 5000] {
        for step in &[0usize, 1, 17, 61] {
            v.push(Wide::History(*n, *step));
        }
    }
    for base in &[4096usize, 8192, 12288, 16384, 65536] {
        for d in 0..20 {
            for l in &[0usize, 5, 126, 5000, 66_000] {
                v.push(Wide::Align(base - 16 + d, *l));
            }
        }
    }
    for k1 in 0..RUN_KINDS {
        for k2 in 0..RUN_KINDS {
            for n in &[(1usize, 1usize), (2, 1), (5, 2), (40, 1), (3, 40), (100, 100)] {
                let big = |k: usize, n: usize| k >= 7 && n > 5;
                if k1 != k2 && !big(k1, n.0) && !big(k2, n.1) {
                    v.push(Wide::Runs(k1, n.0, k2, n.1));
                }
            }
        }
    }
    v
}
pub fn wide_frames(w: &Wide, server: bool) -> Vec<Fr> {
    let mut v = vec![];
    match *w {
        Wide::Frags(n, size, text, ctl) => {
            // a character that spans fragments of one byte now and then
            let mut data = if text { pat(n * size, n) } else { patb(n * size, n) };
            if text {
                let e = "\u{10348}".as_bytes();
                let mut p = 5;
                while p + 4 <= data.len() {
                    data[p..p + 4].copy_from_slice(e);
                    p += 11;
                }
            }
            for k in 0..n {
                if ctl > 0 && k % ctl == ctl / 2 {
                    v.push(fr(true, 9 + (k % 2) as u8, &patb(k % 126, k)));
                }
                v.push(fr(k + 1 == n, if k > 0 { 0 } else { 2 - text as u8 }, &data[k * size..(k + 1) * size]));
            }
            v.push(fr(true, 1, b"next"));
        }
        Wide::Size(n, text) => {
            v.push(fr(true, 2 - text as u8, &if text { pat(n, 1) } else { patb(n, 1) }));
            v.push(fr(true, 9, b"then"));
            let h = n / 2;
            let d = patb(n, 2);
            v.push(fr(false, 2, &d[..h]));
            v.push(fr(true, 0, &d[h..]));
        }
        Wide::History(n, step) => {
            for k in 0..n {
                let l = k * step % 1009;
                match k % 7 {
                    0 | 3 => v.push(fr(true, 1, &pat(l, k))),
                    1 | 5 => v.push(fr(true, 2, &patb(l, k))),
                    2 => v.push(fr(true, 9, &patb(l % 126, k))),
                    4 => v.push(fr(true, 10, &patb(l % 126, k))),
                    _ => {
                        v.push(fr(false, 1, &pat(l, k)));
                        v.push(fr(false, 0, b""));
                        v.push(fr(true, 0, &pat(l, k + 1)));
                    }
                }
            }
            v.push(fr(true, 8, b"\x03\xe8end"));
        }
        Wide::Align(off, l) => {
            // the first frame fills exactly `off` bytes
            let over = if server { 4 } else { 0 };
            let h = if off - over - 4 < 65536 { 4 } else { 10 };
            v.push(fr(true, 2, &patb(off - over - h, 3)));
            v.push(fr(true, 1, &pat(l, 5)));
            v.push(fr(true, 9, b"x"));
            v.push(fr(true, 2, &patb(300, 9)));
        }
        Wide::Runs(k1, n1, k2, n2) => {
            for (j, (kind, n)) in [(k1, n1), (k2, n2), (k1, n1)].iter().enumerate() {
                for k in 0..*n {
                    v.extend(run_frames(*kind, k + j));
                }
            }
        }
    }
    v.into_iter().enumerate().map(|(j, f)| f.to(server, j)).collect()
}
/// messages complete at the end of each frame of a legal stream
pub fn complete_at(frames: &[Fr]) -> Vec<(usize, usize)> {
    let mut k = 0;
    frames
        .iter()
        .zip(ends(frames))
        .map(|(f, e)| {
            if f.fin {
                k += 1;
            }
            (e, k)
        })
        .collect()
}
/// number of messages complete in the first p bytes
pub fn complete_in(t: &[(usize, usize)], p: usize) -> usize {
    match t.binary_search_by(|x| x.0.cmp(&p)) {
        Ok(i) => t[i].1,
        Err(0) => 0,
        Err(i) => t[i - 1].1,
    }
}

/// every message-level driver on the same bytes
fn all_drivers(bytes: &[u8], frame_ends: &[usize], server: bool, c: &mut Case, heavy: bool) -> Res {
    let m = RxModel::new(server);
    c.state(&(server, bytes));
    let o = bare_obs(Mock::with(bytes, Tail::Eof), server, DEF, c);
    check_obs(bytes, m.clone(), Ending::SyncEof, &o).map_err(|e| format!("blocking receiver: {}", e))?;
    c.trace(&o);
    let mut d = AsyncDec::new(server, DEF);
    let mut p = 0;
    for e in frame_ends {
        d.feed(&bytes[p..*e], c);
        p = *e;
    }
    let o = d.open_obs();
    check_obs(bytes, m.clone(), Ending::Open, &o).map_err(|e| format!("async decode: {}", e))?;
    c.trace(&o);
    if heavy {
        let io = Mock::with(bytes, Tail::Eof);
        let mut cl = sync_client(&io, server, None)?;
        let mut o = vec![];
        {
            let mut it = cl.incoming_messages();
            while o.len() < 100_000 {
                c.step();
                match it.next() {
                    None => {
                        fail!("incoming_messages ended");
                    }
                    Some(r) => {
                        let x = res_obs(r);
                        let stop = !matches!(x, Obs::Msg(_));
                        o.push(x);
                        if stop {
                            break;
                        }
                    }
                }
            }
        }
        check_obs(bytes, m.clone(), Ending::SyncEof, &o).map_err(|e| format!("Client::incoming_messages: {}", e))?;
        let io = Mock::with(bytes, Tail::Eof);
        let f = async_client(&io, server, None)?;
        let o = poll_stream(&mut executor::spawn(f), 1, c);
        check_obs(bytes, m, Ending::AsyncEof, &o).map_err(|e| format!("async client: {}", e))?;
        c.traces += 2;
    }
    Ok(())
}
fn ends(frames: &[Fr]) -> Vec<usize> {
    let mut p = 0;
    lens(frames)
        .iter()
        .map(|l| {
            p += l;
            p
        })
        .collect()
}
fn same_frame(d: &DataFrame, f: &Fr) -> bool {
    let r = (d.reserved[0] as u8) << 2 | (d.reserved[1] as u8) << 1 | d.reserved[2] as u8;
    d.finished == f.fin && d.opcode as u8 == f.op && r == f.rsv && d.data == f.payload
}

pub fn c04(x: &Ctx) {
    let na = alphabet(false).len();
    let depth = x.tier(4, 5);
    x.bound(&format!("all frame sequences to depth {} over {} frames, both roles", depth, na));
    let n = seq_count(na, depth);
    x.section("sequences/receivers", n * 2, |c, i| {
        let server = i % 2 == 1;
        let s = seq_of(na, i / 2);
        let frames = pick(&alphabet(server), &s);
        c.note = format!("role server={} frames {}", server, show(&frames));
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, false)
    });
    x.section("sequences/clients", seq_count(na, depth - 1) * 2, |c, i| {
        let server = i % 2 == 1;
        let s = seq_of(na, i / 2);
        let frames = pick(&alphabet(server), &s);
        c.note = format!("role server={} frames {}", server, show(&frames));
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, true)
    });
    // deeper histories over the frames that keep a connection alive
    let live = [1usize, 2, 3, 4, 6, 9, 10, 11];
    let depth2 = x.tier(6, 7);
    x.bound(&format!("live frames (start/continue/finish/control) to depth {}", depth2));
    x.section("sequences/live-deep", seq_count(live.len(), depth2), |c, i| {
        let s = seq_of(live.len(), i);
        let server = hash_of(&s) % 2 == 0;
        let a = alphabet(server);
        let frames: Vec<Fr> = s.iter().map(|k| a[live[*k]].clone()).collect();
        c.note = format!("role server={} frames {}", server, show(&frames));
        // skip sequences the model ends early: they are covered by their prefixes
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, false)
    });
    // frame level reads
    let fa = |server: bool| -> Vec<Fr> {
        let mut v = vec![];
        for fin in &[true, false] {
            for op in 0..16u8 {
                if op >= 8 && !*fin {
                    continue;
                }
                for rsv in &[0u8, 1, 2, 4, 7] {
                    v.push(fr(*fin, op, &patb((op as usize * 3) % 7, op as usize)).rsv(*rsv).to(server, op as usize));
                }
            }
        }
        v
    };
    let nf = fa(false).len();
    x.section("frame-level", seq_count(nf, 2) * 2, |c, i| {
        let server = i % 2 == 1;
        let frames = pick(&fa(server), &seq_of(nf, i / 2));
        c.note = format!("role server={} frames {}", server, show(&frames));
        let bytes = wire(&frames);
        let cmp = |got: &[DataFrame], how: &str| -> Res {
            ensure!(
                got.len() == frames.len() && got.iter().zip(&frames).all(|(d, f)| same_frame(d, f)),
                "{} delivered {:?} for {}",
                how,
                got,
                show(&frames)
            );
            Ok(())
        };
        let mut fd = FrameDec::new(server);
        fd.feed(&bytes, c);
        ensure!(fd.err.is_none(), "frame codec refused legal frames: {:?}", fd.err);
        cmp(&fd.out, "frame codec")?;
        let mut rd = reader(Mock::with(&bytes, Tail::Eof), server, DEF);
        let mut got = vec![];
        for _ in 0..frames.len() {
            c.step();
            match rd.recv_dataframe() {
                Ok(d) => got.push(d),
                Err(e) => fail!("recv_dataframe: {:?}", e),
            }
        }
        cmp(&got, "recv_dataframe")?;
        let io = Mock::with(&bytes, Tail::Eof);
        let mut cl = sync_client(&io, server, None)?;
        let mut got = vec![];
        for r in cl.incoming_dataframes().take(frames.len()) {
            c.step();
            match r {
                Ok(d) => got.push(d),
                Err(e) => fail!("incoming_dataframes: {:?}", e),
            }
        }
        cmp(&got, "incoming_dataframes")?;
        let mut rd2 = reader(Mock::with(&bytes, Tail::Eof), server, DEF);
        let got: Vec<DataFrame> = rd2.incoming_dataframes().take(frames.len()).filter_map(|r| r.ok()).collect();
        cmp(&got, "Reader::incoming_dataframes")?;
        c.state(&bytes);
        c.trace(&got.len());
        Ok(())
    });
    let wl = wide_list(x.thorough);
    let wl = &wl;
    x.bound("wide streams: up to 4097 fragments, payload sizes around every power of two to 1 MiB, histories to 5000 messages, frames at every alignment to the read buffer");
    x.section("wide-streams", wl.len() as u64 * 2, |c, i| {
        let server = i % 2 == 1;
        let w = &wl[(i / 2) as usize];
        let frames = wide_frames(w, server);
        c.note = format!("server={} {:?}", server, w);
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, true)?;
        let mut fd = FrameDec::new(server);
        fd.feed(&bytes, c);
        ensure!(fd.err.is_none() && fd.out.len() == frames.len(), "frame codec delivered {} of {} frames, error {:?}", fd.out.len(), frames.len(), fd.err);
        ensure!(fd.out.iter().zip(&frames).all(|(d, f)| same_frame(d, f)), "frame codec changed a frame");
        let mut rd = reader(Mock::with(&bytes, Tail::Eof), server, DEF);
        let got: Vec<DataFrame> = rd.incoming_dataframes().take(frames.len()).filter_map(|r| r.ok()).collect();
        ensure!(got.len() == frames.len() && got.iter().zip(&frames).all(|(d, f)| same_frame(d, f)), "incoming_dataframes lost or changed a frame");
        Ok(())
    });
    // a misplaced frame after any number of fragments
    x.section("wide-streams/misplaced", 300 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let text = ix.take(2) == 1;
        let n = ix.0 as usize;
        let base: Vec<Fr> = (0..n).map(|k| fr(false, if k > 0 { 0 } else { 2 - text as u8 }, &pat(k % 3, k))).collect();
        for how in 0..4 {
            let mut frames = base.clone();
            match how {
                0 => frames.push(fr(true, 1, b"new")),
                1 => frames.push(fr(false, 2, b"new")),
                2 => {
                    if n > 0 {
                        frames.push(fr(true, 0, b""));
                    }
                    frames.push(fr(true, 0, b"stray"));
                }
                _ => {
                    if n > 0 {
                        frames.push(fr(true, 0, b""));
                    }
                    frames.push(fr(true, 1, b"fine"));
                    frames.push(fr(false, 0, b"stray"));
                }
            }
            frames.push(fr(true, 0, b"tail"));
            let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
            c.note = format!("server={} {} fragments then misplacement {}", server, n, how);
            let bytes = wire(&frames);
            all_drivers(&bytes, &ends(&frames), server, c, n % 16 == 3)?;
        }
        Ok(())
    });
    // many fragments with a control frame at every place
    x.section("long-fragmentation", 40 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let text = ix.take(2) == 1;
        let n = ix.0 as usize + 1;
        let data = if text { pat(n * 3, n) } else { patb(n * 3, n) };
        for place in 0..=n {
            let mut frames = vec![];
            for k in 0..n {
                if k == place {
                    frames.push(fr(true, 9 + (k % 2) as u8, &patb(k, k)));
                }
                let op = if k > 0 {
                    0
                } else if text {
                    1
                } else {
                    2
                };
                frames.push(fr(k == n - 1, op, &data[k * 3..k * 3 + 3]));
            }
            frames.push(fr(true, 8, b"\x03\xe8bye"));
            let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
            c.note = format!("server={} {} fragments, control before fragment {}", server, n, place);
            let bytes = wire(&frames);
            all_drivers(&bytes, &ends(&frames), server, c, true)?;
        }
        Ok(())
    });
}

pub fn c05(x: &Ctx) {
    let e16: [u64; 8] = [0, 1, 124, 125, 126, 127, 300, 65535];
    let e64: [u64; 10] = [0, 125, 126, 127, 65535, 65536, 1 << 32, (1 << 62) + 5, (1 << 63) - 1, u64::MAX];
    // (b1, ext)
    let mut b1s: Vec<(u8, u64)> = vec![];
    for b1 in 0..=255u8 {
        match b1 & 0x7f {
            126 => b1s.extend(e16.iter().map(|e| (b1, *e))),
            127 => b1s.extend(e64.iter().map(|e| (b1, *e))),
            _ => b1s.push((b1, 0)),
        }
    }
    let b1s = &b1s;
    let build = move |b0: u8, b1: u8, ext: u64| -> Vec<u8> {
        let mut b = vec![b0, b1];
        let len = match b1 & 0x7f {
            126 => {
                b.extend_from_slice(&(ext as u16).to_be_bytes());
                ext
            }
            127 => {
                b.extend_from_slice(&ext.to_be_bytes());
                ext
            }
            l => l as u64,
        };
        let k = KEYS[0];
        if b1 & 0x80 != 0 {
            b.extend_from_slice(&k);
        }
        if len <= 70_000 {
            let p = pat(len as usize, 3);
            if b1 & 0x80 != 0 {
                b.extend(p.iter().enumerate().map(|(i, x)| x ^ k[i & 3]));
            } else {
                b.extend(p);
            }
        }
        b
    };
    x.bound("all 2^16 first header byte pairs x boundary extended lengths x role x {fresh, mid-fragment, after a message}");
    x.section("headers", 256 * b1s.len() as u64 * 2, move |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let b0 = ix.take(256) as u8;
        let (b1, ext) = b1s[ix.0 as usize];
        let f = build(b0, b1, ext);
        for state in 0..3 {
            let mut bytes = match state {
                0 => vec![],
                1 => fr(false, 2, b"st").to(server, 1).bytes(),
                _ => fr(true, 1, b"m").to(server, 1).bytes(),
            };
            let l0 = bytes.len();
            bytes.extend_from_slice(&f);
            if state != 0 && f.len() < 200 {
                bytes.extend(fr(true, 9, b"after").to(server, 2).bytes());
            }
            c.note = format!("server={} state {} header {:02x} {:02x} ext {}", server, state, b0, b1, ext);
            let m = RxModel::new(server);
            let o = bare_obs(Mock::with(&bytes, Tail::Eof), server, DEF, c);
            check_obs(&bytes, m.clone(), Ending::SyncEof, &o).map_err(|e| format!("blocking receiver: {}", e))?;
            let mut d = AsyncDec::new(server, DEF);
            d.feed(&bytes[..l0], c);
            d.feed(&bytes[l0..], c);
            check_obs(&bytes, m, Ending::Open, &d.open_obs()).map_err(|e| format!("async decode: {}", e))?;
            c.state(&(server, state, b0, b1, ext));
            c.trace(&(o.len(), d.obs.len(), d.dead));
        }
        // frame level entry points
        let (h, _) = parse_header(&f);
        let h = match h {
            Some(h) => h,
            None => fail!("{}: harness built an incomplete header", HARNESS),
        };
        let complete = h.len <= 70_000;
        let good = h.illegal.is_none() && h.mask.is_some() == server && complete;
        let mut fd = FrameDec::new(server);
        fd.feed(&f, c);
        ensure!(
            if good { fd.out.len() == 1 && fd.err.is_none() } else { fd.out.is_empty() && (fd.err.is_some() || !complete) },
            "frame codec: delivered {} error {:?}, legal={}",
            fd.out.len(),
            fd.err,
            good
        );
        let probe_risky = h.len > (1 << 34) && h.len <= (1u64 << 63) - 1;
        if !probe_risky {
            let r = DataFrame::read_dataframe(&mut &f[..], server);
            ensure!(r.is_ok() == good, "read_dataframe: {:?}, legal={}", r.map(|d| d.data.len()), good);
        }
        let r = DataFrame::read_dataframe_with_limit(&mut &f[..], server, 100 << 20);
        ensure!(r.is_ok() == good, "read_dataframe_with_limit: {:?}, legal={}", r.map(|d| d.data.len()), good);
        // header reader alone
        let mut rd = &f[..];
        let r = websocket::ws::util::header::read_header(&mut rd);
        match (&r, h.illegal) {
            (Ok(g), None) => {
                ensure!(
                    g.len == h.len && g.opcode == h.op && g.mask == h.mask && g.flags.bits() == b0 & 0xf0,
                    "read_header gave {:?} for {:?}",
                    g,
                    h
                );
                ensure!(f.len() - rd.len() == h.hlen, "read_header consumed {} of {}", f.len() - rd.len(), h.hlen);
            }
            (Ok(g), Some("length over 2^63")) => ensure!(g.len == h.len, "read_header length {}", g.len),
            (Err(_), Some(_)) => {}
            _ => fail!("read_header gave {:?} for {:?}", r, h),
        }
        Ok(())
    });
    // aborting is not catchable in process: probe in a child
    let lens: Vec<u64> = vec![1 << 34, 1 << 40, 1 << 47, (1 << 63) - 1, 1 << 63, u64::MAX];
    x.section_t("huge-declared-length/child-process", lens.len() as u64 * 2, 2, |c, i| {
        let server = i % 2 == 1;
        let len = lens[(i / 2) as usize];
        let mut f = vec![0x82, 0x7f | if server { 0x80 } else { 0 }];
        f.extend_from_slice(&len.to_be_bytes());
        if server {
            f.extend_from_slice(&KEYS[0]);
        }
        f.extend_from_slice(b"abc");
        c.note = format!("server={} declared length {}", server, len);
        let exe = std::env::current_exe().map_err(|e| format!("{}: {}", HARNESS, e))?;
        let out = std::process::Command::new(exe)
            .args(&["probe-read-dataframe", if server { "1" } else { "0" }, &hex(&f)])
            .stderr(std::process::Stdio::null())
            .output()
            .map_err(|e| format!("{}: {}", HARNESS, e))?;
        c.step();
        c.trace(&out.status.code());
        c.state(&(server, len));
        ensure!(
            out.status.code() == Some(0),
            "reading a frame that declares {} bytes ended the process: {:?} {}",
            len,
            out.status,
            String::from_utf8_lossy(&out.stdout)
        );
        Ok(())
    });
    x.bound("120000 frames there together (fragments, control frames, messages, ending well or not), 3 receivers with an ordinary stack, both roles, each in a process of its own");
    x.section_t("very-many-frames/child-process", 6 * 3 * 2, 6, |c, i| {
        let mut ix = Ix(i);
        let (kind, drv, server) = (ix.take(6), ix.take(3), ix.take(2) == 1);
        c.note = format!("server={} kind {} receiver {}", server, kind, drv);
        let exe = std::env::current_exe().map_err(|e| format!("{}: {}", HARNESS, e))?;
        let out = std::process::Command::new(exe)
            .args(&["probe-deep", &kind.to_string(), if server { "1" } else { "0" }, &drv.to_string()])
            .stderr(std::process::Stdio::null())
            .output()
            .map_err(|e| format!("{}: {}", HARNESS, e))?;
        c.steps(DEEP);
        c.trace(&out.status.code());
        c.state(&(kind, drv, server));
        ensure!(out.status.code() == Some(0), "{} frames received together: {:?} {}", DEEP, out.status, String::from_utf8_lossy(&out.stdout).trim());
        Ok(())
    });
    let alpha: [u8; 22] = [
        0x00, 0x01, 0x02, 0x08, 0x09, 0x80, 0x81, 0x82, 0x83, 0x88, 0x89, 0x8a, 0x8b, 0xc1, 0x7e, 0x7f, 0xfe, 0xff, 0x05, 0x85, 0x61, 0x84,
    ];
    let d = x.tier(4, 5);
    x.bound(&format!("all byte strings to length {} over {} header-relevant bytes, one-shot and byte by byte", d, alpha.len()));
    x.section("all-short-byte-strings", seq_count(alpha.len(), d) * 2, |c, i| {
        let server = i % 2 == 1;
        let bytes: Vec<u8> = seq_of(alpha.len(), i / 2).iter().map(|k| alpha[*k]).collect();
        c.note = format!("server={} bytes {}", server, hex(&bytes));
        let m = RxModel::new(server);
        let o = bare_obs(Mock::with(&bytes, Tail::Eof), server, DEF, c);
        check_obs(&bytes, m.clone(), Ending::SyncEof, &o).map_err(|e| format!("blocking receiver: {}", e))?;
        let mut d = AsyncDec::new(server, DEF);
        for b in &bytes {
            d.feed(&[*b], c);
        }
        check_obs(&bytes, m.clone(), Ending::Open, &d.open_obs()).map_err(|e| format!("async decode: {}", e))?;
        c.state(&(server, &bytes));
        c.trace(&o);
        Ok(())
    });
    // a violation later in a stream, at message level, through connected endpoints
    let na = alphabet(false).len();
    x.section("illegal-at-any-position/clients", (na * na * na) as u64 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let a = alphabet(server);
        let frames: Vec<Fr> = (0..3).map(|_| ix.pick(&a).clone()).collect();
        c.note = format!("role server={} frames {}", server, show(&frames));
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, true)
    });
    // one illegal frame at every position of a long fragmented message or a long history
    let bad: Vec<Fr> = vec![
        fr(true, 9, b"").rsv(1),
        fr(true, 10, b"x").rsv(4),
        fr(false, 9, b""),
        fr(false, 8, b""),
        fr(true, 9, &pat(126, 1)),
        fr(true, 8, &pat(126, 1)),
        fr(true, 11, b""),
        fr(true, 15, b"q"),
        fr(true, 3, b"q"),
        fr(false, 7, b"q"),
        fr(true, 9, b"ab").form(1),
        fr(true, 9, b"").form(2),
    ];
    let nlist: Vec<usize> = (1..=70).chain(vec![100, 127, 128, 129, 200, 255, 256, 257, 400, 600, 1024, 1025]).collect();
    let kinds = bad.len() + 7 + 2 + 2;
    x.bound("one illegal or reserved frame (23 kinds) at every position of messages of 1..70 and up to 1025 fragments, and of histories as long");
    x.section("illegal-in-long-streams", (nlist.len() * kinds * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let history = ix.take(2) == 1;
        let kind = ix.take(kinds);
        let n = *ix.pick(&nlist);
        let server = (n + kind) % 2 == 1;
        let base: Vec<Fr> = (0..n)
            .map(|k| {
                if history {
                    fr(true, [1u8, 2, 9, 10][k % 4], &pat(k % 5, k))
                } else {
                    fr(k + 1 == n, if k > 0 { 0 } else { 1 + (n % 2) as u8 }, &pat(k % 5, k))
                }
            })
            .collect();
        let places: Vec<usize> = if n <= 70 { (0..n).collect() } else {
            (0..n).filter(|p| *p < 3 || *p + 3 >= n || (p + 1).is_power_of_two() || p.is_power_of_two() || (p.max(&1) - 1).is_power_of_two() || p % 100 == 99).collect()
        };
        for p in places {
            let mut frames = base.clone();
            if kind < bad.len() {
                frames.insert(p, bad[kind].clone());
            } else if kind < bad.len() + 7 {
                frames[p].rsv = (kind - bad.len() + 1) as u8;
            } else if kind < bad.len() + 9 {
                frames[p].form = (kind - bad.len() - 6) as u8;
            } else if kind == bad.len() + 9 {
                frames[p].op |= 4;
            } else {
                frames[p].op |= 3;
            }
            frames.push(fr(true, 1, b"z"));
            let mut frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
            if kind == bad.len() + 10 && p % 2 == 1 {
                // the wrong masking instead
                frames[p].op &= 0xc;
                frames[p].mask = if server { None } else { Some(KEYS[0]) };
            }
            c.note = format!("server={} {} frames, history {}, kind {} at {}", server, n, history, kind, p);
            let bytes = wire(&frames);
            all_drivers(&bytes, &ends(&frames), server, c, n % 10 == 5)?;
        }
        Ok(())
    });
    // every single frame with reserved bit / reserved opcode, fragmented in two
    x.section("reserved-in-fragments", 16 * 8 * 8 * 2 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let ping = ix.take(2) == 1;
        let (r1, r2) = (ix.take(8) as u8, ix.take(8) as u8);
        let op = ix.take(16) as u8;
        let mut frames = vec![fr(false, op, b"x").rsv(r1)];
        if ping {
            frames.push(fr(true, 9, b"i"));
        }
        frames.push(fr(true, 0, b"y").rsv(r2));
        frames.push(fr(true, 1, b"z"));
        let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
        c.note = format!("role server={} frames {}", server, show(&frames));
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, true)
    });
}

/// very many frames that are there together, read on a thread with an ordinary stack
const DEEP: usize = 120_000;
fn deep_stream(kind: usize, server: bool) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let mut k = 0usize;
    let mut add = |v: &mut Vec<u8>, fin: bool, op: u8, p: &[u8]| {
        k += 1;
        v.extend(fr(fin, op, p).to(server, k).bytes())
    };
    match kind {
        // one message in many fragments, empty or not
        0 | 1 => {
            let p: &[u8] = if kind == 0 { b"" } else { b"ab" };
            add(&mut v, false, 2, p);
            for _ in 0..DEEP {
                add(&mut v, false, 0, p);
            }
            add(&mut v, true, 0, b"z");
            (v, 1)
        }
        // control frames alone, then within a message
        2 => {
            for _ in 0..DEEP {
                add(&mut v, true, 9, b"");
            }
            (v, DEEP)
        }
        3 => {
            add(&mut v, false, 1, b"a");
            for _ in 0..DEEP {
                add(&mut v, true, 10, b"");
            }
            add(&mut v, true, 0, b"z");
            (v, DEEP + 1)
        }
        // empty messages
        4 => {
            for _ in 0..DEEP {
                add(&mut v, true, 2, b"");
            }
            (v, DEEP)
        }
        // a message of many fragments that comes to nothing
        _ => {
            add(&mut v, false, 1, b"a");
            for _ in 0..DEEP {
                add(&mut v, false, 0, b"");
            }
            add(&mut v, true, 3, b"");
            (v, 0)
        }
    }
}
pub fn probe_deep(kind: usize, server: bool, drv: usize) -> i32 {
    let (bytes, want) = deep_stream(kind, server);
    let run = move || -> (usize, bool) {
        let mut n = 0;
        match drv {
            0 => {
                let mut r = reader(Mock::with(&bytes, Tail::Eof), server, DEF);
                loop {
                    match r.recv_message() {
                        Ok(_) => n += 1,
                        Err(e) => return (n, matches!(e, websocket::WebSocketError::NoDataAvailable)),
                    }
                }
            }
            1 => {
                let mut c = Case { transitions: 0, traces: 0, states: Default::default(), outcomes: Default::default(), note: String::new(), devs: 0 };
                let mut d = AsyncDec::new(server, DEF);
                d.feed(&bytes, &mut c);
                (d.obs.iter().filter(|o| matches!(o, Obs::Msg(_))).count(), !d.dead)
            }
            _ => {
                use futures::Stream;
                let ctx = if server { websocket::r#async::MsgCodecCtx::Server } else { websocket::r#async::MsgCodecCtx::Client };
                let f = tokio_codec::Decoder::framed(websocket::codec::ws::MessageCodec::<OwnedMessage>::default(ctx), Mock::with(&bytes, Tail::Eof));
                for r in f.wait() {
                    match r {
                        Ok(_) => n += 1,
                        Err(_) => return (n, false),
                    }
                }
                (n, true)
            }
        }
    };
    match std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join() {
        Ok((n, ok)) if n == want && ok == (kind != 5) => 0,
        Ok((n, ok)) => {
            println!("{} of {} messages, ended well: {}", n, want, ok);
            3
        }
        Err(_) => 4,
    }
}

pub fn probe_read_dataframe(server: bool, hexs: &str) -> i32 {
    let b: Vec<u8> = (0..hexs.len() / 2).map(|i| u8::from_str_radix(&hexs[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
    match guarded(|| DataFrame::read_dataframe(&mut &b[..], server).is_err()) {
        Ok(true) => 0,
        Ok(false) => {
            println!("delivered a frame");
            3
        }
        Err(e) => {
            println!("{}", e);
            4
        }
    }
}

pub fn c06(x: &Ctx) {
    let na = alphabet(false).len();
    let depth = x.tier(3, 4);
    x.bound(&format!("all prefixes of all frame sequences to depth {} over {} frames, and of long frames", depth, na));
    let check = |c: &mut Case, bytes: &[u8], server: bool, heavy: bool| -> Res {
        let m = RxModel::new(server);
        c.state(&(server, bytes));
        for variant in 0..if heavy { 4 } else { 2 } {
            let (tail, k) = match variant {
                0 => (Tail::Eof, usize::MAX),
                1 => (Tail::Eof, 1),
                2 => (Tail::Fail(ErrorKind::UnexpectedEof), usize::MAX),
                _ => (Tail::Eof, 3),
            };
            let k = if bytes.len() > 5000 && k < 100 { 1000 } else { k };
            let mut io = Mock::with(bytes, tail).max_read(k);
            let mut r = Receiver::new(server);
            let o = sync_obs(|| r.recv_message(&mut io), c, 100_000);
            check_obs(bytes, m.clone(), Ending::SyncEof, &o).map_err(|e| format!("blocking, variant {}: {}", variant, e))?;
            if o.last() == Some(&Obs::NoData) {
                for _ in 0..3 {
                    c.step();
                    match res_obs(r.recv_message(&mut io)) {
                        Obs::NoData => {}
                        z => fail!("reading again after the end gave {}", z.show()),
                    }
                }
            }
            c.trace(&o);
            if variant == 2 {
                continue;
            }
            let mut f = executor::spawn(framed(Mock::with(bytes, tail).max_read(k), server, DEF));
            let o = poll_stream(&mut f, 1, c);
            check_obs(bytes, m.clone(), Ending::AsyncEof, &o).map_err(|e| format!("framed, variant {}: {}", variant, e))?;
            for _ in 0..3 {
                match f.poll_stream_notify(&noop(), 0) {
                    Ok(futures::Async::Ready(Some(z))) => {
                        if matches!(o.last(), Some(Obs::End)) {
                            fail!("framed stream delivered {:?} after its end", z)
                        } else {
                            break;
                        }
                    }
                    Ok(futures::Async::NotReady) => fail!("framed stream waits after the end of the transport"),
                    _ => {}
                }
            }
            c.trace(&o);
        }
        if heavy {
            let io = Mock::with(bytes, Tail::Eof);
            let mut cl = sync_client(&io, server, None)?;
            let o = sync_obs(|| cl.recv_message(), c, 100_000);
            check_obs(bytes, m.clone(), Ending::SyncEof, &o).map_err(|e| format!("Client: {}", e))?;
            let io = Mock::with(bytes, Tail::Eof);
            let f = async_client(&io, server, None)?;
            let o = poll_stream(&mut executor::spawn(f), 1, c);
            check_obs(bytes, m, Ending::AsyncEof, &o).map_err(|e| format!("async client: {}", e))?;
        }
        Ok(())
    };
    x.section("sequences/prefixes", seq_count(na, depth) * 2, |c, i| {
        let server = i % 2 == 1;
        let s = seq_of(na, i / 2);
        let frames = pick(&alphabet(server), &s);
        let bytes = wire(&frames);
        let from = if frames.is_empty() { 0 } else { bytes.len() - frames[frames.len() - 1].bytes().len() };
        for p in from..=bytes.len() {
            c.note = format!("role server={} frames {} cut to {} bytes", server, show(&frames), p);
            check(c, &bytes[..p], server, frames.len() <= 2)?;
        }
        Ok(())
    });
    let wl: Vec<Wide> = wide_list(x.thorough).into_iter().filter(|w| x.thorough || !matches!(w, Wide::History(n, s) if n * s > 40_000)).collect();
    let wl = &wl;
    x.bound("wide streams (as C01) cut inside and at the ends of their first, middle and last frames");
    x.section("wide-streams/prefixes", wl.len() as u64 * 2, |c, i| {
        let server = i % 2 == 1;
        let w = &wl[(i / 2) as usize];
        let frames = wide_frames(w, server);
        let bytes = wire(&frames);
        let e = ends(&frames);
        let mut cuts = std::collections::BTreeSet::new();
        for k in &[0usize, 1, e.len() / 2, e.len().saturating_sub(3), e.len().saturating_sub(2), e.len() - 1] {
            let a = if *k == 0 { 0 } else { e[(*k - 1).min(e.len() - 1)] };
            let b = e[(*k).min(e.len() - 1)];
            for p in &[a, a + 1, a + 2, a + (b - a) / 2, b - 1, b] {
                if *p <= bytes.len() {
                    cuts.insert(*p);
                }
            }
        }
        let many = bytes.len() > 100_000;
        for (j, p) in cuts.into_iter().enumerate() {
            if many && j % 5 != 0 && !x.thorough {
                continue;
            }
            c.note = format!("role server={} {:?} cut to {} of {} bytes", server, w, p, bytes.len());
            check(c, &bytes[..p], server, j % 6 == 5)?;
        }
        Ok(())
    });
    let ls = [124usize, 125, 126, 127, 128, 4090, 4096, 8192, 65534, 65535, 65536, 65537];
    x.section("long-frames/prefixes", ls.len() as u64 * 2 * 3, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let kind = ix.take(3);
        let l = *ix.pick(&ls);
        let frames = match kind {
            0 => vec![fr(true, 2, &patb(l, 1)), fr(true, 9, b"p"), fr(true, 1, b"t")],
            1 => vec![fr(true, 1, b"t"), fr(false, 2, &patb(l, 1)), fr(true, 0, b"p")],
            _ => vec![fr(false, 2, b""), fr(true, 9, b""), fr(true, 0, &patb(l, 2)), fr(true, 8, b"")],
        };
        let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
        let bytes = wire(&frames);
        let mut cuts = hot_cuts(&frames);
        if bytes.len() < 700 {
            cuts = (0..=bytes.len()).collect();
        }
        cuts.push(0);
        cuts.push(bytes.len());
        for p in cuts {
            c.note = format!("role server={} frames {} cut to {} bytes", server, show(&frames), p);
            check(c, &bytes[..p], server, true)?;
        }
        Ok(())
    });
}

pub fn c07(x: &Ctx) {
    let a: [u8; 20] = [
        0x41, 0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff,
    ];
    let d = x.tier(4, 5);
    x.bound(&format!("all byte strings to length {} over {} UTF-8 boundary bytes, all fragmentations", d, a.len()));
    x.section("text-strings", seq_count(a.len(), d), |c, i| {
        let s: Vec<u8> = seq_of(a.len(), i).iter().map(|k| a[*k]).collect();
        let ok = utf8_ok(&s);
        ensure!(ok == std::str::from_utf8(&s).is_ok(), "{}: model disagrees with std on {}", HARNESS, hex(&s));
        let n = s.len();
        let server = i % 2 == 1;
        for mask in 0..1u64 << n.saturating_sub(1) {
            let parts = if n == 0 { vec![vec![]] } else { split_at(&s, &cuts_of_mask(mask, n)) };
            for ping in 0..if n <= 3 && parts.len() > 1 { 2 } else { 1 } {
                let mut frames = vec![];
                for (k, p) in parts.iter().enumerate() {
                    frames.push(fr(k + 1 == parts.len(), if k == 0 { 1 } else { 0 }, p).to(server, k));
                    if ping == 1 && k == 0 {
                        frames.push(fr(true, 9, &[0xff, 0xc3]).to(server, 0));
                    }
                }
                frames.push(fr(true, 10, b"z").to(server, 1));
                let bytes = wire(&frames);
                c.note = format!("server={} text {} as {}", server, hex(&s), show(&frames));
                all_drivers(&bytes, &ends(&frames), server, c, n <= 2)?;
            }
        }
        // conversion functions on data frames
        let df = vec![DataFrame::new(true, websocket::dataframe::Opcode::Text, s.clone())];
        match Message::from_dataframes(df) {
            Ok(m) => ensure!(ok && m.payload[..] == s[..], "from_dataframes accepted {}", hex(&s)),
            Err(_) => ensure!(!ok, "from_dataframes refused {}", hex(&s)),
        }
        Ok(())
    });
    // longer texts: multi-byte characters split at every byte into up to 4 fragments, and damaged at every byte
    let text = "aé€\u{10348}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}z";
    let tb = text.as_bytes().to_vec();
    let n = tb.len();
    let tup = cut_tuples(n, x.tier(2, 3));
    x.section("long-text/fragmented", tup.len() as u64, |c, i| {
        let cuts = &tup[i as usize];
        let server = i % 2 == 1;
        let parts = split_at(&tb, cuts);
        let mk = |b: &[Vec<u8>]| -> Vec<Fr> {
            let mut v = vec![];
            for (k, p) in b.iter().enumerate() {
                v.push(fr(k + 1 == b.len(), if k == 0 { 1 } else { 0 }, p).to(server, k));
                v.push(fr(true, 9, b"").to(server, 1));
            }
            v
        };
        let frames = mk(&parts);
        let bytes = wire(&frames);
        c.note = format!("server={} cuts {:?}", server, cuts);
        all_drivers(&bytes, &ends(&frames), server, c, cuts.len() <= 1)?;
        for pos in 0..n {
            for v in &[0x00u8, 0x80, 0xc0, 0xff] {
                let mut t = tb.clone();
                t[pos] = *v;
                let frames = mk(&split_at(&t, cuts));
                let bytes = wire(&frames);
                c.note = format!("server={} cuts {:?} byte {} set to {:02x}", server, cuts, pos, v);
                all_drivers(&bytes, &ends(&frames), server, c, false)?;
            }
        }
        Ok(())
    });
    x.section("close-codes", 65536, |c, i| {
        let code = i as u16;
        for reason in &["", "ok", "é€"] {
            let mut p = code.to_be_bytes().to_vec();
            p.extend_from_slice(reason.as_bytes());
            let server = i % 2 == 1;
            let frames = vec![fr(true, 8, &p).to(server, 2)];
            c.note = format!("close {} {:?}", code, reason);
            let bytes = wire(&frames);
            all_drivers(&bytes, &ends(&frames), server, c, false)?;
        }
        Ok(())
    });
    x.section("close-payloads", seq_count(a.len(), 3) * 2, |c, i| {
        let server = i % 2 == 1;
        let s: Vec<u8> = seq_of(a.len(), i / 2).iter().map(|k| a[*k]).collect();
        let mut payloads = vec![];
        let mut p = vec![3, 0xe8];
        p.extend_from_slice(&s);
        payloads.push(p);
        payloads.push(s.clone());
        for p in payloads {
            for started in 0..2 {
                let mut frames = vec![];
                if started == 1 {
                    frames.push(fr(false, 2, b"q").to(server, 0));
                }
                frames.push(fr(true, 8, &p).to(server, 2));
                c.note = format!("server={} close payload {} mid-message {}", server, hex(&p), started);
                let bytes = wire(&frames);
                all_drivers(&bytes, &ends(&frames), server, c, p.len() <= 3)?;
            }
        }
        Ok(())
    });
    // one unit of text anywhere in a payload of any size
    let units: [&[u8]; 18] = [
        b"", b"\0", "é".as_bytes(), "€".as_bytes(), "\u{10348}".as_bytes(), b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xe2", b"\xf0\x90\x8d", b"\xf0\x90",
        b"\xed\xa0\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xf4\x90\x80\x80", b"\xef\xbf\xbd", b"\xef\xbb\xbf",
    ];
    x.bound("one of 18 valid and invalid UTF-8 units at every position of a text of every length to 300 (thorough 1100) and around 4096 and 65536, and of a close reason of every length, whole and in two fragments");
    let top = x.tier(301usize, 1101);
    x.section("units/text", (2 * units.len() * (top + 14)) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let u = ix.pick(&units);
        let k = ix.take(top + 14);
        let len = if k < top { k } else if k < top + 7 { 4096 + (k - top) - 3 } else { 65536 + (k - top - 7) - 3 };
        if u.len() > len {
            return Ok(());
        }
        let pos: Vec<usize> = if len < 140 { (0..=len - u.len()).collect() } else {
            let mut v: Vec<usize> = (0..5).chain(len - u.len() - 4..=len - u.len()).chain(122..130.min(len - u.len())).collect();
            v.sort();
            v.dedup();
            v
        };
        for p in pos {
            let mut t = vec![b'x'; len];
            t[p..p + u.len()].copy_from_slice(u);
            let cut = p + u.len() / 2;
            for f in 0..2 {
                let frames = if f == 0 {
                    vec![fr(true, 1, &t).to(server, 1)]
                } else {
                    vec![fr(false, 1, &t[..cut]).to(server, 1), fr(true, 0, &t[cut..]).to(server, 2)]
                };
                c.note = format!("server={} text of {} bytes with {} at {} in {} fragments", server, len, hex(u), p, f + 1);
                all_drivers(&wire(&frames), &ends(&frames), server, c, false)?;
            }
        }
        Ok(())
    });
    x.section("units/control", (2 * 3 * units.len() * 126) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let op = [8u8, 9, 10][ix.take(3)];
        let u = ix.pick(&units);
        let len = ix.take(126);
        let at = if op == 8 { 2 } else { 0 };
        if u.len() + at > len {
            return Ok(());
        }
        for p in at..=len - u.len() {
            let mut t = vec![b'x'; len];
            if op == 8 {
                t[0] = 3;
                t[1] = 0xe8;
            }
            t[p..p + u.len()].copy_from_slice(u);
            let frames = vec![fr(true, op, &t).to(server, 1), fr(true, 1, b"z").to(server, 2)];
            c.note = format!("server={} opcode {} payload of {} bytes with {} at {}", server, op, len, hex(u), p);
            all_drivers(&wire(&frames), &ends(&frames), server, c, false)?;
        }
        Ok(())
    });
    // a character cut or damaged anywhere in a text of many fragments
    let ns: Vec<usize> = (1..=70).chain(vec![100, 128, 129, 256, 257, 300, 513, 1000]).collect();
    x.bound("one multi-byte character, whole, damaged or incomplete, split over the fragments at any place of a text of up to 1000 one-byte fragments, and texts of sizes around every power of two to 1 MiB with one unit near each end and the middle");
    x.section("units/many-fragments", (ns.len() * units.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let u = ix.pick(&units);
        let n = *ix.pick(&ns);
        let server = n % 2 == 1;
        if u.len() > n {
            return Ok(());
        }
        for p in 0..=n - u.len() {
            if n > 70 && !(p < 4 || p + u.len() + 4 > n || (p + u.len()) % 64 < 4) {
                continue;
            }
            let mut t = vec![b'x'; n];
            t[p..p + u.len()].copy_from_slice(u);
            let frames: Vec<Fr> =
                (0..n).map(|k| fr(k + 1 == n, if k == 0 { 1 } else { 0 }, &t[k..k + 1]).to(server, k)).chain(Some(fr(true, 9, b"").to(server, 0))).collect();
            c.note = format!("server={} {} one-byte fragments with {} at {}", server, n, hex(u), p);
            all_drivers(&wire(&frames), &ends(&frames), server, c, false)?;
        }
        Ok(())
    });
    let big: Vec<usize> = sizes_around_powers(x.tier(1 << 20, 8 << 20)).into_iter().filter(|n| *n >= 200).collect();
    x.section("units/large", (big.len() * units.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let u = ix.pick(&units);
        let n = *ix.pick(&big);
        let server = n % 2 == 1;
        let mut t = vec![b'x'; n];
        for p in &[0usize, n / 2, n - u.len()] {
            t[*p..*p + u.len()].copy_from_slice(u);
            for f in 0..2 {
                let cut = *p + u.len() / 2;
                let frames = if f == 0 {
                    vec![fr(true, 1, &t).to(server, 1)]
                } else {
                    vec![fr(false, 1, &t[..cut]).to(server, 1), fr(true, 0, &t[cut..]).to(server, 2)]
                };
                c.note = format!("server={} text of {} bytes with {} at {} in {} fragments", server, n, hex(u), p, f + 1);
                all_drivers(&wire(&frames), &ends(&frames), server, c, false)?;
            }
            for b in &mut t[*p..*p + u.len()] {
                *b = b'x';
            }
        }
        Ok(())
    });
    // all single byte close payloads must be refused, by every entry point, and not as "no data"
    x.section("close-one-byte", 256 * 2, |c, i| {
        let server = i % 2 == 1;
        let b = (i / 2) as u8;
        let frames = vec![fr(true, 8, &[b]).to(server, 1), fr(true, 1, b"x").to(server, 0)];
        c.note = format!("server={} close payload {:02x}", server, b);
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, true)?;
        let r = OwnedMessage::from_dataframes(vec![DataFrame::new(true, websocket::dataframe::Opcode::Close, vec![b])]);
        match r {
            Err(websocket::WebSocketError::NoDataAvailable) => fail!("one-byte close is reported as lack of data"),
            Err(_) => Ok(()),
            Ok(m) => fail!("one-byte close delivered as {:?}", m),
        }
    });
    x.section("binary-ping-pong", seq_count(a.len(), 3) * 3, |c, i| {
        let mut ix = Ix(i);
        let op = [2u8, 9, 10][ix.take(3)];
        let s: Vec<u8> = seq_of(a.len(), ix.0).iter().map(|k| a[*k]).collect();
        let server = ix.0 % 2 == 1;
        let frames = vec![fr(true, op, &s).to(server, 2), fr(true, 8, b"").to(server, 1)];
        c.note = format!("server={} op {} payload {}", server, op, hex(&s));
        let bytes = wire(&frames);
        all_drivers(&bytes, &ends(&frames), server, c, s.len() < 2)
    });
}

/// entry points that take limits
const ENTRIES: usize = 8;
const ENTRY_NAMES: [&str; ENTRIES] = [
    "MessageCodec",
    "MessageCodec byte by byte",
    "MessageCodec frame by frame",
    "Receiver",
    "Client from builder/accept_with_limits",
    "async client from builder/accept_with_limits",
    "accept_with_headers_and_limits",
    "Framed with not-ready between frames",
];
fn limit_obs(entry: usize, bytes: &[u8], ends: &[usize], server: bool, lim: (usize, usize), c: &mut Case) -> Result<(Vec<Obs>, Ending), String> {
    Ok(match entry {
        0 | 1 | 2 => {
            let mut d = AsyncDec::new(server, lim);
            match entry {
                0 => d.feed(bytes, c),
                1 => {
                    for b in bytes {
                        d.feed(&[*b], c)
                    }
                }
                _ => {
                    let mut p = 0;
                    for e in ends {
                        d.feed(&bytes[p..*e], c);
                        p = *e;
                    }
                    d.feed(&bytes[p..], c);
                }
            }
            (d.open_obs(), Ending::Open)
        }
        3 => (bare_obs(Mock::with(bytes, Tail::Eof), server, lim, c), Ending::SyncEof),
        4 => {
            let io = Mock::with(bytes, Tail::Eof);
            let mut cl = sync_client(&io, server, Some(lim))?;
            (sync_obs(|| cl.recv_message(), c, 100_000), Ending::SyncEof)
        }
        5 => {
            let io = Mock::with(bytes, Tail::WouldBlock);
            let f = async_client(&io, server, Some(lim))?;
            (poll_stream(&mut executor::spawn(f), 1, c), Ending::Open)
        }
        6 => {
            // server: the fourth accept variant, blocking (the client role uses the asynchronous one of the builder again)
            use websocket::server::upgrade::sync::{IntoWs, RequestStreamPair};
            let io = Mock::with(bytes, Tail::Eof);
            if server {
                let h = hyper::header::Headers::new();
                let up = match RequestStreamPair(io.clone(), good_request()).into_ws() {
                    Ok(u) => u,
                    Err((_, _, e)) => fail!("valid request refused: {:?}", e),
                };
                let mut cl = up.accept_with_headers_and_limits(&h, lim.0, lim.1).map_err(|(_, e)| format!("{:?}", e))?;
                // and split: limits survive
                let _ = &mut cl;
                let (mut r, _w) = cl.split().map_err(|e| format!("{:?}", e))?;
                (sync_obs(|| r.recv_message(), c, 100_000), Ending::SyncEof)
            } else {
                let cl = sync_client(&io, false, Some(lim))?;
                let (mut r, _w) = cl.split().map_err(|e| format!("{:?}", e))?;
                (sync_obs(|| r.recv_message(), c, 100_000), Ending::SyncEof)
            }
        }
        _ => {
            let mut segs = vec![];
            let mut p = 0;
            for e in ends {
                segs.push(Seg::Data(bytes[p..*e].to_vec()));
                segs.push(Seg::Fail(ErrorKind::WouldBlock));
                p = *e;
            }
            segs.push(Seg::Data(bytes[p..].to_vec()));
            let io = Mock::new(segs, Tail::WouldBlock);
            if server {
                use websocket::server::upgrade::r#async::Upgrade as AUp;
                let up: AUp<Mock> =
                    AUp { headers: hyper::header::Headers::new(), stream: io.clone(), request: good_request(), buffer: bytes::BytesMut::new() };
                let f = run_future(up.accept_with_headers_and_limits(&hyper::header::Headers::new(), lim.0, lim.1), 100)?.map_err(|e| format!("{:?}", e))?.0;
                (poll_stream(&mut executor::spawn(f), ends.len() + 2, c), Ending::Open)
            } else {
                (poll_stream(&mut executor::spawn(framed(io, server, lim)), ends.len() + 2, c), Ending::Open)
            }
        }
    })
}

/// the limits bind whichever way the connection is read, and whichever ways it has been read before
fn mixed_ways(x: &Ctx) {
    const WAYS: [&str; 5] = ["recv_message", "recv_dataframe", "incoming_messages", "incoming_dataframes", "split"];
    let depth = x.tier(4, 6);
    let fls = [0usize, 5, 125, 126, 1000, 70_000];
    x.bound("6 frame limits x how the connection was made (with limits) x every sequence of up to 4 (6) of {recv_message, recv_dataframe, either iterator, split}: frames of exactly the limit are delivered by every one of them, the next larger frame is refused by the last; and the message limit by the message-level ones");
    x.section("limits/mixed-ways", seq_count(5, depth) * (2 * 2 * fls.len()) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let by_message = ix.take(2) == 1;
        let l = fls[ix.take(fls.len())];
        let ways = seq_of(5, ix.0);
        let last = match ways.last() {
            Some(w) if *w < 4 => *w,
            _ => return Ok(()),
        };
        if by_message && last % 2 == 1 {
            return Ok(());
        }
        c.note = format!("server={} limit {} on the {} ways {:?}", server, l, if by_message { "message" } else { "frame" }, ways.iter().map(|w| WAYS[*w]).collect::<Vec<_>>());
        c.state(&(server, by_message, l, &ways));
        let mut frames: Vec<Fr> = vec![];
        for _ in ways.iter().take(ways.len() - 1).filter(|w| **w < 4) {
            // exactly at the limit
            frames.push(fr(true, 2, &patb(if by_message { l / 3 } else { l }, frames.len())));
        }
        let reads = frames.len();
        if by_message {
            frames.push(fr(false, 2, &patb(l + 1, 9)));
            frames.push(fr(true, 0, &patb(3, 9)));
        } else {
            frames.push(fr(true, 2, &patb(l + 1, 9)));
        }
        let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
        let io = Mock::with(&wire(&frames), Tail::WouldBlock);
        let lim = if by_message { (1 << 20, l) } else { (l, 1 << 20) };
        let mut whole = Some(sync_client(&io, server, Some(lim))?);
        let mut half = None;
        let mut k = 0;
        for w in &ways {
            c.step();
            if *w == 4 {
                if let Some(cl) = whole.take() {
                    half = Some(cl.split().map_err(|e| format!("{:?}", e))?.0);
                }
                continue;
            }
            macro_rules! read {
                ($e:expr) => {
                    match *w {
                        0 => $e.recv_message().map(|m| payload_of(&m).1),
                        1 => $e.recv_dataframe().map(|d| d.data),
                        2 => $e.incoming_messages().next().unwrap_or(Err(websocket::WebSocketError::ProtocolError("ended"))).map(|m| payload_of(&m).1),
                        _ => $e.incoming_dataframes().next().unwrap_or(Err(websocket::WebSocketError::ProtocolError("ended"))).map(|d| d.data),
                    }
                };
            }
            let r = match (&mut whole, &mut half) {
                (Some(cl), _) => read!(cl),
                (_, Some(r)) => read!(r),
                _ => unreachable!(),
            };
            if k < reads {
                match r {
                    Ok(d) => ensure!(d == frames[k].payload, "{} gives {} bytes of a frame of {}", WAYS[*w], d.len(), frames[k].payload.len()),
                    Err(e) => return Err(format!("{} refuses a frame within the limits: {:?}", WAYS[*w], e)),
                }
            } else {
                match r {
                    Ok(d) => return Err(format!("{} delivers {} bytes over the limit", WAYS[*w], d.len())),
                    Err(websocket::WebSocketError::NoDataAvailable) => return Err(format!("{} reports no data for what is over the limit", WAYS[*w])),
                    Err(_) => {}
                }
            }
            k += 1;
        }
        c.trace(&(k, by_message, l));
        Ok(())
    });
}

pub fn c08(x: &Ctx) {
    mixed_ways(x);
    let fl: Vec<usize> = vec![0, 1, 10, 124, 125, 126, 127, 1000, 65535, 65536, 1 << 20, u32::MAX as usize - 1];
    let deltas: [i64; 7] = [-2, -1, 0, 1, 2, 100, 1 << 33];
    let ops: [(bool, u8); 4] = [(true, 2), (false, 1), (true, 0), (true, 9)];
    x.bound("frame limits x declared lengths around them x opcodes x 8 entry points x {header only, header+some payload, all}");
    let nfl = fl.len();
    x.section("frame-limit", (nfl * deltas.len() * ops.len() * ENTRIES * 2 * 3) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let entry = ix.take(ENTRIES);
        let amount = ix.take(3);
        let (fin, op) = ops[ix.take(4)];
        let d = *ix.pick(&deltas);
        let l = *ix.pick(&fl);
        let want = l as i64 + d;
        if want < 0 || (op >= 8 && want > 125) {
            return Ok(());
        }
        let want = want as u64;
        if amount > 0 && (want > 70_000 && (want > 1 << 21 || entry == 1)) {
            return Ok(());
        }
        // header by hand
        let mut pre = vec![];
        if op == 0 {
            pre = fr(false, 2, b"").to(server, 0).bytes();
        }
        let mut b = pre.clone();
        let m = if server { 0x80u8 } else { 0 };
        b.push((fin as u8) << 7 | op);
        if want < 126 {
            b.push(m | want as u8);
        } else if want < 65536 {
            b.push(m | 126);
            b.extend_from_slice(&(want as u16).to_be_bytes());
        } else {
            b.push(m | 127);
            b.extend_from_slice(&want.to_be_bytes());
        }
        if server {
            b.extend_from_slice(&KEYS[1]); // zero key: payload is its own masking
        }
        match amount {
            0 => {}
            1 => b.extend_from_slice(&pat((want as usize).min(5), 0)),
            _ => b.extend_from_slice(&pat(want as usize, 0)),
        }
        let lim = (l, 200 << 20);
        c.note = format!(
            "{} server={} frame limit {} declared {} op {} fin {} payload present {}",
            ENTRY_NAMES[entry],
            server,
            l,
            want,
            op,
            fin,
            ["none", "some", "all"][amount]
        );
        let (o, end) = limit_obs(entry, &b, &[pre.len()], server, lim, c)?;
        check_obs(&b, RxModel::limits(server, l as u64, lim.1 as u64), end, &o)?;
        c.state(&(entry, server, l, want, op, amount));
        c.trace(&o.iter().map(|o| matches!(o, Obs::Err(_))).collect::<Vec<_>>());
        // frame level: codec and blocking receiver
        if entry == 0 {
            use tokio_codec::Decoder;
            let mut fc: DataFrameCodec<DataFrame> = DataFrameCodec::new_with_limits(ctx(server), l);
            let mut buf = bytes::BytesMut::from(&b[pre.len()..]);
            let r = fc.decode(&mut buf);
            let mut rc = Receiver::new_with_limits(server, l, 1 << 30);
            let r2 = rc.recv_dataframe(&mut &b[pre.len()..]);
            let complete = amount == 2 || want == 0 || (amount == 1 && want <= 5);
            if want > l as u64 {
                ensure!(r.is_err(), "frame codec accepted an oversized header: {:?}", r.map(|x| x.map(|d| d.data.len())));
                ensure!(
                    matches!(r2, Err(ref e) if !matches!(e, websocket::WebSocketError::NoDataAvailable)),
                    "recv_dataframe on an oversized header: {:?}",
                    r2.map(|d| d.data.len())
                );
            } else if complete {
                ensure!(matches!(r, Ok(Some(_))), "frame codec refused a frame within the limit: {:?}", r.err());
                ensure!(r2.is_ok(), "recv_dataframe refused a frame within the limit: {:?}", r2.err());
            } else {
                ensure!(matches!(r, Ok(None)), "frame codec on an incomplete frame within the limit");
            }
        }
        Ok(())
    });
    // message limit
    let sizes: [(bool, usize); 5] = [(false, 0), (false, 1), (false, 70), (true, 0), (true, 70)];
    let k = sizes.len() + 2; // + ping, + close
    let depth = x.tier(4, 6);
    let mls: Vec<usize> = vec![0, 1, 63, 64, 65, 66, 69, 100, 128, 129, 130, 133, 134, 135, 192, 199, 268, 269, 500];
    x.bound(&format!("fragment/control sequences to depth {} over {} symbols x {} message limits x 8 entry points", depth, k, mls.len()));
    let nm = mls.len() as u64;
    x.section("message-limit", seq_count(k, depth) * nm, |c, i| {
        let mut ix = Ix(i);
        let ml = *ix.pick(&mls);
        let s = seq_of(k, ix.0);
        let server = hash_of(&s) % 2 == 0;
        let mut frames = vec![];
        let mut open = false;
        for (j, t) in s.iter().enumerate() {
            if *t < sizes.len() {
                let (fin, n) = sizes[*t];
                frames.push(fr(fin, if open { 0 } else { 2 }, &patb(n, j)).to(server, j));
                open = !fin;
            } else if *t == sizes.len() {
                frames.push(fr(true, 9, b"12").to(server, j));
            } else {
                frames.push(fr(true, 8, b"").to(server, j));
            }
        }
        let bytes = wire(&frames);
        let e = ends(&frames);
        let deep = s.len() == depth;
        for entry in 0..ENTRIES {
            if deep && (entry == 5 || entry == 7 || entry == 4) && depth > 4 {
                continue;
            }
            c.note = format!("{} server={} message limit {} frames {}", ENTRY_NAMES[entry], server, ml, show(&frames));
            let (o, end) = limit_obs(entry, &bytes, &e, server, (1 << 20, ml), c)?;
            check_obs(&bytes, RxModel::limits(server, 1 << 20, ml as u64), end, &o)?;
            c.trace(&o);
        }
        c.state(&(server, ml, &bytes));
        Ok(())
    });
    // any number of fragments, the limit reached at any of them
    let tops = x.tier(150usize, 400);
    x.bound(&format!("messages of 1..{} fragments of 9 sizes with the message limit at, one below and one above what the first k fragments count for, for k around every fragment of interest", tops));
    x.section("message-limit/many-fragments", (tops * 9 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let ctl = ix.take(2) == 1;
        let size = [0usize, 1, 2, 3, 63, 64, 125, 126, 1000][ix.take(9)];
        let n = ix.0 as usize + 1;
        let server = (n + size) % 2 == 0;
        let mut frames = vec![];
        for k in 0..n {
            frames.push(fr(false, if k == 0 { 2 } else { 0 }, &patb(size, k)));
            if ctl {
                frames.push(fr(true, 9 + (k % 2) as u8, &pat(k % 126, k)));
            }
        }
        frames.push(fr(true, 0, b"end"));
        frames.push(fr(true, 1, b"n"));
        let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
        let bytes = wire(&frames);
        let e = ends(&frames);
        for k in &[1, 2, n / 2, n.saturating_sub(1), n] {
            if *k == 0 || *k > n {
                continue;
            }
            let t = k * (size + OVERHEAD as usize);
            for ml in &[t - 1, t, t + 1] {
                for entry in 0..ENTRIES {
                    if !(*k == n || *k == 1) && entry != 0 && entry != 3 || n > 40 && entry != 0 && entry != 3 && (n + entry) % 8 != 0 {
                        continue;
                    }
                    c.note = format!("{} server={} message limit {} with {} fragments of {} (control between: {})", ENTRY_NAMES[entry], server, ml, n, size, ctl);
                    let (o, end) = limit_obs(entry, &bytes, &e, server, (1 << 20, *ml), c)?;
                    check_obs(&bytes, RxModel::limits(server, 1 << 20, *ml as u64), end, &o)?;
                    c.traces += 1;
                }
            }
        }
        c.state(&(server, &bytes[..bytes.len().min(2000)], bytes.len()));
        Ok(())
    });
    // every small frame limit, at every place of a longer history
    x.bound("every frame limit 0..300 and around powers of two to 2^20, hit by the k-th frame of a history, k in 0..40");
    let mut fls: Vec<usize> = (0..300).collect();
    fls.extend(sizes_around_powers(1 << 20).into_iter().filter(|n| *n >= 300));
    x.section("frame-limit/histories", (fls.len() * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let l = *ix.pick(&fls);
        for k in &[0usize, 1, 2, 3, 7, 8, 16, 33, 40] {
            for how in 0..6 {
                let big = l + 1;
                if l > 20_000 && *k > 3 && how > 1 {
                    continue;
                }
                let mut frames: Vec<Fr> = (0..*k).map(|j| if j % 3 == 2 && l >= 4 { fr(true, 9, b"ping") } else if j % 5 == 1 { fr(true, 1, &pat(l.min(3000), j)) } else { fr(true, 2, b"") }).collect();
                match how {
                    0 => frames.push(fr(true, 2, &patb(big, 1))),
                    1 => {
                        frames.push(fr(false, 1, b""));
                        frames.push(fr(false, 0, &pat(l, 1)));
                        frames.push(fr(true, 0, &pat(big, 1)));
                    }
                    2 => {
                        frames.push(fr(false, 1, &pat(l, 2)));
                        frames.push(fr(true, 10, b""));
                        frames.push(fr(false, 0, &pat(big, 1)));
                    }
                    3 => frames.push(fr(true, 1, &pat(l, 1))),
                    4 => frames.push(fr(true, 9, &patb(big.min(125), 1))),
                    _ => frames.push(fr(false, 2, &patb(big, 1))),
                }
                frames.push(fr(true, 10, b""));
                let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
                let bytes = wire(&frames);
                let e = ends(&frames);
                for entry in 0..ENTRIES {
                    if entry == 1 && bytes.len() > 20_000 || entry > 3 && *k > 3 && *k != 16 {
                        continue;
                    }
                    c.note = format!("{} server={} frame limit {} history of {} then case {}", ENTRY_NAMES[entry], server, l, k, how);
                    let (o, end) = limit_obs(entry, &bytes, &e, server, (l, 200 << 20), c)?;
                    check_obs(&bytes, RxModel::limits(server, l as u64, 200 << 20), end, &o)?;
                    c.traces += 1;
                }
                c.state(&(server, l, k, how));
            }
        }
        Ok(())
    });
    // limits of every magnitude
    let mags: Vec<usize> = {
        let mut v = vec![];
        for b in 8..64 {
            let p = 1usize << b;
            for d in &[0usize, 1, 70, 127, 200, 300] {
                v.push(p + d);
                v.push(p.saturating_sub(*d));
            }
            v.push(p + p / 2);
            v.push(p | (p - 1));
        }
        v.extend(vec![usize::MAX, usize::MAX - 1, 3 << 32, (7 << 32) + 100, 1_000_000, 10_000_000_000]);
        v.sort();
        v.dedup();
        v
    };
    let mags = &mags;
    x.bound("frame and message limits around every power of two from 2^8 to 2^63 and usize::MAX: streams within and beyond the smaller of them");
    x.section("limits/magnitudes", (mags.len() * 3 * 2) as u64, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let which = ix.take(3);
        let m = mags[ix.0 as usize];
        let lim = match which {
            0 => (m, usize::MAX),
            1 => (usize::MAX, m),
            _ => (m, m),
        };
        let mut streams = vec![
            vec![fr(true, 2, &patb(200, 1)), fr(true, 9, b"p"), fr(true, 1, &pat(100, 1))],
            vec![fr(false, 2, &patb(1, 1)), fr(false, 0, &patb(70, 1)), fr(true, 9, b""), fr(false, 0, b""), fr(true, 0, &patb(65, 1)), fr(true, 1, b"n")],
            vec![fr(false, 1, b""), fr(true, 0, b""), fr(false, 1, b"a"), fr(true, 0, b"b")],
            vec![fr(true, 1, &pat(70_000, 1)), fr(true, 10, b"")],
        ];
        if m > 0 && m < 1 << 21 {
            // around the limit itself
            for d in 0..3 {
                streams.push(vec![fr(true, 2, &patb(m - 1 + d, 1)), fr(true, 1, b"n")]);
                let want = m - 1 + d;
                if want >= 2 * OVERHEAD as usize {
                    streams.push(vec![fr(false, 2, &patb(want - 2 * OVERHEAD as usize, 1)), fr(true, 9, b""), fr(false, 0, b""), fr(true, 0, b"e"), fr(true, 1, b"n")]);
                }
            }
        }
        for (k, s) in streams.into_iter().enumerate() {
            let frames: Vec<Fr> = s.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
            let bytes = wire(&frames);
            let e = ends(&frames);
            for entry in 0..ENTRIES {
                if bytes.len() > 20_000 && (entry == 1 || m > 100_000 && entry > 3) {
                    continue;
                }
                c.note = format!("{} server={} limits {:?} stream {}: {}", ENTRY_NAMES[entry], server, lim, k, show(&frames));
                let (o, end) = limit_obs(entry, &bytes, &e, server, lim, c)?;
                check_obs(&bytes, RxModel::limits(server, lim.0 as u64, lim.1 as u64), end, &o)?;
                c.traces += 1;
            }
        }
        c.state(&(server, lim));
        Ok(())
    });
    // the limits given to a builder, through every way to connect
    let lims: [(usize, usize); 6] = [(0, 1000), (10, 1000), (1000, 100), (126, 400), (100, 1_000_000), (70_000, 66_000)];
    x.bound("6 connect methods over real sockets and TLS x ws and wss x 6 pairs of different limits, and each limit alone x 8 streams around them");
    x.section_t("methods", 6 * 2 * 6 * 3 * 8, 16, |c, i| {
        let mut ix = Ix(i);
        let method = ix.take(6);
        let scheme = ["ws", "wss"][ix.take(2)];
        let (l, ml) = lims[ix.take(6)];
        let set = ix.take(3);
        let how = ix.take(8);
        let frames: Vec<Fr> = match how {
            0 => vec![fr(true, 2, &patb(l, 1)), fr(true, 1, b"")],
            1 => vec![fr(true, 2, &patb(l + 1, 1))],
            2 => vec![fr(false, 2, &patb(l / 2, 1)), fr(true, 0, &patb(l, 1)), fr(true, 9, b"")],
            3 | 4 | 5 => {
                // fragments counting for one less than the limit, the limit, one more
                let part = 50.min(l);
                let each = part + OVERHEAD as usize;
                let want = ml + how - 4;
                let k = want / each;
                if k > 5000 {
                    return Ok(());
                }
                let rest = want % each;
                let mut v: Vec<Fr> = (0..k).map(|j| fr(false, if j == 0 { 1 } else { 0 }, &pat(part, j))).collect();
                if rest >= OVERHEAD as usize {
                    v.push(fr(false, if k == 0 { 1 } else { 0 }, &pat(rest - OVERHEAD as usize, 1)));
                }
                if v.is_empty() {
                    return Ok(());
                }
                v.push(fr(true, 0, b""));
                v
            }
            6 => vec![fr(true, 9, &pat(l.min(125), 1)), fr(true, 2, &patb(l + 1, 3))],
            _ => vec![fr(true, 1, b""), fr(false, 1, &pat(l, 1)), fr(true, 10, b""), fr(false, 0, &pat(l + 1, 2))],
        };
        let bytes = wire(&frames);
        let model = match set {
            0 => RxModel::limits(false, l as u64, ml as u64),
            1 => RxModel::limits(false, l as u64, 200 << 20),
            _ => RxModel::limits(false, 100 << 20, ml as u64),
        };
        c.note = format!("{} {} frame limit {} message limit {} set {} frames {}", crate::tls::METHODS[method], scheme, l, ml, ["both", "frame", "message"][set], if frames.len() < 20 { show(&frames) } else { format!("{} of them", frames.len()) });
        c.step();
        let b2 = bytes.clone();
        let d = crate::tls::dial(
            scheme,
            method,
            "",
            None,
            "/x",
            move |u| {
                let b = websocket::ClientBuilder::new(u).map_err(|e| e.to_string())?;
                Ok(match set {
                    0 => b.max_dataframe_size(l).max_message_size(ml),
                    1 => b.max_dataframe_size(l),
                    _ => b.max_message_size(ml),
                })
            },
            move |h| {
                let k = crate::http::parse_head(h).ok().and_then(|h| h.one("Sec-WebSocket-Key").ok().map(|s| s.to_string())).unwrap_or_default();
                let mut v = crate::http::response(&crate::http::accept_for(&k));
                v.extend_from_slice(&b2);
                v
            },
            vec![],
        )?;
        let o = match d.got {
            Ok((_, o)) => o,
            Err(e) => return Err(format!("connect failed: {:?}", e)),
        };
        check_obs(&bytes, model, if method < 3 { Ending::SyncEof } else { Ending::AsyncEof }, &o)?;
        c.state(&i);
        c.trace(&(method, scheme, o));
        Ok(())
    });
    // limits count anew for every message, however many came before
    x.section("limits/long-history", 12 * 4 * 2, |c, i| {
        let mut ix = Ix(i);
        let server = ix.take(2) == 1;
        let last = ix.take(4);
        let n = [10usize, 50, 100, 200, 300, 500, 700, 900, 20, 40, 80, 999][ix.take(12)];
        let (fl, ml) = (300, 3 * 64 + 600);
        let mut frames = vec![];
        for k in 0..n {
            frames.push(fr(false, 1 + (k % 2) as u8, &pat(200, k)));
            if k % 3 == 0 {
                frames.push(fr(true, 9, b"keepalive"));
            }
            frames.push(fr(false, 0, &pat(300, k)));
            frames.push(fr(k % 4 != 1, 0, &pat(99, k)));
            if k % 4 == 1 {
                frames.push(fr(true, 0, &pat(99, k)));
            }
        }
        match last {
            0 => {}
            1 => frames.push(fr(true, 2, &pat(301, 1))),
            2 => {
                frames.push(fr(false, 2, &pat(300, 1)));
                frames.push(fr(false, 0, &pat(300, 1)));
                frames.push(fr(false, 0, &pat(1, 1)));
            }
            _ => {
                for k in 0..14 {
                    frames.push(fr(false, if k == 0 { 1 } else { 0 }, b""));
                }
            }
        }
        frames.push(fr(true, 9, b"z"));
        let frames: Vec<Fr> = frames.into_iter().enumerate().map(|(k, f)| f.to(server, k)).collect();
        let bytes = wire(&frames);
        let e = ends(&frames);
        for entry in 0..ENTRIES {
            c.note = format!("{} server={} {} messages within the limits, ending {}", ENTRY_NAMES[entry], server, n, last);
            let (o, end) = limit_obs(entry, &bytes, &e, server, (fl, ml), c)?;
            check_obs(&bytes, RxModel::limits(server, fl as u64, ml as u64), end, &o)?;
            c.traces += 1;
        }
        c.state(&(server, n, last));
        Ok(())
    });
    // every split of a limited stream (limit accounting must not depend on chunking)
    let dd = x.tier(3, 4);
    x.section("message-limit/all-2-cuts", seq_count(k, dd), |c, i| {
        let s = seq_of(k, i);
        let server = hash_of(&s) % 2 == 0;
        let mut frames = vec![];
        let mut open = false;
        for (j, t) in s.iter().enumerate() {
            if *t < sizes.len() {
                let (fin, n) = sizes[*t];
                frames.push(fr(fin, if open { 0 } else { 2 }, &patb(n / 10, j)).to(server, j));
                open = !fin;
            } else {
                frames.push(fr(true, 9, b"").to(server, j));
            }
        }
        let bytes = wire(&frames);
        for ml in &[64usize, 65, 71, 128, 130, 135, 136, 142, 192, 200] {
            for cuts in cut_tuples(bytes.len(), 2) {
                let mut d = AsyncDec::new(server, (1 << 20, *ml));
                for ch in split_at(&bytes, &cuts) {
                    d.feed(&ch, c);
                }
                c.note = format!("server={} message limit {} frames {} cuts {:?}", server, ml, show(&frames), cuts);
                check_obs(&bytes, RxModel::limits(server, 1 << 20, *ml as u64), Ending::Open, &d.open_obs())?;
                c.traces += 1;
            }
        }
        c.state(&(server, &bytes));
        Ok(())
    });
    // default limits are in force when none are given
    x.section("default-limits", 6 * 2, |c, i| {
        let server = i % 2 == 1;
        let which = i / 2;
        let m = if server { 0x80u8 } else { 0 };
        for (want, bad) in &[((100u64 << 20) + 1, true), (100 << 20, false), (1 << 32, true), (1 << 40, true)] {
            let mut b = vec![0x82u8, m | 127];
            b.extend_from_slice(&want.to_be_bytes());
            if server {
                b.extend_from_slice(&KEYS[1]);
            }
            b.extend_from_slice(b"xyz");
            c.note = format!("server={} endpoint {} declared {}", server, which, want);
            let (o, end) = match which {
                0 => {
                    let mut d = AsyncDec::new(server, DEF);
                    d.feed(&b, c);
                    (d.open_obs(), Ending::Open)
                }
                1 => (reader_obs(Mock::with(&b, Tail::Eof), server, DEF, c), Ending::SyncEof),
                2 => {
                    let io = Mock::with(&b, Tail::Eof);
                    let mut cl = sync_client(&io, server, None)?;
                    (sync_obs(|| cl.recv_message(), c, 10), Ending::SyncEof)
                }
                3 => {
                    let io = Mock::with(&b, Tail::WouldBlock);
                    let f = async_client(&io, server, None)?;
                    (poll_stream(&mut executor::spawn(f), 1, c), Ending::Open)
                }
                4 => {
                    let io = Mock::with(&b, Tail::Eof);
                    let mut cl: websocket::client::sync::Client<Mock> =
                        websocket::client::sync::Client::unchecked(hyper::buffer::BufReader::new(io), hyper::header::Headers::new(), !server, server);
                    (sync_obs(|| cl.recv_message(), c, 10), Ending::SyncEof)
                }
                _ => {
                    let mut fd = FrameDec::new(server);
                    fd.feed(&b, c);
                    (vec![if fd.err.is_some() { Obs::Err(String::new()) } else { Obs::Pending }], Ending::Open)
                }
            };
            check_obs(&b, RxModel::new(server), end, &o)?;
            let _ = bad;
            c.state(&(which, server, want));
            c.trace(&o.len());
        }
        Ok(())
    });
    // fragment count
    x.section_t("fragment-count", 8, 4, |c, i| {
        let over = i % 2 == 1;
        let sync = i / 2 % 2 == 1;
        let with_ping = i / 4 == 1;
        // MAX_FRAGMENTS-1 unfinished fragments are fine, MAX_FRAGMENTS are not
        let n = MAX_FRAGMENTS as usize - 1 + over as usize;
        let mut bytes = Vec::with_capacity(n * 2 + 10);
        bytes.extend_from_slice(&[0x02, 0]);
        for k in 1..n {
            if with_ping && k == n / 2 {
                bytes.extend_from_slice(&[0x89, 0]);
            }
            bytes.extend_from_slice(&[0, 0]);
        }
        bytes.extend_from_slice(&[0x80, 1, b'e']);
        c.note = format!("blocking={} {} unfinished fragments, ping in the middle {}", sync, n, with_ping);
        let (o, end) = if sync {
            (reader_obs(Mock::with(&bytes, Tail::Eof), false, DEF, c), Ending::SyncEof)
        } else {
            let mut d = AsyncDec::new(false, DEF);
            d.feed(&bytes, c);
            (d.open_obs(), Ending::Open)
        };
        check_obs(&bytes, RxModel::new(false), end, &o)?;
        c.state(&i);
        c.trace(&o.len());
        Ok(())
    });
}

#[allow(dead_code)]
fn _unused<S: Stream>(_: S) {}
