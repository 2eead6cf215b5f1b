//! C10 (length), C11 (byte limits), C12 (slices).
use crate::core::*;
use crate::drive::{bc, finite};
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode};

// ---------------------------------------------------------------- probes

/// A decoder that records what it is shown.
#[derive(Debug, Clone)]
pub struct PD {
    /// Takes so many bytes for an item; `None`: everything up to end of stream.
    pub size: Option<u64>,
    pub seen: Vec<(usize, usize, Eos)>,
    pub taken: u64,
    pub idle: bool,
}
impl PD {
    pub fn new(size: Option<u64>) -> Self {
        PD { size, seen: vec![], taken: 0, idle: false }
    }
}
impl Decode for PD {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.seen.push((buf.as_ptr() as usize, buf.len(), eos));
        if self.idle {
            return Ok(0);
        }
        let n = match self.size {
            Some(s) => (s - self.taken).min(buf.len() as u64),
            None => buf.len() as u64,
        };
        self.taken += n;
        match self.size {
            Some(s) if self.taken == s => self.idle = true,
            Some(_) => {
                if eos.is_reached() {
                    return Err(err(ErrorKind::UnexpectedEos));
                }
            }
            None => self.idle = eos.is_reached(),
        }
        Ok(n as usize)
    }
    fn finish_decoding(&mut self) -> Result<u64> {
        if !self.idle {
            return Err(err(ErrorKind::IncompleteDecoding));
        }
        self.idle = false;
        Ok(std::mem::replace(&mut self.taken, 0))
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.size {
            _ if self.idle => ByteCount::Finite(0),
            Some(s) => ByteCount::Finite(s - self.taken),
            None => ByteCount::Infinite,
        }
    }
    fn is_idle(&self) -> bool {
        self.idle
    }
}

/// An encoder of items of a given number of bytes that records what it is shown; an item of
/// `ENDLESS` bytes extends to the end of the output.
#[derive(Debug, Clone, Default)]
pub struct PE {
    pub seen: Vec<(usize, Eos)>,
    pub size: u64,
    pub done: u64,
    pub busy: bool,
    /// Do not touch the buffers.
    pub ghost: bool,
}
pub const ENDLESS: u64 = u64::MAX;
pub fn pat(i: u64) -> u8 {
    (i * 5 + 3) as u8
}
impl Encode for PE {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.seen.push((buf.len(), eos));
        if !self.busy {
            return Ok(0);
        }
        let n = (self.size - self.done).min(buf.len() as u64);
        if !self.ghost {
            for (i, b) in buf[..n as usize].iter_mut().enumerate() {
                *b = pat(self.done + i as u64);
            }
        }
        self.done += n;
        if self.done == self.size || (self.size == ENDLESS && eos.is_reached()) {
            self.busy = false;
        } else if eos.is_reached() {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        Ok(n as usize)
    }
    fn start_encoding(&mut self, item: u64) -> Result<()> {
        if self.busy {
            return Err(err(ErrorKind::EncoderFull));
        }
        self.size = item;
        self.done = 0;
        self.busy = item > 0;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if !self.busy {
            ByteCount::Finite(0)
        } else if self.size == ENDLESS {
            ByteCount::Infinite
        } else {
            ByteCount::Finite(self.size - self.done)
        }
    }
    fn is_idle(&self) -> bool {
        !self.busy
    }
}
impl SizedEncode for PE {
    fn exact_requiring_bytes(&self) -> u64 {
        if self.busy {
            self.size - self.done
        } else {
            0
        }
    }
}

// ---------------------------------------------------------------- address space without memory
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
}
/// A buffer of several GiB which is never touched.
pub struct Virtual(*mut u8, usize);
impl Virtual {
    pub fn new(len: usize) -> Option<Self> {
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        if p as isize == -1 {
            None
        } else {
            Some(Virtual(p, len))
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
}
impl Drop for Virtual {
    fn drop(&mut self) {
        unsafe { munmap(self.0, self.1) };
    }
}

fn eoses(k: usize) -> Vec<Eos> {
    let mut v = vec![Eos::new(false), Eos::new(true), Eos::with_remaining_bytes(ByteCount::Infinite)];
    v.extend((1..=k as u64).map(finite));
    v
}

// ---------------------------------------------------------------- C10

pub fn c10(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    let x = usize::from(th);
    let nmax = 3 + x as u64;
    b.push(format!(
        "length decoders: lengths 0..={nmax}, all call sequences of 4 calls{} (chunk sizes 0..=n+2, every end-of-stream distance, length changes, early finish) over 2 items, around a recording decoder that is greedy or of every size 0..=n+1",
        if th { " (5 calls for lengths up to 1)" } else { "" }
    ));
    b.push("lengths and streams beyond 2^32 and up to 2^64-1, with buffers of up to 4 GiB + 5 bytes of address space".into());
    b.push("length encoders: lengths 0..=4 (5), changed between items, 2 (3) items of n-1..=n+2 bytes, empty or endless, all sequences of buffer sizes, at most 2 calls with an end-of-stream announcement".into());
    let mut us = vec![];
    for n in 0..=nmax {
        for inner in (0..=n + 1).map(Some).chain([None]) {
            us.push(unit(format!("decode length {n} inner {inner:?}"), move |ch| dec_ops(ch, n, inner, if th && n < 2 { 5 } else { 4 })));
        }
    }
    for inner in 0..4usize {
        us.push(unit(format!("decode real frame {inner}"), move |ch| dec_real(ch, inner)));
    }
    for (i, n) in BIG.iter().enumerate() {
        let n = *n;
        us.push(unit(format!("huge decode {i}"), move |ch| dec_huge(ch, n)));
        us.push(unit(format!("huge decode with huge buffers {i}"), move |ch| dec_virtual(ch, n)));
        us.push(unit(format!("huge encode {i}"), move |ch| enc_virtual(ch, n)));
    }
    for n in 0..=4 + x as u64 {
        us.push(unit(format!("encode length {n}"), move |ch| enc_ops(ch, n, if th && n < 4 { 3 } else { 2 })));
    }
    for k in 0..6usize {
        us.push(unit(format!("encode real {k}"), move |ch| enc_real(ch, k)));
    }
    us
}
const BIG: [u64; 10] = [
    (1 << 31) - 1,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 3,
    (1 << 32) + 65536,
    (1 << 53) + 1,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
];

fn dec_ops(ch: &mut Ch, n0: u64, inner: Option<u64>, depth: usize) -> Case {
    let mut n = n0;
    let mut d = PD::new(inner).length(n);
    let data: Vec<u8> = (0..64).collect();
    let (mut off, mut item) = (0usize, 0u64);
    let mut items = 0;
    let check = |d: &Length<PD>, n: u64, item: u64, what: &str| -> Case {
        if d.expected_bytes() != n || d.remaining_bytes() != n - item || d.requiring_bytes() != ByteCount::Finite(n - item) {
            return Err(format!(
                "after {what}: length {n}, {item} consumed, but expected_bytes={} remaining_bytes={} requiring_bytes={}",
                d.expected_bytes(),
                d.remaining_bytes(),
                bc(d.requiring_bytes())
            ));
        }
        Ok(())
    };
    check(&d, n, 0, "creation")?;
    for _ in 0..depth {
        let rem = n - item;
        let idle = d.is_idle();
        // the next operation: decode with a chunk size, finish, change the length
        let op = ch.pick(n0 as usize + 3 + 2);
        ch.state(&(n, item, idle, d.inner_ref().taken, items));
        if op < n0 as usize + 3 {
            let c = op;
            let es = eoses(n0 as usize + 2);
            let eos = *ch.of(&es);
            let buf = &data[off..off + c];
            let limit = (c as u64).min(rem) as usize;
            let required = rem - limit as u64;
            let before = d.inner_ref().seen.len();
            let was = d.inner_ref().taken;
            let r = d.decode(buf, eos);
            ch.step();
            ch.log(|| format!("decode({c}, {}) -> {} idle={}", bc(eos.remaining_bytes()), res(&r), d.is_idle()));
            let seen = &d.inner_ref().seen[before..];
            let short = matches!(eos.remaining_bytes(), ByteCount::Finite(x) if x < required);
            if idle {
                // an item waits: nothing may be consumed
                match r {
                    Ok(0) => {}
                    Ok(k) => return Err(format!("{k} bytes consumed while an item was ready")),
                    Err(_) if short => {}
                    Err(e) => return Err(format!("{:?} while an item was ready", e.kind())),
                }
                check(&d, n, item, "decode when ready")?;
                continue;
            }
            for (p, l, e) in seen {
                let want = (buf.as_ptr() as usize, limit, finite(required));
                if (*p, *l) != (want.0, want.1) || *e != want.2 {
                    return Err(format!(
                        "length {n}, {item} consumed, {c} bytes offered: inner decoder was shown {l} bytes at offset {} with {} to come, expected {limit} with {required} to come",
                        p.wrapping_sub(want.0),
                        bc(e.remaining_bytes())
                    ));
                }
            }
            if short {
                return match r {
                    Err(e) if *e.kind() == ErrorKind::UnexpectedEos => Ok(()),
                    r => Err(format!(
                        "length {n}, {item} consumed, {c} offered and {} to come: {}, expected UnexpectedEos",
                        bc(eos.remaining_bytes()),
                        res(&r)
                    )),
                };
            }
            // what a greedy or fixed inner decoder takes of the frame
            let (take, done, fails) = match inner {
                None => (limit as u64, required == 0, false),
                Some(s) => {
                    let t = (s - was).min(limit as u64);
                    (t, was + t == s, was + t < s && required == 0)
                }
            };
            match r {
                Err(e) if fails && *e.kind() == ErrorKind::UnexpectedEos => return Ok(()),
                // a frame that its decoder does not fill may be rejected at once
                Err(_) if done && item + take < n => return Ok(()),
                Err(e) => return Err(format!("length {n}, {item} consumed, {c} offered: {:?}", e.kind())),
                Ok(_) if fails => return Err(format!("length {n}: the inner decoder's error is lost")),
                Ok(k) => {
                    if k as u64 != take {
                        return Err(format!("length {n}, {item} consumed, {c} offered: {k} consumed, expected {take}"));
                    }
                    off += k;
                    item += take;
                    check(&d, n, item, "decode")?;
                    if d.is_idle() != done && !(done && item < n) {
                        return Err(format!("length {n}, {item} consumed: idle={}", d.is_idle()));
                    }
                }
            }
        } else if op == n0 as usize + 3 {
            let taken = d.inner_ref().taken;
            let complete = idle && item == n;
            let r = d.finish_decoding();
            ch.step();
            ch.log(|| format!("finish -> {}", res(&r)));
            match r {
                Ok(v) if complete && v == taken => {
                    item = 0;
                    items += 1;
                    check(&d, n, 0, "finishing an item")?;
                    if d.is_idle() {
                        return Err("ready for no reason".into());
                    }
                    if items == 2 {
                        ch.valid();
                        return Ok(());
                    }
                }
                Ok(v) => return Err(format!("length {n}, {item} consumed, ready={idle}: item {v} handed out")),
                Err(e) => {
                    if complete {
                        return Err(format!("item refused with {:?}", e.kind()));
                    }
                    if *e.kind() != ErrorKind::IncompleteDecoding {
                        return Err(format!("unfinished: {:?}, expected IncompleteDecoding", e.kind()));
                    }
                    check(&d, n, item, "finishing too early")?;
                    if idle {
                        return Ok(());
                    }
                }
            }
        } else {
            let m = [n0 + 1, 1, u64::MAX, 0][ch.pick(4)];
            let r = d.set_expected_bytes(m);
            ch.step();
            ch.log(|| format!("set_expected_bytes({m}) -> {}", res(&r)));
            if item > 0 {
                match r {
                    Err(e) if *e.kind() == ErrorKind::IncompleteDecoding => {}
                    r => return Err(format!("length changed within an item: {}", res(&r))),
                }
            } else if idle {
                // an empty item is waiting to be taken: both answers are defensible, stop here
                return Ok(());
            } else {
                match r {
                    Ok(()) => n = m,
                    Err(e) => return Err(format!("length not changed between items: {:?}", e.kind())),
                }
            }
            check(&d, n, item, "changing the length")?;
            if n > n0 + 2 {
                return Ok(());
            }
        }
    }
    Ok(())
}
/// Frames of real decoders; the bytes behind the frame are those of a second frame.
fn dec_real(ch: &mut Ch, k: usize) -> Case {
    let n = ch.pick(5) as u64;
    let total = n as usize * 2 + 1;
    let data: Vec<u8> = (0..total).map(|i| b'a' + i as u8).collect();
    fn go<D: Decode>(ch: &mut Ch, mut d: Length<D>, n: u64, data: &[u8], same: &dyn Fn(D::Item, &[u8]) -> bool) -> Case {
        let mut off = 0;
        for round in 0..2 {
            let start = off;
            while !d.is_idle() || off == start && n > 0 {
                let rest = data.len() - off;
                let c = rest - ch.pick(rest.min(n as usize + 2));
                let m = d.decode(&data[off..off + c], Eos::new(off + c == data.len())).map_err(|e| format!("round {round}: {:?}", e.kind()))?;
                ch.step();
                off += m;
                ch.state(&(off, round));
                if (off - start) as u64 > n || m == 0 && n > 0 {
                    return Err(format!("length {n}: {} bytes consumed (call took {m})", off - start));
                }
            }
            if (off - start) as u64 != n {
                return Err(format!("length {n}: ready after {} bytes", off - start));
            }
            let v = d.finish_decoding().map_err(|e| format!("finish: {:?}", e.kind()))?;
            if !same(v, &data[start..off]) {
                return Err(format!("length {n}: wrong item for {:?}", &data[start..off]));
            }
        }
        ch.valid();
        Ok(())
    }
    match k {
        0 => go(ch, RemainingBytesDecoder::new().length(n), n, &data, &|v, b| v == b),
        1 => go(ch, Utf8Decoder::new().length(n), n, &data, &|v, b| v.as_bytes() == b),
        2 => go(ch, U8Decoder::new().collect::<Vec<u8>>().length(n), n, &data, &|v, b| v == b),
        _ => go(ch, U8Decoder::new().collect::<Vec<u8>>().length(n).map(|x| x).length(n), n, &data, &|v, b| v == b),
    }
}
fn dec_huge(ch: &mut Ch, n: u64) -> Case {
    let greedy = ch.pick_bool();
    let mut d = PD::new(if greedy { None } else { Some(n) }).length(n);
    let data = [0u8; 16];
    let mut item = 0u64;
    for _ in 0..3 {
        let c = ch.pick(4);
        let after = n - item - c as u64;
        let es = [Eos::new(false), finite(after), finite(after.saturating_add(1)), finite(u64::MAX), finite(after - 1), finite(after & 0xffff_ffff), finite(1), Eos::new(true), Eos::with_remaining_bytes(ByteCount::Infinite)];
        let eos = *ch.of(&es);
        let r = d.decode(&data[..c], eos);
        ch.step();
        ch.state(&(n, item, c));
        let short = matches!(eos.remaining_bytes(), ByteCount::Finite(x) if x < after);
        ch.log(|| format!("length {n}: decode({c}, {}) -> {}", bc(eos.remaining_bytes()), res(&r)));
        match r {
            Err(e) if short && *e.kind() == ErrorKind::UnexpectedEos => return Ok(()),
            Ok(k) if !short && k == c => {}
            r => return Err(format!("length {n}, {item} consumed, {c} offered, {} to come: {}", bc(eos.remaining_bytes()), res(&r))),
        }
        item += c as u64;
        let s = d.inner_ref().seen.last().unwrap();
        if s.1 != c || s.2 != finite(after) {
            return Err(format!("length {n}, {item} consumed: inner decoder was shown {} bytes with {} to come", s.1, bc(s.2.remaining_bytes())));
        }
        if d.remaining_bytes() != after || d.requiring_bytes() != ByteCount::Finite(after) || d.expected_bytes() != n {
            return Err(format!("length {n}, {item} consumed: remaining_bytes {}", d.remaining_bytes()));
        }
        if d.is_idle() {
            return Err(format!("length {n}: ready after {item} bytes"));
        }
        match d.finish_decoding() {
            Err(e) if *e.kind() == ErrorKind::IncompleteDecoding => {}
            r => return Err(format!("length {n}: {} after {item} bytes", res(&r))),
        }
        if item > 0 && d.set_expected_bytes(5).is_ok() {
            return Err(format!("length changed after {item} bytes"));
        }
    }
    ch.valid();
    Ok(())
}
const GIB4: u64 = 1 << 32;
fn dec_virtual(ch: &mut Ch, n: u64) -> Case {
    let Some(m) = Virtual::new(GIB4 as usize + 5) else { return ch.skip() };
    let mut d = PD::new(None).length(n);
    let sizes = [GIB4, GIB4 + 5, GIB4 - 1, 3, GIB4 + 1, 1 << 31];
    let mut item = 0u64;
    for _ in 0..4 {
        if d.is_idle() {
            break;
        }
        let c = *ch.of(&sizes);
        let take = c.min(n - item);
        let r = d.decode(&m.get()[..c as usize], Eos::new(false));
        ch.step();
        item += take;
        ch.state(&(n, item));
        ch.log(|| format!("length {n}: decode({c}) -> {}", res(&r)));
        match r {
            Ok(k) if k as u64 == take => {}
            r => return Err(format!("length {n}: {c} offered, {} but {take} bytes belong to the frame", res(&r))),
        }
        if d.remaining_bytes() != n - item || d.inner_ref().taken != item || d.is_idle() != (item == n) {
            return Err(format!("length {n}, {item} consumed: remaining {} idle={}", d.remaining_bytes(), d.is_idle()));
        }
    }
    if d.is_idle() {
        match d.finish_decoding() {
            Ok(v) if v == n => {}
            r => return Err(format!("length {n}: {}", res(&r))),
        }
        if d.remaining_bytes() != n {
            return Err(format!("length {n}: {} remaining for the next item", d.remaining_bytes()));
        }
    }
    ch.valid();
    Ok(())
}
fn enc_virtual(ch: &mut Ch, n: u64) -> Case {
    let Some(mut m) = Virtual::new(GIB4 as usize + 5) else { return ch.skip() };
    let mut e = PE { ghost: true, ..Default::default() }.length(n);
    // the item is as long as the frame, longer, shorter, endless
    let size = *ch.of(&[n, n.saturating_add(1), n - 1, ENDLESS, n & 0xffff_ffff]);
    if size == 0 {
        return ch.skip();
    }
    e.start_encoding(size).map_err(|e| format!("start: {:?}", e.kind()))?;
    let sizes = [GIB4, GIB4 + 5, GIB4 - 1, 3, GIB4 + 1];
    let mut done = 0u64;
    for _ in 0..3 {
        if e.exact_requiring_bytes() != n - done || e.requiring_bytes() != ByteCount::Finite(n - done) {
            return Err(format!("length {n}, {done} emitted: {} announced", e.exact_requiring_bytes()));
        }
        let c = *ch.of(&sizes);
        let r = e.encode(&mut m.get_mut()[..c as usize], Eos::new(false));
        ch.step();
        ch.log(|| format!("length {n}, item {size}: encode({c}) -> {}", res(&r)));
        let cap = c.min(n - done);
        let left = size.saturating_sub(done);
        ch.state(&(n, size, done));
        let endless = size == ENDLESS;
        if !endless && left < cap || (!endless && left == cap && done + left < n) {
            return match r {
                Err(e) if *e.kind() == ErrorKind::InvalidInput => Ok(()),
                r => Err(format!("length {n}, item {size}, {done} emitted, buffer {c}: {}, expected InvalidInput", res(&r))),
            };
        }
        if !endless && left > cap && done + cap == n {
            return match r {
                Err(e) if *e.kind() == ErrorKind::UnexpectedEos => Ok(()),
                r => Err(format!("length {n}, item {size}, {done} emitted, buffer {c}: {}, expected UnexpectedEos", res(&r))),
            };
        }
        match r {
            Ok(k) if k as u64 == cap => {}
            r => return Err(format!("length {n}, item {size}, {done} emitted, buffer {c}: {}, expected {cap} bytes", res(&r))),
        }
        done += cap;
        if e.is_idle() != (done == n) {
            return Err(format!("length {n}: idle={} after {done}", e.is_idle()));
        }
        if e.is_idle() {
            if e.exact_requiring_bytes() != 0 {
                return Err("idle but announces bytes".into());
            }
            break;
        }
    }
    ch.valid();
    Ok(())
}
fn enc_ops(ch: &mut Ch, n0: u64, items: usize) -> Case {
    let mut n = n0;
    let mut e = PE::default().length(n);
    // deviations from an open-ended output, per execution
    let mut dev = 2;
    for _ in 0..items {
        if e.exact_requiring_bytes() != 0 || !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) {
            return Err(format!("no item, but {} bytes announced, idle={}", e.exact_requiring_bytes(), e.is_idle()));
        }
        // change the length between items
        if ch.pick_bool() {
            n = [n0 + 1, 1][ch.pick(2)];
            e.set_expected_bytes(n).map_err(|e| format!("length not changed between items: {:?}", e.kind()))?;
            if e.expected_bytes() != n {
                return Err(format!("length {} after setting it to {n}", e.expected_bytes()));
            }
        }
        let sizes = [n, n + 1, n.wrapping_sub(1), n + 2, 0, ENDLESS];
        let m = *ch.of(&sizes);
        if m == u64::MAX && n == 0 && ch.pick_bool() {
            return ch.skip();
        }
        let r = e.start_encoding(m);
        ch.step();
        ch.log(|| format!("length {n}: start({m}) -> {}", res(&r)));
        if m == 0 {
            match r {
                Ok(()) if n == 0 => continue,
                Err(e) if n > 0 && *e.kind() == ErrorKind::InvalidInput => continue,
                r => return Err(format!("length {n}: empty item: {}", res(&r))),
            }
        }
        r.map_err(|e| format!("item refused: {:?}", e.kind()))?;
        let mut out: Vec<u8> = vec![];
        loop {
            let done = out.len() as u64;
            if e.exact_requiring_bytes() != n - done || e.remaining_bytes() != n - done {
                return Err(format!("length {n}, {done} emitted, {} announced, {} remaining", e.exact_requiring_bytes(), e.remaining_bytes()));
            }
            if e.is_idle() {
                return Err("idle before the frame is complete".into());
            }
            match e.start_encoding(1) {
                Err(e) if *e.kind() == ErrorKind::EncoderFull => {}
                r => return Err(format!("busy encoder: {}", res(&r))),
            }
            if done > 0 {
                match e.set_expected_bytes(9) {
                    Err(_) => {}
                    Ok(()) => return Err(format!("length changed after {done} emitted bytes")),
                }
            }
            let c = if n - done > 3 { [6, 1, 0][ch.pick(3)] } else { (n - done) as usize + 1 - ch.pick((n - done) as usize + 2) };
            let es = [Eos::new(false), Eos::new(true), finite(2), Eos::with_remaining_bytes(ByteCount::Infinite)];
            let eos = if dev == 0 { es[0] } else { *ch.of(&es) };
            if eos != es[0] {
                dev -= 1;
            }
            let mut buf = vec![0xEE; c];
            let r = e.encode(&mut buf, eos);
            ch.step();
            ch.state(&(n, m, done, c));
            ch.log(|| format!("length {n}, item {m}: encode({c}, {}) -> {} idle={}", bc(eos.remaining_bytes()), res(&r), e.is_idle()));
            let cap = (c as u64).min(n - done);
            let left = m - done;
            if buf[cap as usize..].iter().any(|b| *b != 0xEE) {
                return Err(format!("length {n}: bytes written beyond the frame"));
            }
            let trunc = (c as u64) < n - done && eos.is_reached();
            let small = m != ENDLESS && left <= cap && done + left < n;
            let long = m != ENDLESS && left > cap && done + cap == n || m == ENDLESS && false;
            if trunc || small || long {
                match r {
                    Err(x) if trunc && *x.kind() == ErrorKind::UnexpectedEos => return Ok(()),
                    Err(x) if long && *x.kind() == ErrorKind::UnexpectedEos => return Ok(()),
                    Err(x) if small && *x.kind() == ErrorKind::InvalidInput => {
                        // rejected as too small; the encoder is idle and must be usable again
                        break;
                    }
                    r => return Err(format!("length {n}, item {m}, {done} emitted, buffer {c}, {} to come: {} (truncated={trunc} small={small} long={long})", bc(eos.remaining_bytes()), res(&r))),
                }
            }
            match r {
                Ok(k) if k as u64 == cap => out.extend(&buf[..k]),
                r => return Err(format!("length {n}, item {m}, {done} emitted, buffer {c}: {}, expected {cap} bytes", res(&r))),
            }
            if e.is_idle() != (out.len() as u64 == n) {
                return Err(format!("length {n}: idle={} after {} bytes", e.is_idle(), out.len()));
            }
            if e.is_idle() {
                if (0..n).any(|i| out[i as usize] != pat(i)) {
                    return Err(format!("length {n}: emitted {out:?}"));
                }
                ch.outcome(&(n, m));
                ch.valid();
                break;
            }
            if c == 0 {
                // one empty call is enough
                return Ok(());
            }
        }
        if !e.is_idle() {
            return Ok(());
        }
    }
    Ok(())
}
/// Real encoders within a frame: exactly n bytes, or failure of the right kind.
fn enc_real(ch: &mut Ch, k: usize) -> Case {
    let n = ch.pick(5) as u64;
    fn go<E: Encode>(ch: &mut Ch, mut e: Length<E>, n: u64, item: &dyn Fn() -> E::Item, bytes: Option<&[u8]>) -> Case {
        // a second round only after a success of the first
        for _ in 0..2 {
            let short = bytes.is_some_and(|b| (b.len() as u64) < n);
            let long = bytes.is_some_and(|b| b.len() as u64 > n);
            let c = 1 + ch.pick(n as usize + 1);
            let mut out: Vec<u8> = vec![];
            let r = (|| {
                e.start_encoding(item())?;
                while !e.is_idle() {
                    let mut b = vec![0xEE; c];
                    let m = e.encode(&mut b, Eos::new(false))?;
                    ch.step();
                    out.extend(&b[..m]);
                    if out.len() as u64 > n || b[m..].iter().any(|x| *x != 0xEE) || m == 0 && !e.is_idle() {
                        panic!("length {n}: {} bytes emitted, last call {m} of {c}", out.len());
                    }
                }
                Ok(())
            })();
            ch.log(|| format!("length {n}, buffers of {c}: {} -> {}", hex(&out), res(&r)));
            ch.outcome(&(n, res(&r)));
            if out.len() as u64 > n {
                return Err(format!("length {n}: {} bytes emitted", out.len()));
            }
            match r {
                Ok(()) if !short && !long => {
                    if out.len() as u64 != n || bytes.is_some_and(|b| b != out) {
                        return Err(format!("length {n}: emitted {out:?}, expected {bytes:?}"));
                    }
                    ch.valid();
                }
                Err(x) if short && *x.kind() == ErrorKind::InvalidInput || long && *x.kind() == ErrorKind::UnexpectedEos => return Ok(()),
                r => return Err(format!("length {n}, item {bytes:?}: {} (short={short}, long={long})", res(&r))),
            }
        }
        Ok(())
    }
    let l = if k == 1 || k == 5 { 0 } else { ch.pick(7) };
    let data: Vec<u8> = (0..l).map(|i| b'p' + i as u8).collect();
    let d2 = data.clone();
    match k {
        0 => go(ch, BytesEncoder::new().length(n), n, &|| d2.clone(), Some(&data)),
        1 => {
            if n == 0 {
                return ch.skip();
            }
            go(ch, bytecodec::padding::PaddingEncoder::new().length(n), n, &|| 9u8, Some(&vec![9u8; n as usize]))
        }
        2 => go(ch, Utf8Encoder::new().length(n), n, &|| String::from_utf8(d2.clone()).unwrap(), Some(&data)),
        3 => go(ch, U8Encoder::new().repeat().length(n), n, &|| d2.clone().into_iter(), Some(&data)),
        4 => go(ch, BytesEncoder::new().pre_encode().length(n), n, &|| d2.clone(), Some(&data)),
        _ => go(ch, U16beEncoder::new().length(n), n, &|| 0x0102, Some(&[1, 2])),
    }
}

// ---------------------------------------------------------------- C11

pub fn c11(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    let depth = if th { 5 } else { 4 };
    b.push(format!("limits 0..=4 and 2^64-1; every sequence of {depth} operations out of decode (chunks of 0..=3 bytes, end of stream unknown, reached, at a distance of 1..=3 or infinite), finish, set_max_bytes, around recording decoders"));
    b.push("limits, announced distances and buffers around 2^32, 2^63 and 2^64".into());
    b.push("encoders: limits 0..=4, 3 items of 0..=5 bytes, all buffer sizes, limit changes at any point".into());
    let mut us = vec![];
    for m in 0..=4u64 {
        for inner in [None, Some(2), Some(0), Some(4)] {
            us.push(unit(format!("decode max {m} inner {inner:?}"), move |ch| max_dec(ch, m, inner, depth)));
        }
        us.push(unit(format!("encode max {m}"), move |ch| max_enc(ch, m)));
        us.push(unit(format!("real encode max {m}"), move |ch| max_enc_real(ch, m)));
    }
    us.push(unit("decode huge", max_dec_huge));
    us.push(unit("decode virtual", max_dec_virtual));
    us.push(unit("encode virtual", max_enc_virtual));
    us
}
fn max_dec(ch: &mut Ch, m0: u64, inner: Option<u64>, depth: usize) -> Case {
    let mut m = m0;
    let mut d = PD::new(inner).max_bytes(m);
    let data = [7u8; 4];
    let mut item = 0u64;
    for i in 0..depth {
        if MaxBytes::max_bytes(&d) != m {
            return Err(format!("max_bytes() is {}, expected {m}", MaxBytes::max_bytes(&d)));
        }
        if !d.is_idle() && d.consumed_bytes() != item {
            return Err(format!("consumed_bytes() is {}, expected {item}", d.consumed_bytes()));
        }
        let op = ch.pick(if i == 0 { 5 } else { 6 });
        ch.state(&(m, item, d.is_idle(), op));
        match op {
            0..=3 => {
                let c = 3 - op;
                let es = eoses(3);
                let eos = *ch.of(&es);
                let before = d.inner_ref().seen.len();
                let was = (d.inner_ref().taken, d.is_idle());
                let r = d.decode(&data[..c], eos);
                ch.step();
                ch.log(|| format!("max {m}, {item} consumed: decode({c}, {}) -> {}", bc(eos.remaining_bytes()), res(&r)));
                let announced = match eos.remaining_bytes() {
                    ByteCount::Finite(n) => Some(n),
                    ByteCount::Infinite => None,
                    ByteCount::Unknown => Some(0),
                };
                let over = announced.map_or(true, |a| item + c as u64 + a > m);
                let calls = &d.inner_ref().seen[before..];
                if over {
                    if was.1 {
                        // an item is ready: no verdict on what else is offered, but nothing is consumed
                        match r {
                            Ok(n) if n > 0 => return Err(format!("{n} bytes consumed while ready")),
                            _ => continue,
                        }
                    }
                    match r {
                        Err(e) if *e.kind() == ErrorKind::InvalidInput => {}
                        r => return Err(format!("max {m}, {item} consumed, {c} offered, {} to come: {}, expected InvalidInput", bc(eos.remaining_bytes()), res(&r))),
                    }
                    if d.inner_ref().taken + item - was.0 > m {
                        return Err(format!("the inner decoder was shown more than {m} bytes"));
                    }
                    return Ok(());
                }
                if calls.iter().any(|x| x.0 != data.as_ptr() as usize || x.1 != c || x.2 != eos) || calls.is_empty() {
                    return Err(format!("max {m}: inner decoder was called with {calls:?} instead of {c} bytes, {eos:?}"));
                }
                let (take, fails) = match inner {
                    _ if was.1 => (0, false),
                    None => (c as u64, false),
                    Some(s) => {
                        let t = (s - was.0).min(c as u64);
                        (t, was.0 + t < s && eos.is_reached())
                    }
                };
                match r {
                    Err(e) if fails && *e.kind() == ErrorKind::UnexpectedEos => return Ok(()),
                    Ok(n) if !fails && n as u64 == take => item += take,
                    r => return Err(format!("max {m}, {item} consumed, {c} offered, {} to come: {}, expected {take} (failing={fails})", bc(eos.remaining_bytes()), res(&r))),
                }
            }
            4 => {
                let ready = d.is_idle();
                let r = d.finish_decoding();
                ch.step();
                ch.log(|| format!("finish -> {}", res(&r)));
                match r {
                    Ok(v) if ready && v == item => {
                        item = 0;
                        ch.valid();
                    }
                    Err(e) if !ready && *e.kind() == ErrorKind::IncompleteDecoding => {}
                    r => return Err(format!("finish with ready={ready}: {}", res(&r))),
                }
            }
            _ => {
                let v = ch.pick(6) as u64;
                let r = d.set_max_bytes(v);
                ch.step();
                ch.log(|| format!("set_max_bytes({v}) -> {}", res(&r)));
                match r {
                    Ok(()) if v >= item => m = v,
                    Err(e) if v < item && *e.kind() == ErrorKind::InvalidInput => {}
                    r => return Err(format!("set_max_bytes({v}) with {item} bytes consumed: {}", res(&r))),
                }
            }
        }
    }
    Ok(())
}
fn max_dec_huge(ch: &mut Ch) -> Case {
    const N: [u64; 8] = [0, 3, GIB4 - 1, GIB4, GIB4 + 2, 1 << 63, u64::MAX - 1, u64::MAX];
    let m = *ch.of(&N);
    let a = *ch.of(&N);
    let pre = ch.pick(3);
    let c = ch.pick(4);
    let data = [0; 8];
    let mut d = PD::new(None).max_bytes(m);
    if pre as u64 > m {
        return ch.skip();
    }
    d.decode(&data[..pre], Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
    let sum = pre as u128 + c as u128 + a as u128;
    if sum > u64::MAX as u128 && m >= u64::MAX - 8 {
        return ch.skip();
    }
    let r = d.decode(&data[..c], finite(a));
    ch.steps(2);
    ch.state(&(m, a, pre, c));
    ch.log(|| format!("max {m}, {pre} consumed: decode({c}, {a} to come) -> {}", res(&r)));
    match r {
        Ok(n) if sum <= u128::from(m) && n == c => ch.valid(),
        Err(e) if sum > u128::from(m) && *e.kind() == ErrorKind::InvalidInput => ch.valid(),
        r => return Err(format!("max {m}, {pre} consumed, {c} offered, {a} to come: {}", res(&r))),
    }
    // unknown distance
    let mut d = PD::new(None).max_bytes(m);
    d.decode(&data[..pre], Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
    match d.decode(&data[..c], Eos::new(false)) {
        Ok(n) if (pre + c) as u64 <= m && n == c => {}
        Err(e) if (pre + c) as u64 > m && *e.kind() == ErrorKind::InvalidInput => {}
        r => return Err(format!("max {m}, {pre} consumed, {c} offered: {}", res(&r))),
    }
    Ok(())
}
fn max_dec_virtual(ch: &mut Ch) -> Case {
    let Some(v) = Virtual::new(GIB4 as usize + 5) else { return ch.skip() };
    let m = *ch.of(&[GIB4, GIB4 + 3, GIB4 * 2, GIB4 - 1, 3, u64::MAX]);
    let sizes = [GIB4, GIB4 + 1, GIB4 - 1, 2, GIB4 + 3];
    let mut d = PD::new(None).max_bytes(m);
    let mut item = 0;
    for _ in 0..3 {
        let c = *ch.of(&sizes);
        let r = d.decode(&v.get()[..c as usize], Eos::new(false));
        ch.step();
        ch.state(&(m, item));
        match r {
            Ok(n) if item + c <= m && n as u64 == c => item += c,
            Err(e) if item + c > m && *e.kind() == ErrorKind::InvalidInput => return Ok(()),
            r => return Err(format!("max {m}, {item} consumed, {c} offered: {}", res(&r))),
        }
        if d.consumed_bytes() != item {
            return Err(format!("{} bytes consumed, expected {item}", d.consumed_bytes()));
        }
    }
    ch.valid();
    Ok(())
}
fn max_enc_virtual(ch: &mut Ch) -> Case {
    let Some(mut v) = Virtual::new(GIB4 as usize + 5) else { return ch.skip() };
    let m = *ch.of(&[GIB4, GIB4 + 3, GIB4 * 2, GIB4 - 1, 3, u64::MAX]);
    let sizes = [GIB4, GIB4 + 1, GIB4 - 1, 2, GIB4 + 3];
    let mut e = PE { ghost: true, ..Default::default() }.max_bytes(m);
    e.start_encoding(1 << 62).map_err(|e| format!("{:?}", e.kind()))?;
    let mut item = 0;
    for _ in 0..3 {
        let c = *ch.of(&sizes);
        let r = e.encode(&mut v.get_mut()[..c as usize], Eos::new(false));
        ch.step();
        ch.state(&(m, item));
        match r {
            Ok(n) if item + c <= m && n as u64 == c => item += c,
            Err(e) if item + c > m && *e.kind() == ErrorKind::InvalidInput => return Ok(()),
            r => return Err(format!("max {m}, {item} emitted, buffer {c}: {}", res(&r))),
        }
        if e.consumed_bytes() != item {
            return Err(format!("{} bytes counted, expected {item}", e.consumed_bytes()));
        }
    }
    ch.valid();
    Ok(())
}
fn max_enc(ch: &mut Ch, m0: u64) -> Case {
    let mut m = m0;
    let mut e = PE::default().max_bytes(m);
    // limit changes per execution
    let mut dev = 2;
    for _ in 0..3 {
        let size = [0u64, 2, 4, 1, 5, 3][ch.pick(6)];
        e.start_encoding(size).map_err(|e| format!("start: {:?}", e.kind()))?;
        ch.step();
        let mut done = 0u64;
        while !e.is_idle() {
            if e.consumed_bytes() != done {
                return Err(format!("{} bytes counted, expected {done}", e.consumed_bytes()));
            }
            match e.start_encoding(1) {
                Err(x) if *x.kind() == ErrorKind::EncoderFull => {}
                r => return Err(format!("busy encoder: {}", res(&r))),
            }
            // change the limit?
            match if dev == 0 { 0 } else { ch.pick(4) } {
                0 => {}
                i => {
                    dev -= 1;
                    let v = [0, done, done + 2, 5][i];
                    match e.set_max_bytes(v) {
                        Ok(()) if v >= done => m = v,
                        Err(x) if v < done && *x.kind() == ErrorKind::InvalidInput => {}
                        r => return Err(format!("set_max_bytes({v}) with {done} bytes emitted: {}", res(&r))),
                    }
                    if done > 0 {
                        match e.set_max_bytes(done - 1) {
                            Err(x) if *x.kind() == ErrorKind::InvalidInput => {}
                            r => return Err(format!("set_max_bytes({}) with {done} bytes emitted: {}", done - 1, res(&r))),
                        }
                    }
                    if MaxBytes::max_bytes(&e) != m {
                        return Err(format!("limit {}, expected {m}", MaxBytes::max_bytes(&e)));
                    }
                }
            }
            let c = 1 + ch.pick((size - done) as usize);
            let mut buf = vec![0; c];
            let r = e.encode(&mut buf, Eos::new(false));
            ch.step();
            let n = (c as u64).min(size - done);
            ch.state(&(m, size, done, c));
            ch.log(|| format!("max {m}, item {size}, {done} emitted: encode({c}) -> {}", res(&r)));
            match r {
                Err(x) if done + n > m && *x.kind() == ErrorKind::InvalidInput => return Ok(()),
                Ok(k) if done + n <= m && k as u64 == n => done += n,
                r => return Err(format!("max {m}, item {size}, {done} emitted, buffer {c}: {}", res(&r))),
            }
        }
        if done != size {
            return Err(format!("idle after {done} of {size} bytes"));
        }
        ch.valid();
    }
    Ok(())
}
fn max_enc_real(ch: &mut Ch, m: u64) -> Case {
    fn go<E: Encode>(ch: &mut Ch, mut e: MaxBytes<E>, m: u64, mk: &dyn Fn(usize) -> E::Item) -> Case {
        for _ in 0..3 {
            let size = ch.pick(6);
            let c = 1 + ch.pick(5);
            e.start_encoding(mk(size)).map_err(|e| format!("start: {:?}", e.kind()))?;
            let mut done = 0usize;
            loop {
                let mut buf = vec![0; c];
                let eos = Eos::new(done + c > size);
                let r = e.encode(&mut buf, eos);
                ch.step();
                let n = c.min(size - done);
                ch.state(&(m, size, done, c));
                match r {
                    Err(x) if (done + n) as u64 > m && *x.kind() == ErrorKind::InvalidInput => return Ok(()),
                    Ok(k) if (done + n) as u64 <= m && k == n => done += n,
                    r => return Err(format!("max {m}, item of {size}, {done} emitted, buffer {c}: {}", res(&r))),
                }
                if e.is_idle() {
                    break;
                }
            }
            if done != size {
                return Err(format!("idle after {done} of {size} bytes"));
            }
        }
        ch.valid();
        Ok(())
    }
    match ch.pick(3) {
        0 => go(ch, BytesEncoder::new().max_bytes(m), m, &|n| vec![1u8; n]),
        1 => go(ch, U8Encoder::new().repeat().max_bytes(m), m, &|n| vec![1u8; n].into_iter()),
        _ => go(ch, Utf8Encoder::new().pre_encode().max_bytes(m), m, &|n| "x".repeat(n)),
    }
}

// ---------------------------------------------------------------- C12

pub fn c12(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    let x = usize::from(th);
    b.push("recording codec inside a slice: every sequence of 3 calls, budgets 0..=4 set before any call, chunks/buffers of 0..=4 bytes, every end-of-stream distance up to 3".into());
    if th {
        b.push("the same: every sequence of 4 calls, chunks/buffers of 0, 1, 2 or 4 bytes, every end-of-stream distance up to 2".into());
    }
    b.push("2 and 3 sliced encoders of 8 kinds multiplexed by every schedule of (stream, budget 0..=3) and buffer slack 0/2, demultiplexed by the same schedule with chunks of 1 byte, 2 bytes or everything available; two items per stream in part".into());
    b.push("budgets and buffers beyond 2^32".into());
    let mut us = vec![];
    for kind in [None, Some(3u64), Some(0)] {
        us.push(unit(format!("decode inner {kind:?}"), move |ch| slice_dec(ch, kind, 3)));
        if th {
            us.push(unit(format!("deep: decode inner {kind:?}"), move |ch| slice_dec(ch, kind, 4)));
        }
    }
    for size in [0u64, 1, 3, 5, ENDLESS] {
        us.push(unit(format!("encode item {size}"), move |ch| slice_enc(ch, size, 3)));
        if th {
            us.push(unit(format!("deep: encode item {size}"), move |ch| slice_enc(ch, size, 4)));
        }
    }
    us.push(unit("virtual", slice_virtual));
    for i in 0..KINDS_N {
        for j in 0..KINDS_N {
            us.push(unit(format!("mux {i} {j}"), move |ch| mux(ch, &[i, j], 3, 1)));
        }
    }
    for i in 0..KINDS_N {
        let j = (i + 3) % KINDS_N;
        us.push(unit(format!("mux three {i}"), move |ch| mux(ch, &[i, j, (i + 5) % KINDS_N], 2 + x, 1)));
        us.push(unit(format!("mux two items {i}"), move |ch| mux(ch, &[i, (i + 1) % KINDS_N], 2 + x, 2)));
    }
    us.extend(super::gate::units(th, b));
    // the biggest spaces last, in case the time runs out
    us.sort_by_key(|u| u.label.starts_with("deep"));
    us
}
fn slice_size(ch: &mut Ch, depth: usize) -> (usize, Vec<Eos>) {
    if depth > 3 {
        ([4, 2, 1, 0][ch.pick(4)], eoses(2))
    } else {
        (4 - ch.pick(5), eoses(3))
    }
}
fn slice_dec(ch: &mut Ch, kind: Option<u64>, depth: usize) -> Case {
    let mut d = PD::new(kind).slice();
    let data = [9u8; 8];
    let mut budget = 0u64;
    if d.consumable_bytes() != 0 || !d.is_suspended() {
        return Err("a new slice is not suspended".into());
    }
    for _ in 0..depth {
        match ch.pick(7) {
            0 => {}
            1 => {
                let ready = d.is_idle();
                let want = d.inner_ref().taken;
                let r = d.finish_decoding();
                match r {
                    Ok(v) if ready && v == want => {}
                    Err(e) if !ready && *e.kind() == ErrorKind::IncompleteDecoding => {}
                    r => return Err(format!("finish with ready={ready}: {}", res(&r))),
                }
                if d.consumable_bytes() != budget {
                    return Err(format!("finishing changed the budget from {budget} to {}", d.consumable_bytes()));
                }
            }
            i => {
                budget = i as u64 - 2;
                d.set_consumable_bytes(budget);
            }
        }
        let (c, es) = slice_size(ch, depth);
        let eos = *ch.of(&es);
        let before = d.inner_ref().seen.len();
        let was = (d.inner_ref().taken, d.is_idle());
        let r = d.decode(&data[..c], eos);
        ch.step();
        ch.state(&(budget, c, was));
        ch.log(|| format!("budget {budget}: decode({c}, {}) -> {}", bc(eos.remaining_bytes()), res(&r)));
        let limit = (c as u64).min(budget);
        let back = c as u64 - limit;
        let want = match eos.remaining_bytes() {
            ByteCount::Finite(n) => finite(n + back),
            _ => eos,
        };
        for s in &d.inner_ref().seen[before..] {
            if s.0 != data.as_ptr() as usize || s.1 as u64 != limit || s.2 != want {
                return Err(format!(
                    "budget {budget}, {c} bytes with {} to come: inner decoder was shown {} bytes with {} to come",
                    bc(eos.remaining_bytes()),
                    s.1,
                    bc(s.2.remaining_bytes())
                ));
            }
        }
        let (take, fails) = match kind {
            _ if was.1 => (0, false),
            None => (limit, false),
            Some(s) => {
                let t = (s - was.0).min(limit);
                (t, was.0 + t < s && want.is_reached())
            }
        };
        match r {
            Err(e) if fails && *e.kind() == ErrorKind::UnexpectedEos => return Ok(()),
            Ok(n) if !fails && n as u64 == take => budget -= take,
            r => return Err(format!("budget {budget}, {c} bytes with {} to come: {}, expected {take} (failing={fails})", bc(eos.remaining_bytes()), res(&r))),
        }
        if d.consumable_bytes() != budget || d.is_suspended() != (budget == 0) {
            return Err(format!("budget {} (suspended={}), expected {budget}", d.consumable_bytes(), d.is_suspended()));
        }
        let idle = d.inner_ref().idle;
        if d.is_idle() != idle || d.requiring_bytes() != d.inner_ref().requiring_bytes() {
            return Err("slice and inner decoder disagree".into());
        }
    }
    ch.valid();
    Ok(())
}
fn slice_enc(ch: &mut Ch, size: u64, depth: usize) -> Case {
    let mut e = PE::default().slice();
    e.start_encoding(size).map_err(|e| format!("start: {:?}", e.kind()))?;
    let mut budget = 0u64;
    let mut done = 0u64;
    for _ in 0..depth {
        match ch.pick(6) {
            0 => {}
            i => {
                budget = i as u64 - 1;
                e.set_consumable_bytes(budget);
            }
        }
        let (c, es) = slice_size(ch, depth);
        let eos = *ch.of(&es);
        let before = e.inner_ref().seen.len();
        let busy = !e.is_idle();
        let mut buf = [0xEEu8; 4];
        let r = e.encode(&mut buf[..c], eos);
        ch.step();
        ch.state(&(budget, c, done));
        ch.log(|| format!("budget {budget}: encode({c}, {}) -> {}", bc(eos.remaining_bytes()), res(&r)));
        let limit = (c as u64).min(budget);
        let back = c as u64 - limit;
        let want = match eos.remaining_bytes() {
            ByteCount::Finite(n) => finite(n + back),
            _ => eos,
        };
        for s in &e.inner_ref().seen[before..] {
            if s.0 as u64 != limit || s.1 != want {
                return Err(format!("budget {budget}, buffer {c} with {} to come: inner encoder was given {} bytes with {} to come", bc(eos.remaining_bytes()), s.0, bc(s.1.remaining_bytes())));
            }
        }
        let take = if busy { limit.min(size - done) } else { 0 };
        let fails = busy && size != ENDLESS && want.is_reached() && done + take < size;
        match r {
            Err(x) if fails && *x.kind() == ErrorKind::UnexpectedEos => return Ok(()),
            Ok(n) if !fails && n as u64 == take => {
                if (0..n).any(|i| buf[i] != pat(done + i as u64)) || buf[n..].iter().any(|x| *x != 0xEE) {
                    return Err(format!("wrong bytes {buf:?}"));
                }
                done += take;
                budget -= take;
            }
            r => return Err(format!("budget {budget}, buffer {c}: {}, expected {take}", res(&r))),
        }
        if e.consumable_bytes() != budget || e.is_suspended() != (budget == 0) {
            return Err(format!("budget {} (suspended={}), expected {budget}", e.consumable_bytes(), e.is_suspended()));
        }
        if e.is_idle() != !e.inner_ref().busy || e.requiring_bytes() != e.inner_ref().requiring_bytes() || e.exact_requiring_bytes() != e.inner_ref().exact_requiring_bytes() {
            return Err("slice and inner encoder disagree".into());
        }
    }
    ch.valid();
    Ok(())
}
fn slice_virtual(ch: &mut Ch) -> Case {
    let Some(mut v) = Virtual::new(GIB4 as usize + 5) else { return ch.skip() };
    const N: [u64; 7] = [3, GIB4 - 1, GIB4, GIB4 + 2, GIB4 * 2 + 1, 1 << 63, u64::MAX];
    let b = *ch.of(&N);
    let c = *ch.of(&[GIB4 + 5, GIB4 + 1, GIB4, 2]);
    let left = *ch.of(&[0, 3, u64::MAX - 1, GIB4]);
    let mut d = PD::new(None).slice();
    d.set_consumable_bytes(b);
    let mut e = PE { ghost: true, ..Default::default() }.slice();
    e.start_encoding(1 << 62).map_err(|e| format!("{:?}", e.kind()))?;
    e.set_consumable_bytes(b);
    let mut budget = b;
    for _ in 0..3 {
        let take = budget.min(c);
        let far = left.saturating_add(c - take);
        let r = d.decode(&v.get()[..c as usize], finite(left));
        let r2 = e.encode(&mut v.get_mut()[..c as usize], finite(left.saturating_add(1)));
        ch.steps(2);
        budget -= take;
        ch.state(&(b, c, left, budget));
        if !matches!(r, Ok(n) if n as u64 == take) || !matches!(r2, Ok(n) if n as u64 == take) {
            return Err(format!("budget {b}, {c} bytes: {} / {}, expected {take}", res(&r), res(&r2)));
        }
        let s = d.inner_ref().seen.last().unwrap();
        if s.1 as u64 != take || s.2 != finite(far) {
            return Err(format!("budget {b}, {c} bytes, {left} to come: inner decoder was shown {} bytes with {} to come", s.1, bc(s.2.remaining_bytes())));
        }
        if d.consumable_bytes() != budget || e.consumable_bytes() != budget {
            return Err(format!("budget {} / {}, expected {budget}", d.consumable_bytes(), e.consumable_bytes()));
        }
        if d.is_idle() {
            break;
        }
    }
    ch.valid();
    Ok(())
}

const KINDS_N: usize = 8;
/// Pairs of codecs whose items end by themselves.
fn stream(kind: usize, item: usize) -> (Box<dyn Encode<Item = V>>, Box<dyn Decode<Item = V>>, V) {
    fn b(v: V) -> Vec<u8> {
        match v {
            V::B(b) => b,
            v => panic!("HARNESS: {v:?}"),
        }
    }
    fn n(v: V) -> u64 {
        match v {
            V::N(n) => n,
            v => panic!("HARNESS: {v:?}"),
        }
    }
    let x = (item * 40 + kind) as u8;
    match kind {
        0 => (Box::new(U32beEncoder::new().map_from(|v| n(v) as u32)), Box::new(U32beDecoder::new().map(|v| V::N(v.into()))), V::N(0x0102_0300 + x as u64)),
        1 => (Box::new(BytesEncoder::<[u8; 3]>::new().map_from(|v| <[u8; 3]>::try_from(&b(v)[..]).unwrap())), Box::new(CopyableBytesDecoder::<[u8; 3]>::new([0u8; 3]).map(|v| V::B(v.to_vec()))), V::B(vec![x, 11, 12])),
        2 => (
            // a length prefix
            Box::new(bytecodec::tuple::TupleEncoder::<(U8Encoder, BytesEncoder)>::default().map_from(|v| {
                let v = b(v);
                (v.len() as u8, v)
            })),
            Box::new(U8Decoder::new().and_then(|n| RemainingBytesDecoder::new().length(n.into())).map(V::B)),
            V::B(vec![x, 21]),
        ),
        3 => (Box::new(U8Encoder::new().repeat().map_from(|v| b(v).into_iter())), Box::new(U8Decoder::new().collect::<Vec<u8>>().length(3).map(V::B)), V::B(vec![x, 31, 32])),
        4 => (Box::new(Utf8Encoder::new().length(3).map_from(|v| String::from_utf8(b(v)).unwrap())), Box::new(Utf8Decoder::new().length(3).map(|s| V::B(s.into_bytes()))), V::B("aé".as_bytes().to_vec())),
        5 => (Box::new(U8Encoder::new().map_from(|v| n(v) as u8)), Box::new(U8Decoder::new().map(|v| V::N(v.into()))), V::N(x.into())),
        6 => (
            Box::new(BytesEncoder::new().pre_encode().max_bytes(9).map_from(b)),
            Box::new(U8Decoder::new().peekable().and_then(|_| U16leDecoder::new()).map(|v| V::B(vec![1, v as u8, (v >> 8) as u8]))),
            V::B(vec![1, x, 62]),
        ),
        _ => (
            Box::new(U16beEncoder::new().map_from(|v| n(v) as u16).slice_always()),
            Box::new(U16beDecoder::new().map(|v| V::N(v.into())).slice_always()),
            V::N(0x0700 + x as u64),
        ),
    }
}
/// A slice inside the slice, with a budget that is never used up.
trait Always: Sized {
    fn slice_always(self) -> Slice<Self>;
}
impl<T> Always for T
where
    T: Sized + SliceOf,
{
    fn slice_always(self) -> Slice<Self> {
        let mut s = T::slice_of(self);
        s.set_consumable_bytes(u64::MAX);
        s
    }
}
pub trait SliceOf: Sized {
    fn slice_of(self) -> Slice<Self>;
}
impl<C, T, F> SliceOf for MapFrom<C, T, F>
where
    C: Encode,
    F: Fn(T) -> C::Item,
{
    fn slice_of(self) -> Slice<Self> {
        EncodeExt::slice(self)
    }
}
impl<C, T, F> SliceOf for Map<C, T, F>
where
    C: Decode,
    F: Fn(C::Item) -> T,
{
    fn slice_of(self) -> Slice<Self> {
        DecodeExt::slice(self)
    }
}
fn mux(ch: &mut Ch, kinds: &[usize], free: usize, rounds: usize) -> Case {
    let mut es = vec![];
    let mut ds = vec![];
    let mut want: Vec<Vec<V>> = vec![];
    for &k in kinds {
        let (e, d, _) = stream(k, 0);
        es.push(EncodeExt::slice(e));
        ds.push(DecodeExt::slice(d));
        want.push((0..rounds).map(|r| stream(k, r).2).collect());
    }
    // Multiplex: at most `free` decisions are free, then round robin with budgets of 2.
    let n = kinds.len();
    let mut next = vec![0usize; n];
    let mut out: Vec<u8> = vec![];
    let mut schedule: Vec<(usize, u64, usize)> = vec![];
    let slack = [0usize, 2][ch.pick(2)];
    let mut turn = 0;
    loop {
        let live: Vec<usize> = (0..n).filter(|&i| !es[i].is_idle() || next[i] < rounds).collect();
        if live.is_empty() {
            break;
        }
        let (i, budget) = if schedule.len() < free {
            (live[ch.pick(live.len())], [2u64, 1, 3, 0][ch.pick(4)])
        } else {
            turn += 1;
            (live[turn % live.len()], 2)
        };
        let e = &mut es[i];
        if e.is_idle() {
            e.start_encoding(want[i][next[i]].clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
            next[i] += 1;
        }
        e.set_consumable_bytes(budget);
        let mut buf = vec![0xEE; budget as usize + slack];
        let m = e.encode(&mut buf, Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
        ch.step();
        if m as u64 > budget || buf[m..].iter().any(|b| *b != 0xEE) {
            return Err(format!("budget {budget}: {m} bytes reported, buffer {buf:?}"));
        }
        if e.consumable_bytes() != budget - m as u64 {
            return Err(format!("budget {budget}, {m} bytes written, {} left", e.consumable_bytes()));
        }
        if !e.is_idle() && m as u64 != budget {
            return Err(format!("busy encoder used {m} of its budget of {budget}"));
        }
        out.extend(&buf[..m]);
        schedule.push((i, budget, m));
        ch.log(|| format!("stream {i} budget {budget}: {m} bytes {:02x?}", &buf[..m]));
        ch.state(&(i, budget, m, out.len()));
        if schedule.len() > 64 {
            return Err("an encoder does not progress".into());
        }
    }
    // Demultiplex.
    let k = [usize::MAX, 1, 2][ch.pick(3)];
    let mut pos = 0;
    let mut got: Vec<Vec<V>> = vec![vec![]; n];
    for &(i, budget, m) in &schedule {
        let d = &mut ds[i];
        d.set_consumable_bytes(budget);
        let mut used = 0;
        loop {
            let c = k.min(out.len() - pos);
            let left = (out.len() - pos - c) as u64;
            let r = d.decode(&out[pos..pos + c], finite(left)).map_err(|e| format!("stream {i}, budget {budget}: decode: {:?}", e.kind()));
            ch.step();
            let r = match r {
                Ok(r) => r,
                // the stream ends here and this item with it
                Err(e) => return Err(e),
            };
            pos += r;
            used += r;
            if d.consumable_bytes() != budget - used as u64 {
                return Err(format!("stream {i}: {used} of {budget} used, {} left", d.consumable_bytes()));
            }
            if d.is_idle() || d.is_suspended() || r == 0 {
                break;
            }
        }
        if used != m {
            return Err(format!("stream {i}: the decoder took {used} bytes of a segment of {m}"));
        }
        if d.is_idle() {
            got[i].push(d.finish_decoding().map_err(|e| format!("finish: {:?}", e.kind()))?);
        }
    }
    if got != want {
        return Err(format!("decoded {got:?}, expected {want:?}"));
    }
    ch.outcome(&out);
    ch.valid();
    Ok(())
}
