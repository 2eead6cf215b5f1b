//! Buffers and requirements whose sizes are too large to enumerate: every position around a power of two.
use crate::core::*;
use crate::val::*;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::io::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, Eos, ErrorKind, SizedEncode};
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::OnceLock;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

/// Capacities.
pub fn caps(th: bool) -> Vec<usize> {
    let ps: &[usize] = if th { &[16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { &[16, 64, 128, 256, 1024, 4096, 8192, 32768, 65536] };
    let mut v: Vec<usize> = ps.iter().flat_map(|p| [p - 1, *p, p + 1, p + 9]).collect();
    v.extend([100, 1000, 5000, 70_000]);
    if th {
        v.extend([131_072, 140_000]);
    }
    v
}
/// The bytes of an endless stream with no period among the powers of two.
fn stream() -> &'static [u8] {
    static S: OnceLock<Vec<u8>> = OnceLock::new();
    S.get_or_init(|| (0..1usize << 20).map(|i| (i * 7 + i / 251 + i / 65_521) as u8).collect())
}
/// Sizes of transfers in a buffer of `cap` bytes.
fn sizes(cap: usize) -> Vec<usize> {
    let p = cap.next_power_of_two() / 2;
    let mut v = vec![1, cap / 2, p.saturating_sub(1), p, p + 1, cap - 2, cap - 1, cap];
    v.sort_unstable();
    v.dedup();
    v.retain(|x| (1..=cap).contains(x));
    v
}
/// Delivers or takes so many bytes at a time, then blocks.
struct Chan {
    pos: usize,
    script: Vec<usize>,
    calls: usize,
    ok: bool,
}
impl Chan {
    fn get(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.ok &= !buf.is_empty();
        match self.script.pop() {
            None => Err(io::ErrorKind::WouldBlock.into()),
            Some(n) => {
                let n = n.min(buf.len());
                buf[..n].copy_from_slice(&stream()[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
    fn put(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        self.ok &= !buf.is_empty();
        match self.script.pop() {
            None => Err(io::ErrorKind::WouldBlock.into()),
            Some(n) => {
                let n = n.min(buf.len());
                self.ok &= buf == &stream()[self.pos..self.pos + buf.len()];
                self.pos += n;
                Ok(n)
            }
        }
    }
}
impl Read for Chan {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.get(buf)
    }
}
impl Write for Chan {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.put(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Chan {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut b = std::mem::take(&mut *big_buf());
        b.resize(buf.remaining(), 0);
        let r = self.get(&mut b);
        let p = match r {
            Ok(n) => {
                buf.put_slice(&b[..n]);
                Poll::Ready(Ok(()))
            }
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => Poll::Pending,
            Err(e) => Poll::Ready(Err(e)),
        };
        *big_buf() = b;
        p
    }
}
fn big_buf() -> std::cell::RefMut<'static, Vec<u8>> {
    thread_local!(static B: &'static std::cell::RefCell<Vec<u8>> = Box::leak(Box::default()));
    B.with(|b| *b).borrow_mut()
}
impl AsyncWrite for Chan {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.put(buf) {
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => Poll::Pending,
            r => Poll::Ready(r),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
/// Takes at most so many bytes.
struct Take {
    left: usize,
    got: Vec<u8>,
    eos: bool,
}
impl Decode for Take {
    type Item = ();
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = self.left.min(buf.len());
        self.got.extend_from_slice(&buf[..n]);
        self.left -= n;
        self.eos |= eos.is_reached();
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left as u64)
    }
    fn is_idle(&self) -> bool {
        self.left == 0
    }
}

/// Filling and emptying in turn: what comes out is what went in, and the accessors add up.
pub fn rb(ch: &mut Ch, cap: usize, poll: bool) -> Case {
    let ss = sizes(cap);
    let mut b = ReadBuf::new(vec![0xCC; cap]);
    let mut c = Chan { pos: 0, script: vec![], calls: 0, ok: true };
    let mut out = 0; // taken from the buffer so far
    let mut cx = Context::from_waker(Waker::noop());
    for round in 0..3 {
        // one transfer or two, then a block (unless the buffer is full)
        let k = *ch.of(&ss);
        let two = ch.pick_bool();
        c.script = if two { vec![1, k] } else { vec![k] };
        let (room, before) = (b.room(), c.pos);
        if poll {
            let p = b.poll_fill(Pin::new(&mut c), &mut cx);
            match &p {
                Poll::Pending if !b.is_full() => {}
                Poll::Ready(Ok(())) if b.is_full() => {}
                _ => return Err(format!("poll_fill {} with {} of {cap} bytes", if p.is_pending() { "pending" } else { "ready" }, b.len())),
            }
        } else {
            b.fill(&mut c).map_err(|e| format!("fill: {:?}", e.kind()))?;
        }
        ch.step();
        let moved = c.pos - before;
        ch.log(|| format!("fill({:?}) moved {moved} with room {room}", if two { vec![k, 1] } else { vec![k] }));
        if !c.ok || moved < (k + usize::from(two)).min(room) || moved > k + usize::from(two) || b.len() != c.pos - out || b.is_empty() != (b.len() == 0) {
            return Err(format!("capacity {cap}: fill moved {moved} bytes of {k}+{} into {room} of room, len {}", usize::from(two), b.len()));
        }
        if b.len() + b.room() > cap || b.is_full() != (b.room() == 0) || b.capacity() != cap {
            return Err(format!("capacity {cap}: len {} room {} full {}", b.len(), b.room(), b.is_full()));
        }
        ch.state(&(cap, b.len(), b.room(), round));
        if round == 2 {
            break;
        }
        let k = *ch.of(&ss);
        let n = k.min(b.len());
        let got = if ch.pick_bool() {
            let mut d = Take { left: k, got: vec![], eos: false };
            d.decode_from_read_buf(&mut b).map_err(|e| format!("decode: {:?}", e.kind()))?;
            if d.eos {
                return Err("the decoder was told of an end".into());
            }
            d.got
        } else {
            let mut x = vec![0xEE; k];
            let m = b.read(&mut x).map_err(|e| e.to_string())?;
            x.truncate(m);
            x
        };
        ch.step();
        if got[..] != stream()[out..out + n] {
            return Err(format!("capacity {cap}: took {} bytes at {out}, expected {n}, or others than delivered", got.len()));
        }
        out += n;
        if b.len() != c.pos - out || (b.is_empty() && b.room() != cap) {
            return Err(format!("capacity {cap}: len {} room {} after taking {n}", b.len(), b.room()));
        }
    }
    let mut rest = vec![];
    b.read_to_end(&mut rest).map_err(|e| e.to_string())?;
    if rest[..] != stream()[out..c.pos] || !b.is_empty() || b.room() != cap {
        return Err(format!("capacity {cap}: {} bytes left, expected {}", rest.len(), c.pos - out));
    }
    ch.valid();
    Ok(())
}
/// Writing and flushing in turn.
pub fn wb(ch: &mut Ch, cap: usize, poll: bool) -> Case {
    let ss = sizes(cap);
    let mut b = WriteBuf::new(vec![0xCC; cap]);
    let mut c = Chan { pos: 0, script: vec![], calls: 0, ok: true };
    let mut inp = 0; // put into the buffer so far
    let mut cx = Context::from_waker(Waker::noop());
    for round in 0..3 {
        let k = *ch.of(&ss);
        let room = b.room();
        let len = b.len();
        let n = if ch.pick_bool() {
            let mut e = BytesEncoder::new();
            e.start_encoding(&stream()[inp..inp + k]).map_err(|e| format!("{:?}", e.kind()))?;
            e.encode_to_write_buf(&mut b).map_err(|e| format!("encode: {:?}", e.kind()))?;
            k - match e.requiring_bytes() {
                ByteCount::Finite(n) => n as usize,
                n => return Err(format!("requirement {n:?}")),
            }
        } else {
            b.write(&stream()[inp..inp + k]).map_err(|e| e.to_string())?
        };
        ch.step();
        inp += n;
        if n < k.min(room) || n > k.min(cap - len) || b.len() != inp - c.pos {
            return Err(format!("capacity {cap}: {n} of {k} bytes written with {room} of room, len {}", b.len()));
        }
        if b.len() + b.room() > cap || b.is_full() != (b.room() == 0) || b.capacity() != cap {
            return Err(format!("capacity {cap}: len {} room {} full {}", b.len(), b.room(), b.is_full()));
        }
        ch.log(|| format!("write({k}) -> {n}, len {} room {}", b.len(), b.room()));
        ch.state(&(cap, b.len(), b.room(), round));
        if round == 2 {
            break;
        }
        let k = *ch.of(&ss);
        let two = ch.pick_bool();
        c.script = if two { vec![1, k] } else { vec![k] };
        let (before, len) = (c.pos, b.len());
        if poll {
            let p = b.poll_flush(Pin::new(&mut c), &mut cx);
            match &p {
                Poll::Pending if !b.is_empty() => {}
                Poll::Ready(Ok(())) if b.is_empty() => {}
                _ => return Err(format!("poll_flush {} with {} of {cap} bytes", if p.is_pending() { "pending" } else { "ready" }, b.len())),
            }
        } else {
            b.flush(&mut c).map_err(|e| format!("flush: {:?}", e.kind()))?;
        }
        ch.step();
        let moved = c.pos - before;
        ch.log(|| format!("flush({:?}) moved {moved} of {len}", if two { vec![k, 1] } else { vec![k] }));
        if !c.ok || moved != (k + usize::from(two)).min(len) || b.len() != len - moved || (b.is_empty() && b.room() != cap) {
            return Err(format!("capacity {cap}: flush moved {moved} of {len} bytes, writer taking {k}+{}, len {}", usize::from(two), b.len()));
        }
    }
    c.script = vec![cap; 3];
    b.flush(&mut c).map_err(|e| format!("flush: {:?}", e.kind()))?;
    if !c.ok || c.pos != inp || !b.is_empty() {
        return Err(format!("capacity {cap}: {} of {inp} bytes written out, or others than written", c.pos));
    }
    ch.valid();
    Ok(())
}

/// Every 2^k and its neighbours.
fn marks() -> Vec<u64> {
    let mut v: Vec<u64> = (1..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend([u64::MAX - 1, u64::MAX]);
    v.sort_unstable();
    v.dedup();
    v
}
/// Needs so many bytes, of which it is never given more than a few thousand.
struct Huge {
    left: u64,
    taken: u64,
    bad: bool,
}
impl Decode for Huge {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = self.left.min(buf.len() as u64);
        self.bad |= n < buf.len() as u64;
        self.left -= n;
        self.taken += n;
        if eos.is_reached() && self.left > 0 {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        Ok(n as usize)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<u64> {
        Ok(self.taken)
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left)
    }
    fn is_idle(&self) -> bool {
        self.left == 0
    }
}
/// Gives so many bytes, then fails or ends.
struct Short {
    left: u64,
    given: u64,
    at_once: usize,
    fail: Option<io::ErrorKind>,
    empty: bool,
}
impl Read for Short {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.empty |= buf.is_empty();
        let n = self.left.min(buf.len().min(self.at_once) as u64);
        buf[..n as usize].fill(7);
        self.left -= n;
        self.given += n;
        match self.fail {
            Some(k) if n == 0 => Err(k.into()),
            _ => Ok(n as usize),
        }
    }
}
/// Takes so many bytes, then fails.
impl Write for Short {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.empty |= buf.is_empty();
        let n = self.left.min(buf.len().min(self.at_once) as u64);
        if buf.iter().any(|b| *b != 7) {
            return Err(io::ErrorKind::InvalidData.into());
        }
        self.left -= n;
        self.given += n;
        match self.fail {
            Some(k) if n == 0 => Err(k.into()),
            _ => Ok(n as usize),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// `decode_exact` of an item of any size from a reader that breaks off after a few thousand bytes.
pub fn exact(ch: &mut Ch) -> Case {
    let n = *ch.of(&marks());
    let have = *ch.of(&[0u64, 1, 1023, 1024, 1025, 5000]);
    let at_once = *ch.of(&[usize::MAX, 1, 700]);
    let fail = *ch.of(&[None, Some(io::ErrorKind::TimedOut)]);
    let real = ch.pick_bool();
    if have >= n {
        return ch.skip();
    }
    let mut r = Short { left: have, given: 0, at_once, fail, empty: false };
    let (e, left, bad) = if real {
        let mut d = RemainingBytesDecoder::new().length(n);
        let e = d.decode_exact(&mut r).map(|_| ());
        (e, d.remaining_bytes(), false)
    } else {
        let mut d = Huge { left: n, taken: 0, bad: false };
        let e = d.decode_exact(&mut r).map(|_| ());
        (e, d.left, d.bad)
    };
    ch.steps(2);
    ch.state(&(n, have, at_once));
    let want = if fail.is_some() { ErrorKind::Other } else { ErrorKind::UnexpectedEos };
    match e {
        Err(e) if *e.kind() == want => {}
        r => return Err(format!("{n} bytes required, {have} delivered, then {fail:?}: {}", res(&r))),
    }
    if bad || r.empty || r.given != have || left != n - have {
        return Err(format!("{n} bytes required, {have} delivered: {} read, {left} left", r.given));
    }
    ch.valid();
    Ok(())
}
/// Emits so many bytes.
struct HugeE {
    left: u64,
    known: bool,
}
impl Encode for HugeE {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = self.left.min(buf.len() as u64) as usize;
        buf[..n].fill(7);
        self.left -= n as u64;
        if eos.is_reached() && self.left > 0 {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn start_encoding(&mut self, item: u64) -> bytecodec::Result<()> {
        self.left = item;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.known {
            ByteCount::Finite(self.left)
        } else {
            ByteCount::Unknown
        }
    }
    fn is_idle(&self) -> bool {
        self.left == 0
    }
}
/// `encode_all` of an item of any size to a writer that breaks off after a few thousand bytes.
pub fn all(ch: &mut Ch) -> Case {
    let n = *ch.of(&marks());
    let have = *ch.of(&[0u64, 1, 1023, 1024, 1025, 5000]);
    let at_once = *ch.of(&[usize::MAX, 1, 700]);
    let fail = *ch.of(&[None, Some(io::ErrorKind::TimedOut)]);
    let known = ch.pick_bool();
    let mut w = Short { left: have, given: 0, at_once, fail, empty: false };
    let mut e = HugeE { left: n, known };
    let r = e.encode_all(&mut w);
    ch.steps(2);
    ch.state(&(n, have, at_once));
    if have >= n {
        if r.is_err() || w.given != n || !e.is_idle() {
            return Err(format!("{n} bytes to encode, room for {have}: {} given, {}", w.given, res(&r)));
        }
    } else if r.is_ok() || w.given != have || w.empty {
        return Err(format!("{n} bytes to encode, room for {have}: {} given, {}", w.given, res(&r)));
    } else if r.is_err_and(|e| *e.kind() != ErrorKind::Other) {
        return Err(format!("{n} bytes to encode, room for {have}, then {fail:?}: another error"));
    }
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- beyond 4 GiB

/// Zeros, marked around every power of two.  Only the marked pages take memory.
fn giant() -> Option<&'static [u8]> {
    static G: OnceLock<Option<&'static [u8]>> = OnceLock::new();
    *G.get_or_init(|| {
        use std::alloc::{GlobalAlloc, Layout, System};
        const N: usize = (1 << 32) + 64;
        let p = unsafe { System.alloc_zeroed(Layout::from_size_align(N, 1).ok()?) };
        if p.is_null() {
            return None;
        }
        let s = unsafe { std::slice::from_raw_parts_mut(p, N) };
        for k in 0..33 {
            for d in 0..5 {
                s[(1usize << k) + d] = b'A' + (k + d) as u8 % 50;
            }
        }
        s[N - 1] = b'z';
        Some(s)
    })
}
fn giant_lens() -> Vec<usize> {
    [31, 32].iter().flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 64]).collect()
}
pub const GIANTS: [&str; 9] = ["bytes", "text", "tuple", "frame", "limit", "slice", "optional", "boxed", "mapped"];
/// Announced sizes of items of around 2 and 4 GiB, before and after a few calls.
pub fn announced(ch: &mut Ch, kind: usize) -> Case {
    let n = *ch.of(&giant_lens());
    giant_enc(ch, kind, n, |ch, e, n| {
        let look = |e: &dyn SizedEncode<Item = ()>, left: usize| {
            let (r, x) = (e.requiring_bytes(), e.exact_requiring_bytes());
            if x != left as u64 || r != ByteCount::Finite(left as u64) {
                return Err(format!("{left} of {n} bytes left, {x} announced, {r:?} required"));
            }
            Ok(())
        };
        look(e, n)?;
        let mut pos = 0;
        let mut b = vec![0x55; 4096];
        for s in *ch.of(&[[1, 4095], [4096, 1], [3, 0]]) {
            pos += e.encode(&mut b[..s], Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
            ch.step();
            look(e, n - pos)?;
        }
        Ok(())
    })
}
/// The same items emitted from the first to the last byte.
pub fn emitted(ch: &mut Ch, kind: usize) -> Case {
    let n = (1 << 32) + 5;
    giant_enc(ch, kind, n, |ch, e, n| {
        let g = giant().unwrap();
        let mut pos = 0;
        let mut b = vec![0x55; 1 << 20];
        while !e.is_idle() {
            let k = e.encode(&mut b, Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
            if k == 0 || pos + k > n || b[..k] != g[pos..pos + k] {
                return Err(format!("{k} bytes, or wrong ones, at {pos} of {n}"));
            }
            pos += k;
        }
        ch.step();
        if pos != n {
            return Err(format!("{pos} of {n} bytes emitted"));
        }
        Ok(())
    })
}
/// `E` with its item already there.
struct Going<E>(E);
impl<E: SizedEncode> Encode for Going<E> {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        unreachable!()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<E: SizedEncode> SizedEncode for Going<E> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}
fn giant_enc(ch: &mut Ch, kind: usize, n: usize, f: impl Fn(&mut Ch, &mut dyn SizedEncode<Item = ()>, usize) -> Case) -> Case {
    use bytecodec::bytes::Utf8Encoder;
    use bytecodec::tuple::TupleEncoder;
    use bytecodec::EncodeExt;
    let Some(g) = giant() else { return ch.skip() };
    let g = &g[..n];
    ch.state(&(kind, n));
    fn go<E: SizedEncode>(ch: &mut Ch, mut e: E, item: E::Item, n: usize, f: impl Fn(&mut Ch, &mut dyn SizedEncode<Item = ()>, usize) -> Case) -> Case {
        e.start_encoding(item).map_err(|e| format!("refused with {:?}", e.kind()))?;
        f(ch, &mut Going(e), n)?;
        ch.valid();
        Ok(())
    }
    match kind {
        0 => go(ch, BytesEncoder::new(), g, n, f),
        1 => go(ch, Utf8Encoder::new(), unsafe { std::str::from_utf8_unchecked(g) }, n, f),
        2 => go(ch, TupleEncoder::new((BytesEncoder::new(), BytesEncoder::new())), (&g[..n / 2 + 3], &g[n / 2 + 3..]), n, f),
        3 => go(ch, BytesEncoder::new().length(n as u64), g, n, f),
        4 => go(ch, BytesEncoder::new().max_bytes(n as u64), g, n, f),
        5 => {
            let mut s = BytesEncoder::new().slice();
            s.set_consumable_bytes(n as u64);
            go(ch, s, g, n, f)
        }
        6 => go(ch, BytesEncoder::new().optional(), Some(g), n, f),
        7 => go(ch, Box::new(BytesEncoder::new()), g, n, f),
        _ => go(ch, BytesEncoder::new().map_from(|x: (&'static [u8],)| x.0), (g,), n, f),
    }
}
/// Byte-string decoders whose item is of around 2 or 4 GiB, given a few bytes.
pub fn wanted(ch: &mut Ch, kind: usize) -> Case {
    use bytecodec::bytes::BytesDecoder;
    use bytecodec::tuple::TupleDecoder;
    use std::alloc::{GlobalAlloc, Layout, System};
    struct Mem(*mut u8, usize);
    impl Drop for Mem {
        fn drop(&mut self) {
            unsafe { System.dealloc(self.0, Layout::from_size_align(self.1, 1).unwrap()) }
        }
    }
    let n = *ch.of(&giant_lens());
    let p = unsafe { System.alloc_zeroed(Layout::from_size_align(n, 1).unwrap()) };
    if p.is_null() {
        return ch.skip();
    }
    let m = Mem(p, n);
    let s: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(m.0, n) };
    ch.state(&(kind, n));
    fn go<D: Decode>(ch: &mut Ch, mut d: D, n: usize, first: bool) -> Case {
        let mut pos = 0;
        let want = |d: &D, pos: usize| {
            let r = d.requiring_bytes();
            if d.is_idle() || !first && r != ByteCount::Finite((n - pos) as u64) {
                return Err(format!("{pos} of {n} bytes decoded, {r:?} required, idle: {}", d.is_idle()));
            }
            Ok(())
        };
        want(&d, 0)?;
        for k in *ch.of(&[[1usize, 4095], [4096, 1], [3, 0]]) {
            let eos = Eos::with_remaining_bytes(*ch.of(&[ByteCount::Unknown, ByteCount::Finite((n - pos - k) as u64)]));
            let c = d.decode(&stream()[..k], eos).map_err(|e| format!("decode: {:?}", e.kind()))?;
            ch.step();
            if c != k {
                return Err(format!("{c} of {k} bytes consumed after {pos} of {n}"));
            }
            pos += k;
            want(&d, pos)?;
        }
        match d.decode(&[], Eos::new(true)) {
            Err(e) if *e.kind() == ErrorKind::UnexpectedEos => {}
            r => return Err(format!("stream ends after {pos} of {n} bytes: {}", res(&r))),
        }
        ch.valid();
        Ok(())
    }
    match kind {
        0 => go(ch, BytesDecoder::new(s), n, false),
        1 => go(ch, BytesDecoder::new(s).length(n as u64), n, false),
        2 => go(ch, BytesDecoder::new(s).max_bytes(n as u64), n, false),
        3 => {
            let mut x = BytesDecoder::new(s).slice();
            x.set_consumable_bytes(n as u64);
            go(ch, x, n, false)
        }
        _ => {
            let (a, b) = s.split_at_mut(n / 2);
            go(ch, TupleDecoder::new((BytesDecoder::new(a), BytesDecoder::new(b))), n, true)
        }
    }
}
