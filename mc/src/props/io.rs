//! C16 (read buffer), C17 (write buffer, buffered stream), C18 (blocking drivers), C19 (poll based
//! buffers), C20 (waking of tasks that wait for room).
use crate::core::*;
use crate::dterm::{self, bx, Next, D};
use crate::drive::{self, pick_input};
use crate::eterm::{self, E};
use crate::fix;
use crate::props::{big, value, dec, enc, errs, scale};
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::io::*;
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

// ---------------------------------------------------------------- environments

/// An answer of a reader or writer.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ans {
    /// So many bytes.
    Bytes(usize),
    Block,
    /// End of stream: nothing read, nothing written.
    End,
    Fail(io::ErrorKind),
}
const FAILS: [io::ErrorKind; 4] = [io::ErrorKind::Other, io::ErrorKind::Interrupted, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe];
pub fn io_kind(k: io::ErrorKind) -> ErrorKind {
    if k == io::ErrorKind::UnexpectedEof {
        ErrorKind::UnexpectedEos
    } else {
        ErrorKind::Other
    }
}
fn state_of(a: Ans) -> StreamState {
    match a {
        Ans::Bytes(_) => StreamState::Normal,
        Ans::Block => StreamState::WouldBlock,
        Ans::End => StreamState::Eos,
        Ans::Fail(_) => StreamState::Error,
    }
}
fn answer(ch: &mut Ch, len: usize, fails: &[io::ErrorKind]) -> Ans {
    let n = len + 2 + fails.len();
    let k = ch.pick(n);
    if k < len {
        Ans::Bytes(len - k)
    } else if k == len {
        Ans::Block
    } else if k == len + 1 {
        Ans::End
    } else {
        Ans::Fail(fails[k - len - 2])
    }
}
fn fail(k: io::ErrorKind) -> io::Error {
    io::Error::new(k, "raised by the harness")
}

/// Reader and writer whose every answer is a choice.
pub struct Env<'a> {
    pub ch: RefCell<&'a mut Ch>,
    pub next: Cell<u8>,
    /// (buffer length offered, answer) of every read.
    pub reads: RefCell<Vec<(usize, Ans)>>,
    /// (bytes offered, answer) of every write.
    pub writes: RefCell<Vec<(Vec<u8>, Ans)>>,
    pub delivered: RefCell<Vec<u8>>,
    pub written: RefCell<Vec<u8>>,
    pub fails: &'a [io::ErrorKind],
    pub flushed: Cell<usize>,
    pub trouble: RefCell<Option<String>>,
}
impl<'a> Env<'a> {
    pub fn new(ch: &'a mut Ch, next: u8, fails: &'a [io::ErrorKind]) -> Self {
        Env {
            ch: RefCell::new(ch),
            next: Cell::new(next),
            reads: RefCell::default(),
            writes: RefCell::default(),
            delivered: RefCell::default(),
            written: RefCell::default(),
            fails,
            flushed: Cell::new(0),
            trouble: RefCell::default(),
        }
    }
    fn do_read(&self, buf: &mut [u8]) -> Ans {
        if buf.is_empty() {
            *self.trouble.borrow_mut() = Some("the reader was asked for zero bytes".into());
        }
        let a = answer(&mut self.ch.borrow_mut(), buf.len(), self.fails);
        self.reads.borrow_mut().push((buf.len(), a));
        if let Ans::Bytes(n) = a {
            for b in &mut buf[..n] {
                *b = self.next.get();
                self.delivered.borrow_mut().push(*b);
                self.next.set(self.next.get().wrapping_add(1));
            }
        }
        a
    }
    fn do_write(&self, buf: &[u8]) -> Ans {
        if buf.is_empty() {
            *self.trouble.borrow_mut() = Some("the writer was given zero bytes".into());
        }
        let a = answer(&mut self.ch.borrow_mut(), buf.len(), self.fails);
        self.writes.borrow_mut().push((buf.to_vec(), a));
        if let Ans::Bytes(n) = a {
            self.written.borrow_mut().extend(&buf[..n]);
        }
        a
    }
    fn check(&self) -> Case {
        match &*self.trouble.borrow() {
            Some(t) => Err(t.clone()),
            None => Ok(()),
        }
    }
}
fn to_io(a: Ans) -> io::Result<usize> {
    match a {
        Ans::Bytes(n) => Ok(n),
        Ans::Block => Err(fail(io::ErrorKind::WouldBlock)),
        Ans::End => Ok(0),
        Ans::Fail(k) => Err(fail(k)),
    }
}
impl Read for &Env<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        to_io(self.do_read(buf))
    }
}
impl Write for &Env<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        to_io(self.do_write(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed.set(self.flushed.get() + 1);
        Ok(())
    }
}

/// Decoder that records the content it is shown.
#[derive(Default)]
struct Rec {
    size: Option<usize>,
    got: Vec<u8>,
    shown: Vec<(Vec<u8>, bool)>,
    idle: bool,
}
impl Decode for Rec {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.shown.push((buf.to_vec(), eos.is_reached()));
        if self.idle {
            return Ok(0);
        }
        let n = self.size.map_or(buf.len(), |s| (s - self.got.len()).min(buf.len()));
        if self.size.is_some_and(|s| self.got.len() + n < s) && eos.is_reached() {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        self.got.extend(&buf[..n]);
        self.idle = self.size.map_or(eos.is_reached(), |s| self.got.len() == s);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> {
        self.idle = false;
        Ok(std::mem::take(&mut self.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        self.idle
    }
}

// ---------------------------------------------------------------- C16

pub fn c16(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("read buffers of capacity 0..=3 (4): every sequence of 6/5/4/4 operations (fill, read of any size, decode with decoders of any size) with every answer of the reader to every read (any number of bytes, would-block, EOF, interruption, failure, unexpected EOF)".into());
    b.push("read buffers of capacity 4..=8 (10): filling, reading or decoding any number of bytes, filling again (and once more up to 5 bytes; thorough: longer), with every answer of the reader to every read".into());
    b.push("every kind of I/O error there is (36), at every read".into());
    let parts = super::gate::buffers(th, b, true, false);
    b.push("buffers of 15 to 70000 bytes around the powers of two: three fills and two reads or decodes in turn, each of 8 sizes around the powers of two".into());
    b.push("20 real decoders fed from a read buffer of 1..=4 bytes by a reader with any short reads and up to two blocks or failures; capacities and streams on the size ladder".into());
    let mut us = vec![];
    let depths: &[(usize, usize)] = if th { &[(0, 6), (1, 7), (2, 5), (3, 4), (4, 4)] } else { &[(0, 5), (1, 6), (2, 4), (3, 4)] };
    for &(cap, depth) in depths {
        for first in 0..cap + 7 {
            us.push(unit(format!("ops capacity {cap} first {first}"), move |ch| rb_ops(ch, cap, depth, Some(first), &FAILS[..3])));
        }
    }
    for cap in 4..=if th { 10 } else { 8 } {
        let depth = if th { if cap <= 4 { 6 } else if cap <= 7 { 4 } else { 3 } } else { 3 + usize::from(cap <= 5) };
        us.push(unit(format!("wide {cap}"), move |ch| rb_ops(ch, cap, depth, None, &FAILS[..3])));
    }
    for k in kinds() {
        us.push(unit(format!("failing with {k:?}"), move |ch| rb_ops(ch, 2, 4, None, &[k])));
    }
    for t in io_terms() {
        us.push(unit(format!("decode {t:?}"), move |ch| rb_decode(ch, &t)));
    }
    for n in scale::ladder(th) {
        us.push(unit(format!("ladder {n}"), move |ch| rb_ladder(ch, n)));
    }
    for cap in big::caps(th) {
        us.push(unit(format!("big {cap}"), move |ch| big::rb(ch, cap, false)));
    }
    b.push("every byte value first, last, at both ends, in the middle or everywhere of streams of 1..=17 and around the powers of two up to 1024 (8192) bytes: 3 capacities, 3 amounts taken at a time, 3 ways of taking".into());
    for n in value::huge(th) {
        us.push(unit(format!("huge {n}"), move |ch| value::reads(ch, n, false)));
    }
    for n in value::lens(th) {
        us.push(unit(format!("contents {n}"), move |ch| value::reads(ch, n, false)));
    }
    us.push(unit("states", states));
    us.extend(parts);
    us
}
/// Every kind of I/O error that is one to the buffers.
fn kinds() -> impl Iterator<Item = io::ErrorKind> {
    errs::IO_KINDS.iter().copied().filter(|k| *k != io::ErrorKind::WouldBlock)
}
fn io_terms() -> Vec<D> {
    let u8t = || bx(D::Fix(fix::U8));
    vec![
        D::Fix(fix::U8),
        D::Fix(fix::U16BE),
        D::Fix(fix::U32BE),
        D::Rest,
        D::Utf8,
        D::Pad(Some(17)),
        D::Once(3),
        D::Null,
        D::Length(3, bx(D::Rest)),
        D::Length(2, bx(D::Fix(fix::U16BE))),
        D::AndThen(u8t(), Next::Len(bx(D::Rest))),
        D::AndThen(u8t(), Next::Count(u8t())),
        D::Collect(bx(D::Fix(fix::U16BE))),
        D::CollectN(2, bx(D::Fix(fix::U16BE))),
        D::Tup(vec![D::Fix(fix::U8), D::Fix(fix::U24LE)]),
        D::Tup(vec![D::Fix(fix::U8), D::Rest]),
        D::Maybe(bx(D::Fix(fix::U16BE))),
        D::Max(3, bx(D::Rest)),
        D::Peek(bx(D::Fix(fix::U16BE))),
        D::Slice(bx(D::Fix(fix::U16BE))),
    ]
}
struct RbModel {
    q: VecDeque<u8>,
    state: StreamState,
    cap: usize,
}
impl RbModel {
    fn check<B: AsRef<[u8]> + AsMut<[u8]>>(&self, b: &ReadBuf<B>, what: &str) -> Case {
        let m = (self.q.len(), self.q.is_empty(), self.state, self.cap);
        let r = (b.len(), b.is_empty(), b.stream_state(), b.capacity());
        if m != r {
            return Err(format!("after {what}: (len, is_empty, stream_state, capacity) = {r:?}, expected {m:?}"));
        }
        if b.len() + b.room() > self.cap || b.is_full() != (b.room() == 0) {
            return Err(format!("after {what}: len {} room {} full {} capacity {}", b.len(), b.room(), b.is_full(), self.cap));
        }
        if self.q.is_empty() && b.room() != self.cap {
            return Err(format!("after {what}: an emptied buffer offers {} of {} bytes", b.room(), self.cap));
        }
        Ok(())
    }
}
/// All operations after the `first`, or filling and emptying in turn.
fn rb_ops(ch: &mut Ch, cap: usize, depth: usize, first: Option<usize>, kinds: &[io::ErrorKind]) -> Case {
    let mut b = ReadBuf::new(vec![0xCC; cap]);
    let mut m = RbModel { q: VecDeque::new(), state: StreamState::Normal, cap };
    let mut next = 1u8;
    m.check(&b, "creation")?;
    for i in 0..depth {
        // fill; read 0..=cap+1; decode 0 / 2 / cap+1 / until EOS; set the state
        let op = match first {
            Some(f) if i == 0 => f,
            Some(_) => ch.pick(cap + 7),
            None if i % 2 == 0 => 0,
            None => 1 + ch.pick(cap + 5),
        };
        ch.state(&(m.q.len(), format!("{:?}", m.state), b.room(), op));
        let room = b.room();
        if op == 0 {
            let before = m.q.len();
            let env = Env::new(ch, next, kinds);
            let r = b.fill(&env);
            env.check()?;
            let reads = env.reads.take();
            next = env.next.get();
            m.q.extend(env.delivered.take());
            drop(env);
            ch.step();
            ch.log(|| format!("fill {reads:?} -> {}", res(&r)));
            filled(&reads, cap - before, &r, b.is_full())?;
            if let Some((_, a)) = reads.last() {
                m.state = state_of(*a);
            }
            m.check(&b, "fill")?;
        } else if op <= cap + 2 {
            let k = op - 1;
            let mut buf = vec![0xEE; k];
            let r = b.read(&mut buf).map_err(|e| format!("read failed: {e}"))?;
            ch.step();
            let n = k.min(m.q.len());
            let want: Vec<u8> = m.q.drain(..n).collect();
            ch.log(|| format!("read({k}) -> {r} {buf:?}"));
            if r != n || buf[..n] != want[..] || buf[n..].iter().any(|x| *x != 0xEE) {
                return Err(format!("read({k}) gave {r} bytes {buf:?}, expected {want:?}"));
            }
            m.check(&b, "read")?;
            if b.room() < room {
                return Err(format!("reading reduced the room from {room} to {}", b.room()));
            }
        } else if op <= cap + 5 {
            let size = [None, Some(2), Some(1)][op - cap - 3];
            let mut d = Rec { size, ..Default::default() };
            let r = d.decode_from_read_buf(&mut b);
            ch.step();
            ch.log(|| format!("decode({size:?}) -> {}", res(&r)));
            let eos = m.state == StreamState::Eos;
            let content: Vec<u8> = m.q.iter().copied().collect();
            if d.shown.is_empty() || d.shown[0] != (content.clone(), eos) {
                return Err(format!("decoder was shown {:?}, expected {:?}", d.shown, (content, eos)));
            }
            let n = size.map_or(content.len(), |s| s.min(content.len()));
            let fails = eos && size.is_some_and(|s| n < s);
            match r {
                Ok(()) if !fails => {
                    m.q.drain(..n);
                    if d.got != content[..n] {
                        return Err(format!("decoder took {:?} of {content:?}", d.got));
                    }
                }
                Err(e) if fails && *e.kind() == ErrorKind::UnexpectedEos => {}
                r => return Err(format!("decode_from_read_buf: {} (failing={fails})", res(&r))),
            }
            m.check(&b, "decode_from_read_buf")?;
        } else {
            let s = [StreamState::Eos, StreamState::Normal][ch.pick(2)];
            *b.stream_state_mut() = s;
            m.state = s;
            m.check(&b, "setting the state")?;
        }
    }
    // Everything left comes out in order.
    let mut rest: Vec<u8> = vec![];
    let mut buf = [0u8; 2];
    loop {
        let n = b.read(&mut buf).map_err(|e| format!("read failed: {e}"))?;
        if n == 0 {
            break;
        }
        rest.extend(&buf[..n]);
    }
    if m.q != rest {
        return Err(format!("{rest:?} left in the buffer, expected {:?}", m.q));
    }
    m.q.clear();
    m.check(&b, "emptying")?;
    ch.outcome(&rest);
    ch.valid();
    Ok(())
}
/// Is the sequence of reads that of a fill of a buffer with the given room?
fn filled(reads: &[(usize, Ans)], room: usize, r: &bytecodec::Result<()>, full: bool) -> Case {
    let mut left = room;
    for (i, (len, a)) in reads.iter().enumerate() {
        if *len > left || *len == 0 {
            return Err(format!("{len} bytes asked for with {left} bytes of room"));
        }
        match a {
            Ans::Bytes(n) => left -= n,
            _ if i + 1 < reads.len() => return Err(format!("filling went on after {a:?}")),
            _ => {}
        }
    }
    let last = reads.last().map(|x| x.1);
    match last {
        Some(Ans::Fail(k)) => match r {
            Err(e) if *e.kind() == io_kind(k) => {}
            _ => return Err(format!("read error {k:?} reported as {}", res(r))),
        },
        _ => {
            if let Err(e) = r {
                return Err(format!("fill failed with {:?} after {last:?}", e.kind()));
            }
        }
    }
    if !full && !matches!(last, Some(Ans::Block | Ans::End | Ans::Fail(_))) {
        return Err(format!("filling stopped after {last:?} with {left} bytes of room"));
    }
    Ok(())
}
/// A reader over fixed bytes: short reads are free, other deviations limited; EOF at the end.
struct Script<'a, 'b> {
    ch: &'a RefCell<&'b mut Ch>,
    data: &'a [u8],
    pos: usize,
    dev: usize,
    free: usize,
    kinds: &'a [io::ErrorKind],
    last_err: Option<io::ErrorKind>,
    /// Short reads on offer: all when empty; else these, in the first three and the last read.
    sizes: &'a [usize],
    calls: usize,
}
impl Read for Script<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let max = buf.len().min(self.data.len() - self.pos);
        let ch = &mut **self.ch.borrow_mut();
        self.calls += 1;
        let here = self.sizes.is_empty() || self.calls <= 3 || self.pos + max == self.data.len();
        let devs = if self.dev > 0 && here { self.kinds.len() } else { 0 };
        let shorts = if self.free == 0 || max == 0 || !here {
            0
        } else if self.sizes.is_empty() {
            max - 1
        } else {
            self.sizes.len()
        };
        let k = ch.pick(1 + shorts + devs);
        let n = if k == 0 {
            max
        } else if k <= shorts {
            self.free -= 1;
            if self.sizes.is_empty() {
                max - k
            } else {
                self.sizes[k - 1].clamp(1, max)
            }
        } else {
            self.dev -= 1;
            let e = self.kinds[k - 1 - shorts];
            self.last_err = Some(e);
            return Err(fail(e));
        };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
const TROUBLE: [io::ErrorKind; 3] = [io::ErrorKind::WouldBlock, io::ErrorKind::Other, io::ErrorKind::Interrupted];

fn rb_decode(ch: &mut Ch, t: &D) -> Case {
    let (alpha, max) = dterm::inputs(t, false);
    let inp = pick_input(ch, &alpha, max);
    let cap = 1 + ch.pick(4);
    let want = dec::final_out(t, &inp, drive::Mode::Late);
    let c = RefCell::new(ch);
    let free = if alpha.is_empty() { 3 } else { 1 };
    let mut rd = Script { ch: &c, data: &inp, pos: 0, dev: 1, free, kinds: &TROUBLE[..2], last_err: None, sizes: &[], calls: 0 };
    let mut b = ReadBuf::new(vec![0; cap]);
    let mut d = dterm::build(t);
    let mut steps = 0;
    let got = loop {
        steps += 1;
        if steps > 60 {
            return Err(format!("no progress decoding from a read buffer ({t:?}, {})", hex(&inp)));
        }
        if let Err(e) = b.fill(&mut rd) {
            if rd.last_err.take().map(io_kind) != Some(*e.kind()) {
                return Err(format!("fill failed with {:?}", e.kind()));
            }
            continue;
        }
        c.borrow_mut().step();
        let eos = b.stream_state().is_eos();
        let r = d.decode_from_read_buf(&mut b);
        c.borrow_mut().step();
        let used = rd.pos - b.len();
        c.borrow_mut().state(&(used, b.len(), eos, d.is_idle(), cap));
        if let Err(e) = r {
            break drive::Out::Fail { used, kind: k(*e.kind()) };
        }
        if d.is_idle() {
            break drive::Out::Item { used, val: drive::take(&mut *d) };
        }
        if eos && b.is_empty() {
            break drive::Out::Pending { used };
        }
        if !b.is_empty() {
            return Err(format!("unfinished decoder left bytes in the buffer ({t:?}, {})", hex(&inp)));
        }
    };
    let ch = c.into_inner();
    ch.log(|| format!("{t:?} on {} capacity {cap}: {got:?}", hex(&inp)));
    if !dec::same(&got, &want) {
        return Err(format!("decoding from a read buffer gave {got:?}, directly {want:?} ({t:?}, {})", hex(&inp)));
    }
    ch.outcome(&format!("{got:?}"));
    ch.valid();
    Ok(())
}
fn rb_ladder(ch: &mut Ch, n: usize) -> Case {
    let caps = [1024usize, n.max(1), n + 1, 7, 4096, 8192, 65536];
    let cap = *ch.of(&caps);
    if n / cap > 5000 {
        return ch.skip();
    }
    let inp: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let t = if ch.pick_bool() { D::Rest } else { D::Once(n) };
    let sizes = [1usize, 1023, 1024, 1025, n / 2];
    let c = RefCell::new(ch);
    let mut rd = Script { ch: &c, data: &inp, pos: 0, dev: 1, free: 2, kinds: &TROUBLE[..2], last_err: None, sizes: &sizes, calls: 0 };
    let mut b = ReadBuf::new(vec![0; cap]);
    let mut d = dterm::build(&t);
    for _ in 0..n / cap + 10 {
        match b.fill(&mut rd) {
            Ok(()) if b.is_full() || b.stream_state().is_eos() => {}
            Ok(()) if rd.last_err.take() == Some(io::ErrorKind::WouldBlock) => {}
            Ok(()) => return Err(format!("filling a buffer of {cap} bytes stopped at {}", b.len())),
            Err(_) if rd.last_err.take().is_some() => {}
            Err(_) => return Err("fill failed for no reason".into()),
        }
        d.decode_from_read_buf(&mut b).map_err(|e| format!("{t:?} of {n}: {:?}", e.kind()))?;
        if d.is_idle() {
            break;
        }
    }
    let ch = c.into_inner();
    ch.steps(3);
    ch.state(&(n, cap));
    if !d.is_idle() || d.finish_decoding().map_err(|e| format!("{:?}", e.kind()))? != V::B(inp) {
        return Err(format!("{t:?} of {n} bytes through a read buffer of {cap}: not the item"));
    }
    ch.valid();
    Ok(())
}
fn states(ch: &mut Ch) -> Case {
    use StreamState::*;
    let all = [Normal, Eos, WouldBlock, Error];
    let s = *ch.of(&all);
    let got = (s.is_normal(), s.is_eos(), s.would_block(), s.is_error());
    let want = (s == Normal, s == Eos, s == WouldBlock, s == Error);
    if got != want {
        return Err(format!("{s:?}: (is_normal, is_eos, would_block, is_error) = {got:?}"));
    }
    let mut r = ReadBuf::new([0; 3]);
    *r.stream_state_mut() = s;
    let mut w = WriteBuf::new([0; 3]);
    *w.stream_state_mut() = s;
    if r.stream_state() != s || w.stream_state() != s {
        return Err(format!("state {s:?} not kept"));
    }
    // buffers of other types, and their accessors
    let mut r = ReadBuf::new([1u8, 2, 3]);
    r.inner_mut()[0] = 9;
    if *r.inner_ref() != [9, 2, 3] || r.into_inner() != [9, 2, 3] {
        return Err("inner buffer lost".into());
    }
    let mut w = WriteBuf::new([1u8, 2, 3]);
    w.inner_mut()[0] = 9;
    if *w.inner_ref() != [9, 2, 3] || w.into_inner() != [9, 2, 3] {
        return Err("inner buffer lost".into());
    }
    ch.state(&got);
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- C17

pub fn c17(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("write buffers of capacity 0..=3 (4): every sequence of operations (write of any size, encoding of items of any size, flush) with every answer of the writer to every write".into());
    b.push("write buffers of capacity 4..=8 (10): writing or encoding any number of bytes, flushing, writing again (and flushing again up to 5 bytes; thorough: longer), with every answer of the writer to every write".into());
    b.push("every kind of I/O error there is (36), at every write".into());
    let parts = super::gate::buffers(th, b, false, true);
    b.push("buffers of 15 to 70000 bytes around the powers of two: three writes or encodings and two flushes in turn, each of 8 sizes around the powers of two".into());
    b.push("buffered streams with buffers of 1..=2 bytes: every sequence of 3 (4) operations (execute_io, reading, writing) with every answer of the stream in both directions".into());
    b.push("real encoders through a write buffer with up to two deviating answers; capacities and items on the size ladder".into());
    let mut us = vec![];
    let depths: &[(usize, usize)] = if th { &[(0, 6), (1, 7), (2, 5), (3, 5), (4, 4)] } else { &[(0, 5), (1, 6), (2, 5), (3, 4)] };
    for &(cap, depth) in depths {
        for first in 0..cap + 7 {
            us.push(unit(format!("ops capacity {cap} first {first}"), move |ch| wb_ops(ch, cap, depth, Some(first), &FAILS[..3])));
        }
    }
    for cap in 4..=if th { 10 } else { 8 } {
        let depth = if th { if cap <= 4 { 6 } else if cap <= 7 { 4 } else { 3 } } else { 3 + usize::from(cap <= 5) };
        us.push(unit(format!("wide {cap}"), move |ch| wb_ops(ch, cap, depth, None, &FAILS[..3])));
    }
    for k in kinds() {
        us.push(unit(format!("failing with {k:?}"), move |ch| wb_ops(ch, 2, 4, None, &[k])));
    }
    for (rc, wc) in [(1usize, 1usize), (2, 1), (1, 2), (2, 2), (0, 1)] {
        for first in 0..6 {
            let d = if rc + wc < 4 { 4 } else { 3 };
            us.push(unit(format!("buffered io {rc}/{wc} first {first}"), move |ch| bio(ch, rc, wc, d + usize::from(th), first)));
        }
    }
    for t in enc_terms() {
        us.push(unit(format!("encode {t:?}"), move |ch| wb_encode(ch, &t)));
    }
    for n in scale::ladder(th) {
        us.push(unit(format!("ladder {n}"), move |ch| wb_ladder(ch, n)));
    }
    for cap in big::caps(th) {
        us.push(unit(format!("big {cap}"), move |ch| big::wb(ch, cap, false)));
    }
    b.push("every byte value first, last, at both ends, in the middle or everywhere of streams of 1..=17 and around the powers of two up to 1024 (8192) bytes: 3 capacities, 3 amounts written at a time, 2 ways of writing".into());
    for n in value::huge(th) {
        us.push(unit(format!("huge {n}"), move |ch| value::writes(ch, n, false)));
    }
    for n in value::lens(th) {
        us.push(unit(format!("contents {n}"), move |ch| value::writes(ch, n, false)));
    }
    us.push(unit("states", states));
    us.extend(parts);
    us
}
fn enc_terms() -> Vec<E> {
    vec![
        E::Fix(fix::U8),
        E::Fix(fix::U32BE),
        E::Bytes,
        E::Utf8,
        E::Repeat(Box::new(E::Fix(fix::U16BE))),
        E::Repeat(Box::new(E::Bytes)),
        E::Tup(vec![E::Fix(fix::U8), E::Bytes]),
        E::Length(3, Box::new(E::Bytes)),
        E::Pre(Box::new(E::Bytes)),
        E::Last(Box::new(E::Fix(fix::U16BE))),
        E::Optional(Box::new(E::Fix(fix::U16BE))),
        E::Json,
    ]
}
struct WbModel {
    q: Vec<u8>,
    state: StreamState,
    cap: usize,
}
impl WbModel {
    fn check<B: AsRef<[u8]> + AsMut<[u8]>>(&self, b: &WriteBuf<B>, what: &str) -> Case {
        let m = (self.q.len(), self.q.is_empty(), self.state, self.cap);
        let r = (b.len(), b.is_empty(), b.stream_state(), b.capacity());
        if m != r {
            return Err(format!("after {what}: (len, is_empty, stream_state, capacity) = {r:?}, expected {m:?}"));
        }
        if b.len() + b.room() > self.cap || b.is_full() != (b.room() == 0) {
            return Err(format!("after {what}: len {} room {} full {} capacity {}", b.len(), b.room(), b.is_full(), self.cap));
        }
        if self.q.is_empty() && b.room() != self.cap {
            return Err(format!("after {what}: a drained buffer offers {} of {} bytes", b.room(), self.cap));
        }
        Ok(())
    }
}
fn flushed(writes: &[(Vec<u8>, Ans)], q: &mut Vec<u8>, r: &bytecodec::Result<()>) -> Case {
    for (i, (given, a)) in writes.iter().enumerate() {
        if given.is_empty() || !q.starts_with(given) {
            return Err(format!("the writer was given {given:?}, pending is {q:?}"));
        }
        match a {
            Ans::Bytes(n) => {
                q.drain(..*n);
            }
            _ if i + 1 < writes.len() => return Err(format!("flushing went on after {a:?}")),
            _ => {}
        }
    }
    let last = writes.last().map(|x| x.1);
    match last {
        Some(Ans::Fail(k)) => match r {
            Err(e) if *e.kind() == io_kind(k) => {}
            _ => return Err(format!("write error {k:?} reported as {}", res(r))),
        },
        _ => {
            if let Err(e) = r {
                return Err(format!("flush failed with {:?} after {last:?}", e.kind()));
            }
        }
    }
    if !q.is_empty() && !matches!(last, Some(Ans::Block | Ans::End | Ans::Fail(_))) {
        return Err(format!("flushing stopped after {last:?} with {} bytes pending", q.len()));
    }
    Ok(())
}
/// Encoder of items of a given size that records what it is given.
#[derive(Default)]
struct WRec {
    size: usize,
    done: usize,
    first: u8,
    shown: Vec<(usize, bool)>,
}
impl Encode for WRec {
    type Item = (usize, u8);
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.shown.push((buf.len(), eos.is_reached()));
        let n = (self.size - self.done).min(buf.len());
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = self.first + (self.done + i) as u8;
        }
        if eos.is_reached() && self.done + n < self.size {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        self.done += n;
        Ok(n)
    }
    fn start_encoding(&mut self, item: (usize, u8)) -> bytecodec::Result<()> {
        self.size = item.0;
        self.first = item.1;
        self.done = 0;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        self.done == self.size
    }
}
/// All operations after the `first`, or writing and flushing in turn.
fn wb_ops(ch: &mut Ch, cap: usize, depth: usize, first: Option<usize>, kinds: &[io::ErrorKind]) -> Case {
    let mut b = WriteBuf::new(vec![0xCC; cap]);
    let mut m = WbModel { q: vec![], state: StreamState::Normal, cap };
    let mut next = 1u8;
    let mut accepted: Vec<u8> = vec![];
    let mut given: Vec<u8> = vec![];
    m.check(&b, "creation")?;
    for i in 0..depth {
        let op = match first {
            Some(f) if i == 0 => f,
            Some(_) => ch.pick(cap + 7),
            None if i % 2 == 1 => 0,
            None => 1 + ch.pick(cap + 5),
        };
        let room = b.room();
        ch.state(&(m.q.len(), format!("{:?}", m.state), room, op));
        if op == 0 {
            let env = Env::new(ch, 0, kinds);
            let r = b.flush(&env);
            env.check()?;
            let writes = env.writes.take();
            given.extend(env.written.take());
            let f = env.flushed.get();
            drop(env);
            ch.step();
            ch.log(|| format!("flush {writes:?} -> {} ({f})", res(&r)));
            flushed(&writes, &mut m.q, &r)?;
            if let Some((_, a)) = writes.last() {
                m.state = state_of(*a);
            }
            m.check(&b, "flush")?;
            if b.room() < room {
                return Err(format!("flushing reduced the room from {room} to {}", b.room()));
            }
        } else if op <= cap + 2 {
            let k = op - 1;
            let data: Vec<u8> = (0..k).map(|i| next + i as u8).collect();
            let r = b.write(&data).map_err(|e| format!("write failed: {e}"))?;
            ch.step();
            ch.log(|| format!("write({k}) -> {r}"));
            // a buffer may move its content to make more room
            if r < k.min(room) || r > k.min(cap - m.q.len()) {
                return Err(format!("{r} of {k} bytes written with {room} bytes of room"));
            }
            next += r as u8;
            m.q.extend(&data[..r]);
            accepted.extend(&data[..r]);
            m.check(&b, "write")?;
            if b.room() + r < room {
                return Err(format!("room {} after writing {r} bytes into {room}", b.room()));
            }
        } else if op <= cap + 5 {
            let size = [1, 2, cap + 1][op - cap - 3];
            let mut e = WRec::default();
            e.start_encoding((size, next)).unwrap();
            let asy = ch.pick_bool();
            let r = if asy {
                let w = Waker::noop();
                e.encode_to_write_buf_async(&mut b, &mut Context::from_waker(w))
            } else {
                e.encode_to_write_buf(&mut b)
            };
            ch.step();
            ch.log(|| format!("encode({size}, async={asy}) -> {}", res(&r)));
            let eos = m.state == StreamState::Eos;
            if e.shown.is_empty() || e.shown[0].0 < room || e.shown[0].0 > cap - m.q.len() || e.shown[0].1 != eos {
                return Err(format!("encoder was given {:?}, expected {:?}", e.shown, (room, eos)));
            }
            let n = size.min(e.shown[0].0);
            match r {
                Err(e) if eos && n < size && *e.kind() == ErrorKind::UnexpectedEos => {}
                Ok(()) if !(eos && n < size) => {
                    let data: Vec<u8> = (0..n).map(|i| next + i as u8).collect();
                    next += n as u8;
                    m.q.extend(&data);
                    accepted.extend(&data);
                }
                r => return Err(format!("encode_to_write_buf: {}", res(&r))),
            }
            m.check(&b, "encode_to_write_buf")?;
        } else if ch.pick_bool() {
            // std::io::Write::flush has nothing to do
            Write::flush(&mut b).map_err(|e| format!("{e}"))?;
            m.check(&b, "Write::flush")?;
        } else {
            let s = [StreamState::Eos, StreamState::Normal][ch.pick(2)];
            *b.stream_state_mut() = s;
            m.state = s;
            m.check(&b, "setting the state")?;
        }
    }
    // What is left comes out in order.
    let mut rest = vec![];
    b.flush(&mut rest).map_err(|e| format!("flush: {:?}", e.kind()))?;
    given.extend(rest);
    if given != accepted {
        return Err(format!("the writer got {given:?}, accepted were {accepted:?}"));
    }
    if !b.is_empty() || b.room() != cap {
        return Err("a drained buffer is not empty".into());
    }
    ch.outcome(&given);
    ch.valid();
    Ok(())
}
/// A writer that accepts everything but a limited number of deviations.
struct WScript<'a, 'b> {
    ch: &'a RefCell<&'b mut Ch>,
    out: Vec<u8>,
    dev: usize,
    free: usize,
    kinds: &'a [io::ErrorKind],
    last_err: Option<io::ErrorKind>,
    /// As for the reader; the last write is that which completes `total` bytes.
    sizes: &'a [usize],
    total: usize,
    calls: usize,
    zero: bool,
    ended: bool,
}
impl Write for WScript<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let ch = &mut **self.ch.borrow_mut();
        self.calls += 1;
        let here = self.sizes.is_empty() || self.calls <= 3 || self.out.len() + buf.len() >= self.total;
        let devs = if self.dev > 0 && here { self.kinds.len() + usize::from(self.zero) } else { 0 };
        let shorts = if self.free == 0 || !here {
            0
        } else if self.sizes.is_empty() {
            buf.len() - 1
        } else {
            self.sizes.len()
        };
        let k = ch.pick(1 + shorts + devs);
        let n = if k == 0 {
            buf.len()
        } else if k <= shorts {
            self.free -= 1;
            if self.sizes.is_empty() {
                buf.len() - k
            } else {
                self.sizes[k - 1].clamp(1, buf.len())
            }
        } else {
            self.dev -= 1;
            let i = k - 1 - shorts;
            if i == self.kinds.len() {
                self.ended = true;
                return Ok(0);
            }
            self.last_err = Some(self.kinds[i]);
            return Err(fail(self.kinds[i]));
        };
        self.out.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn wb_encode(ch: &mut Ch, t: &E) -> Case {
    let items = eterm::items(t);
    let item = ch.of(&items).clone();
    let cap = 1 + ch.pick(4);
    let s = eterm::espec(t, &item);
    if s.start.is_some() || s.fail.is_some() || s.tail.is_some() {
        return ch.skip();
    }
    let c = RefCell::new(ch);
    let mut w = WScript { ch: &c, out: vec![], dev: 2, free: 2, kinds: &TROUBLE[..2], last_err: None, sizes: &[], total: 0, calls: 0, zero: false, ended: false };
    let mut b = WriteBuf::new(vec![0; cap]);
    let mut e = eterm::build(t);
    e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
    let mut steps = 0;
    loop {
        e.encode_to_write_buf(&mut b).map_err(|e| format!("encode: {:?} ({t:?})", e.kind()))?;
        c.borrow_mut().step();
        if !e.is_idle() && !b.is_full() {
            return Err(format!("encoder stopped with {} bytes of room ({t:?}, {item:?})", b.room()));
        }
        let full = b.len();
        match b.flush(&mut w) {
            Ok(()) => {}
            Err(e) => {
                if w.last_err.take().map(io_kind) != Some(*e.kind()) {
                    return Err(format!("flush failed with {:?}", e.kind()));
                }
            }
        }
        c.borrow_mut().step();
        c.borrow_mut().state(&(full, b.len(), w.out.len(), cap));
        if e.is_idle() && b.is_empty() {
            break;
        }
        steps += 1;
        if steps > 100 {
            return Err(format!("no progress encoding through a write buffer ({t:?}, {item:?})"));
        }
    }
    let out = std::mem::take(&mut w.out);
    let ch = c.into_inner();
    ch.log(|| format!("{t:?} {item:?} capacity {cap}: {}", hex(&out)));
    if out != s.bytes {
        return Err(format!("the writer got {}, the item is {} ({t:?}, capacity {cap})", hex(&out), hex(&s.bytes)));
    }
    ch.outcome(&out);
    ch.valid();
    Ok(())
}
fn wb_ladder(ch: &mut Ch, n: usize) -> Case {
    let caps = [1024usize, n.max(1), n + 1, 7, 4096, 8192, 65536];
    let cap = *ch.of(&caps);
    if n / cap > 5000 {
        return ch.skip();
    }
    let data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let sizes = [1usize, 1023, 1024, 1025, n / 2];
    let c = RefCell::new(ch);
    let mut w = WScript { ch: &c, out: vec![], dev: 1, free: 2, kinds: &TROUBLE[..2], last_err: None, sizes: &sizes, total: n, calls: 0, zero: false, ended: false };
    let mut b = WriteBuf::new(vec![0; cap]);
    let mut e = BytesEncoder::new();
    e.start_encoding(data.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
    for _ in 0..n / cap + 12 {
        e.encode_to_write_buf(&mut b).map_err(|e| format!("encode: {:?}", e.kind()))?;
        match b.flush(&mut w) {
            Ok(()) if b.is_empty() => {}
            Ok(()) if w.last_err.take() == Some(io::ErrorKind::WouldBlock) => {}
            Ok(()) => return Err(format!("flushing stopped with {} bytes pending", b.len())),
            Err(_) if w.last_err.take().is_some() => {}
            Err(_) => return Err("flush failed for no reason".into()),
        }
        if e.is_idle() && b.is_empty() {
            break;
        }
    }
    let out = std::mem::take(&mut w.out);
    let ch = c.into_inner();
    ch.steps(2);
    ch.state(&(n, cap));
    if out != data || !e.is_idle() || !b.is_empty() {
        return Err(format!("{} of {n} bytes arrived through a write buffer of {cap}", out.len()));
    }
    ch.valid();
    Ok(())
}
struct Both<'a, 'b>(&'a Env<'b>);
impl Read for Both<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        to_io(self.0.do_read(buf))
    }
}
impl Write for Both<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        to_io(self.0.do_write(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn bio(ch: &mut Ch, rc: usize, wc: usize, depth: usize, first: usize) -> Case {
    let env = Env::new(ch, 1, &FAILS[2..]);
    let mut io = BufferedIo::new(Both(&env), rc, wc);
    let mut rm = RbModel { q: VecDeque::new(), state: StreamState::Normal, cap: rc };
    let mut wm = WbModel { q: vec![], state: StreamState::Normal, cap: wc };
    let mut next = 101u8;
    let (mut accepted, mut given): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    for i in 0..depth {
        let op = if i == 0 { first } else { env.ch.borrow_mut().pick(6) };
        match op {
            0 | 5 => {
                let room = rc - rm.q.len();
                let r = io.execute_io();
                env.check()?;
                env.ch.borrow_mut().step();
                let reads = env.reads.take();
                let writes = env.writes.take();
                let got = env.delivered.take();
                given.extend(env.written.take());
                env.ch.borrow_mut().log(|| format!("execute_io: reads {reads:?}, writes {writes:?} -> {}", res(&r)));
                rm.q.extend(&got);
                let rfail = matches!(reads.last(), Some((_, Ans::Fail(_))));
                let wfail = matches!(writes.last(), Some((_, Ans::Fail(_))));
                let full = io.read_buf_ref().is_full();
                match (rfail, wfail) {
                    (true, _) => filled(&reads, room, &r, full)?,
                    (false, true) => filled(&reads, room, &Ok(()), full)?,
                    _ => {
                        if let Err(e) = &r {
                            return Err(format!("execute_io failed with {:?}", e.kind()));
                        }
                        filled(&reads, room, &Ok(()), full)?
                    }
                }
                if !rfail || !writes.is_empty() {
                    let same = Ok(());
                    flushed(&writes, &mut wm.q, if wfail && !rfail { &r } else { &same })?;
                }
                if let Some((_, a)) = reads.last() {
                    rm.state = state_of(*a);
                }
                if let Some((_, a)) = writes.last() {
                    wm.state = state_of(*a);
                }
            }
            1 | 2 => {
                let mut buf = vec![0; op];
                let n = io.read_buf_mut().read(&mut buf).map_err(|e| format!("{e}"))?;
                let k = op.min(rm.q.len());
                let want: Vec<u8> = rm.q.drain(..k).collect();
                env.ch.borrow_mut().step();
                if buf[..n] != want[..] {
                    return Err(format!("read {:?}, expected {want:?}", &buf[..n]));
                }
            }
            _ => {
                let k = op - 2;
                let data: Vec<u8> = (0..k).map(|i| next + i as u8).collect();
                let n = io.write_buf_mut().write(&data).map_err(|e| format!("{e}"))?;
                env.ch.borrow_mut().step();
                next += n as u8;
                wm.q.extend(&data[..n]);
                accepted.extend(&data[..n]);
            }
        }
        rm.check(io.read_buf_ref(), "an operation (read side)")?;
        wm.check(io.write_buf_ref(), "an operation (write side)")?;
        let eos = rm.state == StreamState::Eos || wm.state == StreamState::Eos;
        let block = rm.state == StreamState::WouldBlock && (wm.q.is_empty() || wm.state == StreamState::WouldBlock);
        if io.is_eos() != eos || io.would_block() != block {
            return Err(format!("is_eos={} would_block={}, expected {eos} {block} (states {:?}, {:?}, {} bytes to write)", io.is_eos(), io.would_block(), rm.state, wm.state, wm.q.len()));
        }
        env.ch.borrow_mut().state(&(rm.q.len(), wm.q.len(), eos, block, format!("{:?}{:?}", rm.state, wm.state)));
    }
    given.extend(&wm.q);
    if given != accepted {
        return Err(format!("the stream got {given:?} (with what is pending), accepted were {accepted:?}"));
    }
    if !std::ptr::eq(io.stream_ref().0, &env) || !std::ptr::eq(io.stream_mut().0, &env) || !std::ptr::eq(io.into_stream().0, &env) {
        return Err("not the stream".into());
    }
    let ch = env.ch.into_inner();
    ch.outcome(&given);
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- C18

pub fn c18(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("decode_exact: every decoder term up to depth 2 (3) x every stream x up to 2 short reads and 2 failing reads (4 kinds) at every position, retried after each failure; sizes around 1024, 2048 and the ladder".into());
    b.push("encode_all: every encoder term up to depth 2 (3) x items x short writes, failures (4 kinds), closing at every write; sizes on the ladder".into());
    b.push("20 decoders and 12 encoders with every kind of I/O error there is (37) at every read (twice) and write".into());
    b.push("items of 2^k bytes and its neighbours up to 2^64 with streams that break off or end after up to 5000 bytes".into());
    b.push("decoders and encoders that make no progress: both drivers return".into());
    let mut us = vec![];
    let dt = if th { dterm::terms(false) } else { shallow_d() };
    for t in dt {
        us.push(unit(format!("decode_exact {t:?}"), move |ch| {
            let (alpha, max) = dterm::inputs(&t, false);
            let inp = pick_input(ch, &alpha, max);
            let w = dec::exact_out(&t, &inp);
            let few = alpha.is_empty();
            exact_retry(ch, &t, &inp, if few { 2 } else { 1 }, if few { 2 } else { 1 }, &[], &IOFAILS, &w)
        }));
    }
    let et = if th { eterm::terms(false) } else { shallow_e() };
    for t in et {
        us.push(unit(format!("encode_all {t:?}"), move |ch| {
            let items = eterm::items(&t);
            let item = ch.of(&items).clone();
            all_faulty(ch, &t, &item, &[], &IOFAILS)
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, inp)) in scale::dterms(n).into_iter().enumerate() {
            us.push(unit(format!("decode_exact ladder {n}/{i}"), move |ch| {
                let w = match dec::final_out(&t, &inp, drive::Mode::WithLast) {
                    drive::Out::Item { used, val } => (val, Some(used)),
                    drive::Out::Pending { .. } => (Err(EOS), None),
                    drive::Out::Fail { kind, .. } => (Err(kind), None),
                };
                exact_retry(ch, &t, &inp, 1, 1, &[1, 1023, 1024, 1025], &IOFAILS, &w)
            }));
        }
        for (i, (t, item)) in enc::eladder(n).into_iter().enumerate() {
            us.push(unit(format!("encode_all ladder {n}/{i}"), move |ch| all_faulty(ch, &t, &item, &[1, 1023, 1024, 1025], &IOFAILS)));
        }
    }
    for kind in errs::IO_KINDS.iter().copied() {
        for t in io_terms() {
            us.push(unit(format!("decode_exact {t:?} failing with {kind:?}"), move |ch| {
                let (alpha, max) = dterm::inputs(&t, false);
                let inp = pick_input(ch, &alpha, max.min(3));
                let w = dec::exact_out(&t, &inp);
                exact_retry(ch, &t, &inp, 1, 2, &[], &[kind], &w)
            }));
        }
        for t in enc_terms() {
            us.push(unit(format!("encode_all {t:?} failing with {kind:?}"), move |ch| {
                let items = eterm::items(&t);
                let item = ch.of(&items).clone();
                all_faulty(ch, &t, &item, &[], &[kind])
            }));
        }
    }
    b.push("every byte value first, last, at both ends, in the middle or everywhere of items of 1..=17 and around the powers of two up to 1024 (8192) bytes".into());
    for n in value::lens(th) {
        for kind in [0, 3, 8] {
            us.push(unit(format!("contents decoding {n} {}", value::DECODERS[kind]), move |ch| value::decoding(ch, kind, n)));
        }
        for kind in [0, 2, 6] {
            us.push(unit(format!("contents encoding {n} {}", value::ENCODERS[kind]), move |ch| value::encoding(ch, kind, n)));
        }
    }
    for n in value::huge(th) {
        for kind in 0..value::DECODERS.len() {
            us.push(unit(format!("huge decoding {n} {}", value::DECODERS[kind]), move |ch| value::decoding(ch, kind, n)));
        }
        for kind in 0..value::ENCODERS.len() {
            us.push(unit(format!("huge encoding {n} {}", value::ENCODERS[kind]), move |ch| value::encoding(ch, kind, n)));
        }
    }
    us.push(unit("decode_exact of huge items", big::exact));
    us.push(unit("encode_all of huge items", big::all));
    us.push(unit("no progress decoding", stuck_dec));
    us.push(unit("no progress encoding", stuck_enc));
    us
}
pub fn shallow_d() -> Vec<D> {
    let l = dterm::leaves();
    let mut v: Vec<D> = l.iter().flat_map(dterm::unary).collect();
    v.extend(dterm::pairs(&l, &l));
    v.extend(l);
    v.extend(dterm::tuples());
    v.retain(dterm::well_formed);
    v
}
pub fn shallow_e() -> Vec<E> {
    let l = eterm::leaves();
    let mut v: Vec<E> = l.iter().flat_map(eterm::unary).collect();
    v.extend(eterm::pairs(&l, &l));
    v.extend(l);
    v.extend(eterm::tuples());
    v.retain(eterm::well_formed);
    v
}
const IOFAILS: [io::ErrorKind; 4] = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock];
fn exact_retry(ch: &mut Ch, t: &D, inp: &[u8], free: usize, dev: usize, sizes: &[usize], kinds: &[io::ErrorKind], want: &(Result<V, Ks>, Option<usize>)) -> Case {
    let mut d = dterm::build(t);
    let c = RefCell::new(ch);
    let mut rd = Script { ch: &c, data: inp, pos: 0, dev, free, kinds, last_err: None, sizes, calls: 0 };
    let mut tries = 0;
    let r = loop {
        let r = d.decode_exact(&mut rd);
        c.borrow_mut().step();
        match (rd.last_err.take(), &r) {
            (None, _) => break r,
            (Some(k), Err(e)) if *e.kind() == io_kind(k) => {}
            (Some(io::ErrorKind::Interrupted), _) => break r,
            (Some(k), _) => return Err(format!("read error {k:?} reported as {} ({t:?}, {})", dec::cut(&res(&r)), hex(inp))),
        }
        tries += 1;
        if tries > 9 {
            return Err("endless retries".into());
        }
    };
    let pos = rd.pos;
    let ch = c.into_inner();
    ch.state(&(pos, tries, r.is_ok(), fx(inp)));
    ch.log(|| format!("{t:?} on {}: {} after {tries} errors, reader at {pos}", hex(inp), dec::cut(&res(&r))));
    let grammar_bad = matches!(want.0, Err(ANY)) || dterm::overlong(t);
    match (&r, &want.0) {
        (Ok(v), Ok(w)) if v == w => {
            if want.1 != Some(pos) {
                return Err(format!("decode_exact took {pos} bytes, the item has {:?} ({t:?}, {})", want.1, hex(inp)));
            }
        }
        (Err(e), Err(ks)) if ks.has(*e.kind()) || grammar_bad => {}
        _ => return Err(format!("decode_exact gave {} after {tries} read errors, prescribed {} ({t:?}, {})", dec::cut(&res(&r)), dec::cut(&format!("{:?}", want.0)), hex(inp))),
    }
    ch.outcome(&(pos, r.is_ok(), tries));
    ch.valid();
    Ok(())
}
fn all_faulty(ch: &mut Ch, t: &E, item: &V, sizes: &[usize], kinds: &[io::ErrorKind]) -> Case {
    let s = eterm::espec(t, item);
    if s.start.is_some() || s.tail.is_some() {
        return ch.skip();
    }
    let mut e = eterm::build(t);
    e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
    let c = RefCell::new(ch);
    let mut w = WScript { ch: &c, out: vec![], dev: 1, free: 2, kinds, last_err: None, sizes, total: s.bytes.len(), calls: 0, zero: true, ended: false };
    let r = e.encode_all(&mut w);
    let (out, le, ended) = (std::mem::take(&mut w.out), w.last_err, w.ended);
    let ch = c.into_inner();
    ch.step();
    ch.log(|| format!("{t:?} {}: {} bytes, {}", dec::cut(&format!("{item:?}")), out.len(), res(&r)));
    ch.state(&(out.len(), r.is_ok(), fx(item)));
    if !s.bytes.starts_with(&out) {
        return Err(format!("the writer got {}, the item is {} ({t:?})", hex(&out), hex(&s.bytes)));
    }
    let io = match le {
        Some(io::ErrorKind::Interrupted) => None,
        Some(k) => Some(io_kind(k)),
        None if ended => Some(ErrorKind::Other),
        None => None,
    };
    match (&r, io, s.fail) {
        (Err(e), Some(k), _) if *e.kind() == k => {}
        (Err(e), None, Some((_, k))) if k.has(*e.kind()) => {}
        (Ok(()), None, None) if out == s.bytes && e.is_idle() => {}
        _ => {
            return Err(format!(
                "encode_all: {} after {} of {} bytes, write error {le:?}, closed={ended}, idle={} ({t:?})",
                res(&r),
                out.len(),
                s.bytes.len(),
                e.is_idle()
            ))
        }
    }
    ch.outcome(&(out.len(), r.is_ok()));
    ch.valid();
    Ok(())
}
/// A decoder that consumes or requires strange numbers of bytes and never finishes.
struct Stuck {
    req: ByteCount,
    take: usize,
    calls: usize,
}
impl Decode for Stuck {
    type Item = ();
    fn decode(&mut self, buf: &[u8], _: Eos) -> bytecodec::Result<usize> {
        self.calls += 1;
        if self.calls > 5000 {
            panic!("decode_exact spins");
        }
        Ok(self.take.min(buf.len()))
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        Err(err(ErrorKind::IncompleteDecoding))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.req
    }
    fn is_idle(&self) -> bool {
        false
    }
}
fn stuck_dec(ch: &mut Ch) -> Case {
    let req = *ch.of(&[ByteCount::Finite(0), ByteCount::Finite(1), ByteCount::Finite(5000), ByteCount::Infinite, ByteCount::Unknown]);
    let take = *ch.of(&[usize::MAX, 0, 1]);
    let n = *ch.of(&[0usize, 1, 5, 1024, 1025, 3000]);
    let data = vec![1; n];
    let mut d = Stuck { req, take, calls: 0 };
    let r = d.decode_exact(&data[..]);
    ch.steps(d.calls as u64);
    ch.state(&(n, take, format!("{req:?}")));
    ch.outcome(&res(&r));
    match r {
        Err(_) => {
            ch.valid();
            Ok(())
        }
        Ok(()) => Err("an item out of nothing".into()),
    }
}
struct StuckE(usize);
impl Encode for StuckE {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        self.0 += 1;
        if self.0 > 50 {
            panic!("encode_all spins");
        }
        Ok(if self.0 < 3 { buf.len() } else { 0 })
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        false
    }
}
fn stuck_enc(ch: &mut Ch) -> Case {
    let mut out = vec![];
    let r = StuckE(0).encode_all(&mut out);
    ch.step();
    ch.state(&out.len());
    match r {
        Err(_) => {}
        Ok(()) => return Err("a busy encoder was left".into()),
    }
    let r = StuckE(0).encode_into_bytes(());
    ch.step();
    match r {
        Err(_) => {
            ch.valid();
            Ok(())
        }
        Ok(_) => Err("a busy encoder was left".into()),
    }
}

// ---------------------------------------------------------------- C19

pub fn c19(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("read and write buffers of capacity 1..=3: every script of answers for 5 (6) rounds (one less for 3 bytes), executed with the blocking and with the poll-based operation, states and contents compared after each round".into());
    b.push("read and write buffers of capacity 4..=8 (10): every script of answers for 2 rounds (3 up to 5 bytes); execute_io_poll with buffers of 2..=6 bytes for 1 to 2 rounds".into());
    b.push("every kind of I/O error there is (36), at every read and write".into());
    b.push("buffers of 15 to 70000 bytes around the powers of two: three fills (writes) and two reads (flushes) in turn, each of 8 sizes around the powers of two".into());
    b.push("execute_io_poll with buffers of 1..=2 bytes: every answer in both directions for 3 to 4 (5) rounds, against fill and flush of separate buffers".into());
    let mut us = vec![];
    let rounds = 5 + usize::from(th);
    for cap in 0..=3usize {
        for take in 0..=2usize {
            us.push(unit(format!("fill capacity {cap} take {take}"), move |ch| poll_fill(ch, cap, take, if cap == 3 { rounds - 1 } else { rounds }, &FAILS[..3])));
            us.push(unit(format!("flush capacity {cap} put {take}"), move |ch| poll_flush(ch, cap, take + 1, if cap == 3 { rounds - 1 } else { rounds }, &FAILS[..3])));
        }
    }
    for cap in 4..=if th { 10 } else { 8 } {
        for k in [1, 3, cap - 1, cap] {
            let rounds = if cap <= 5 { 3 } else { 2 };
            us.push(unit(format!("fill wide {cap} take {k}"), move |ch| poll_fill(ch, cap, k, rounds, &FAILS[..3])));
            us.push(unit(format!("flush wide {cap} put {k}"), move |ch| poll_flush(ch, cap, k, rounds, &FAILS[..3])));
        }
    }
    for k in kinds() {
        us.push(unit(format!("fill failing with {k:?}"), move |ch| poll_fill(ch, 2, 1, 3, &[k])));
        us.push(unit(format!("flush failing with {k:?}"), move |ch| poll_flush(ch, 2, 2, 3, &[k])));
    }
    for (rc, wc, rounds) in [(3usize, 3usize, 2), (5, 2, 2), (2, 5, 2), (6, 6, 1)] {
        us.push(unit(format!("execute_io_poll wide {rc}/{wc}"), move |ch| poll_both(ch, rc, wc, wc, rounds)));
    }
    for rc in 0..=2usize {
        for wc in 0..=2usize {
            for pre in 0..=wc {
                us.push(unit(format!("execute_io_poll {rc}/{wc} with {pre}"), move |ch| poll_both(ch, rc, wc, pre, 3 + usize::from(rc + wc < 4) + usize::from(th && rc + wc < 3))));
            }
        }
    }
    for n in scale::ladder(th) {
        us.push(unit(format!("ladder {n}"), move |ch| poll_ladder(ch, n)));
    }
    for cap in big::caps(th) {
        us.push(unit(format!("big fill {cap}"), move |ch| big::rb(ch, cap, true)));
        us.push(unit(format!("big flush {cap}"), move |ch| big::wb(ch, cap, true)));
    }
    b.push("every byte value first, last, at both ends, in the middle or everywhere of streams of 1..=17 and around the powers of two up to 1024 (8192) bytes".into());
    for n in value::huge(th) {
        us.push(unit(format!("huge fill {n}"), move |ch| value::reads(ch, n, true)));
        us.push(unit(format!("huge flush {n}"), move |ch| value::writes(ch, n, true)));
    }
    for n in value::lens(th) {
        us.push(unit(format!("contents fill {n}"), move |ch| value::reads(ch, n, true)));
        us.push(unit(format!("contents flush {n}"), move |ch| value::writes(ch, n, true)));
    }
    us
}
/// Repeats recorded answers, or takes the answer from the environment.
pub struct Replay<'a> {
    reads: VecDeque<Ans>,
    writes: VecDeque<Ans>,
    next: u8,
    pub got: Vec<u8>,
    log_reads: Vec<usize>,
    log_writes: Vec<Vec<u8>>,
    waker: &'a Waker,
    pending: usize,
    trouble: Option<String>,
}
impl<'a> Replay<'a> {
    fn new(waker: &'a Waker) -> Self {
        Replay { reads: VecDeque::new(), writes: VecDeque::new(), next: 1, got: vec![], log_reads: vec![], log_writes: vec![], waker, pending: 0, trouble: None }
    }
}
impl AsyncRead for Replay<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        if !cx.waker().will_wake(self.waker) {
            self.trouble = Some("poll_read got another context".into());
        }
        let room = buf.remaining();
        self.log_reads.push(room);
        match self.reads.pop_front() {
            Some(Ans::Bytes(n)) => {
                if n > room {
                    self.trouble = Some(format!("poll_read got {room} bytes of room, the blocking read had more"));
                    return Poll::Ready(Ok(()));
                }
                for _ in 0..n {
                    let b = self.next;
                    self.next = b.wrapping_add(1);
                    buf.put_slice(&[b]);
                }
                Poll::Ready(Ok(()))
            }
            Some(Ans::Block) => {
                self.pending += 1;
                Poll::Pending
            }
            Some(Ans::End) => Poll::Ready(Ok(())),
            Some(Ans::Fail(k)) => Poll::Ready(Err(fail(k))),
            None => {
                self.trouble = Some("more reads than by the blocking operation".into());
                Poll::Ready(Err(fail(io::ErrorKind::Other)))
            }
        }
    }
}
impl AsyncWrite for Replay<'_> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if !cx.waker().will_wake(self.waker) {
            self.trouble = Some("poll_write got another context".into());
        }
        self.log_writes.push(buf.to_vec());
        match self.writes.pop_front() {
            Some(Ans::Bytes(n)) => {
                if n > buf.len() {
                    self.trouble = Some(format!("poll_write got {} bytes, the blocking write had more", buf.len()));
                    return Poll::Ready(Ok(0));
                }
                self.got.extend(&buf[..n]);
                Poll::Ready(Ok(n))
            }
            Some(Ans::Block) => {
                self.pending += 1;
                Poll::Pending
            }
            Some(Ans::End) => Poll::Ready(Ok(0)),
            Some(Ans::Fail(k)) => Poll::Ready(Err(fail(k))),
            None => {
                self.trouble = Some("more writes than by the blocking operation".into());
                Poll::Ready(Err(fail(io::ErrorKind::Other)))
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn poll_res(p: &Poll<bytecodec::Result<()>>) -> String {
    match p {
        Poll::Pending => "Pending".into(),
        Poll::Ready(r) => res(r),
    }
}
/// The answer expected of the poll-based operation.
fn poll_like(blocking: &bytecodec::Result<()>, state: StreamState, polled: &Poll<bytecodec::Result<()>>, pending: usize) -> Case {
    let ok = match (blocking, polled) {
        (Err(a), Poll::Ready(Err(b))) => a.kind() == b.kind(),
        (Ok(()), Poll::Pending) => pending > 0 && state == StreamState::WouldBlock,
        (Ok(()), Poll::Ready(Ok(()))) => pending == 0,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("blocking: {} (state {state:?}), polled: {} ({pending} pending answers)", res(blocking), poll_res(polled)))
    }
}
fn my_waker() -> Waker {
    Arc::new(Flag(AtomicBool::new(false))).into()
}
fn poll_fill(ch: &mut Ch, cap: usize, take: usize, rounds: usize, kinds: &[io::ErrorKind]) -> Case {
    let (w, w2) = (my_waker(), my_waker());
    let mut a = ReadBuf::new(vec![0; cap]);
    let mut b = ReadBuf::new(vec![0; cap]);
    let mut next = 1u8;
    let mut r2 = Replay::new(&w);
    for i in 0..rounds {
        let env = Env::new(ch, next, kinds);
        let ra = a.fill(&env);
        next = env.next.get();
        let reads = env.reads.take();
        drop(env);
        ch.step();
        r2.reads = reads.iter().map(|x| x.1).collect();
        r2.log_reads.clear();
        r2.pending = 0;
        // every poll comes with its own waker
        r2.waker = if i % 2 == 0 { &w } else { &w2 };
        let waker = r2.waker;
        let rb = b.poll_fill(Pin::new(&mut r2), &mut Context::from_waker(waker));
        ch.step();
        ch.log(|| format!("fill {reads:?}: {} / {}", res(&ra), poll_res(&rb)));
        if let Some(t) = r2.trouble {
            return Err(t);
        }
        if !r2.reads.is_empty() {
            return Err("fewer reads than by the blocking operation".into());
        }
        let la: Vec<usize> = reads.iter().map(|x| x.0).collect();
        if la != r2.log_reads {
            return Err(format!("rooms offered: blocking {la:?}, polled {:?}", r2.log_reads));
        }
        poll_like(&ra, a.stream_state(), &rb, r2.pending)?;
        if (a.len(), a.room(), a.is_full(), a.is_empty(), a.stream_state()) != (b.len(), b.room(), b.is_full(), b.is_empty(), b.stream_state()) {
            return Err(format!("after filling: blocking {:?}, polled {:?}", (a.len(), a.room(), a.stream_state()), (b.len(), b.room(), b.stream_state())));
        }
        ch.state(&(a.len(), a.room(), i, format!("{:?}", a.stream_state())));
        let (mut xa, mut xb) = (vec![0; take], vec![0; take]);
        let na = a.read(&mut xa).map_err(|e| e.to_string())?;
        let nb = b.read(&mut xb).map_err(|e| e.to_string())?;
        if na != nb || xa != xb {
            return Err(format!("contents differ: {xa:?} / {xb:?}"));
        }
    }
    let (mut xa, mut xb): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let mut buf = [0u8; 16];
    let n = a.read(&mut buf).unwrap();
    xa.extend(&buf[..n]);
    let n = b.read(&mut buf).unwrap();
    xb.extend(&buf[..n]);
    if xa != xb {
        return Err(format!("contents differ: {xa:?} / {xb:?}"));
    }
    ch.outcome(&xa);
    ch.valid();
    Ok(())
}
fn poll_flush(ch: &mut Ch, cap: usize, put: usize, rounds: usize, kinds: &[io::ErrorKind]) -> Case {
    let (w, w2) = (my_waker(), my_waker());
    let mut a = WriteBuf::new(vec![0; cap]);
    let mut b = WriteBuf::new(vec![0; cap]);
    let mut next = 1u8;
    let mut r2 = Replay::new(&w);
    let mut written = vec![];
    for i in 0..rounds {
        let data: Vec<u8> = (0..put).map(|i| next + i as u8).collect();
        let na = a.write(&data).unwrap();
        let nb = b.write(&data).unwrap();
        if na != nb {
            return Err(format!("{na} / {nb} bytes accepted"));
        }
        next += na as u8;
        let env = Env::new(ch, 0, kinds);
        let ra = a.flush(&env);
        let writes = env.writes.take();
        written.extend(env.written.take());
        drop(env);
        ch.step();
        r2.writes = writes.iter().map(|x| x.1).collect();
        r2.log_writes.clear();
        r2.pending = 0;
        r2.waker = if i % 2 == 0 { &w } else { &w2 };
        let waker = r2.waker;
        let rb = b.poll_flush(Pin::new(&mut r2), &mut Context::from_waker(waker));
        ch.step();
        ch.log(|| format!("flush {writes:?}: {} / {}", res(&ra), poll_res(&rb)));
        if let Some(t) = r2.trouble {
            return Err(t);
        }
        if !r2.writes.is_empty() {
            return Err("fewer writes than by the blocking operation".into());
        }
        let la: Vec<Vec<u8>> = writes.into_iter().map(|x| x.0).collect();
        if la != r2.log_writes {
            return Err(format!("bytes offered: blocking {la:?}, polled {:?}", r2.log_writes));
        }
        poll_like(&ra, a.stream_state(), &rb, r2.pending)?;
        if (a.len(), a.room(), a.is_full(), a.is_empty(), a.stream_state()) != (b.len(), b.room(), b.is_full(), b.is_empty(), b.stream_state()) {
            return Err(format!("after flushing: blocking {:?}, polled {:?}", (a.len(), a.room(), a.stream_state()), (b.len(), b.room(), b.stream_state())));
        }
        ch.state(&(a.len(), a.room(), i, format!("{:?}", a.stream_state())));
    }
    if written != r2.got {
        return Err(format!("written: blocking {written:?}, polled {:?}", r2.got));
    }
    let (mut xa, mut xb) = (vec![], vec![]);
    a.flush(&mut xa).unwrap();
    b.flush(&mut xb).unwrap();
    if xa != xb {
        return Err(format!("contents differ: {xa:?} / {xb:?}"));
    }
    ch.outcome(&written);
    ch.valid();
    Ok(())
}
fn poll_both(ch: &mut Ch, rc: usize, wc: usize, pre: usize, rounds: usize) -> Case {
    let w = my_waker();
    // the reference: separate buffers, blocking operations
    let mut ra = ReadBuf::new(vec![0; rc]);
    let mut wa = WriteBuf::new(vec![0; wc]);
    let mut io = BufferedIo::new(Replay::new(&w), rc, wc);
    let mut next = 1u8;
    let mut put = 101u8;
    let mut written = vec![];
    for i in 0..rounds {
        let data: Vec<u8> = (0..pre).map(|k| put + k as u8).collect();
        let n = wa.write(&data).unwrap();
        put += n as u8;
        let m = io.write_buf_mut().write(&data).unwrap();
        if n != m {
            return Err(format!("{n} / {m} bytes accepted"));
        }
        let env = Env::new(ch, next, &FAILS[1..3]);
        let r1 = ra.fill(&env);
        let r2 = wa.flush(&env);
        next = env.next.get();
        let reads = env.reads.take();
        let writes = env.writes.take();
        written.extend(env.written.take());
        drop(env);
        ch.steps(2);
        {
            let s = io.stream_mut();
            s.reads = reads.iter().map(|x| x.1).collect();
            s.writes = writes.iter().map(|x| x.1).collect();
            s.log_reads.clear();
            s.log_writes.clear();
        }
        let p = Pin::new(&mut io).execute_io_poll(&mut Context::from_waker(&w));
        ch.step();
        ch.log(|| format!("reads {reads:?} -> {}, writes {writes:?} -> {}: {}", res(&r1), res(&r2), poll_res(&p)));
        let rpend = matches!(reads.last(), Some((_, Ans::Block)));
        let wpend = matches!(writes.last(), Some((_, Ans::Block)));
        let s = io.stream_mut();
        if let Some(t) = s.trouble.take() {
            return Err(t);
        }
        let werr = r2.as_ref().err().map(|e| *e.kind());
        let ok = match (&r1, &p) {
            (Err(e), Poll::Ready(Err(x))) => e.kind() == x.kind() || werr == Some(*x.kind()),
            (Ok(()), Poll::Ready(Err(x))) => werr == Some(*x.kind()),
            (Ok(()), Poll::Pending) => rpend && wpend,
            (Ok(()), Poll::Ready(Ok(()))) => werr.is_none() && !(rpend && wpend),
            _ => false,
        };
        if !ok {
            return Err(format!("reads {reads:?} -> {}, writes {writes:?} -> {}: {}", res(&r1), res(&r2), poll_res(&p)));
        }
        if r1.is_err() && !s.writes.is_empty() && s.log_writes.is_empty() {
            // an implementation may stop at a read error; nothing else to compare then
            return Ok(());
        }
        if !s.reads.is_empty() || !s.writes.is_empty() {
            return Err("fewer operations than by the blocking buffers".into());
        }
        let (rb, wb) = (io.read_buf_ref(), io.write_buf_ref());
        if (ra.len(), ra.room(), ra.stream_state()) != (rb.len(), rb.room(), rb.stream_state()) {
            return Err(format!("read side: blocking {:?}, polled {:?}", (ra.len(), ra.room(), ra.stream_state()), (rb.len(), rb.room(), rb.stream_state())));
        }
        if (wa.len(), wa.room(), wa.stream_state()) != (wb.len(), wb.room(), wb.stream_state()) {
            return Err(format!("write side: blocking {:?}, polled {:?}", (wa.len(), wa.room(), wa.stream_state()), (wb.len(), wb.room(), wb.stream_state())));
        }
        ch.state(&(ra.len(), ra.room(), wa.len(), wa.room(), i, rpend, wpend));
        let (mut xa, mut xb) = ([0; 1], [0; 1]);
        if ra.read(&mut xa).unwrap() != io.read_buf_mut().read(&mut xb).unwrap() || xa != xb {
            return Err(format!("contents differ: {xa:?} / {xb:?}"));
        }
    }
    if io.stream_ref().got != written {
        return Err(format!("written: blocking {written:?}, polled {:?}", io.stream_ref().got));
    }
    ch.outcome(&(written, ra.len()));
    ch.valid();
    Ok(())
}
fn poll_ladder(ch: &mut Ch, n: usize) -> Case {
    let cap = n + ch.pick(2);
    let w = my_waker();
    let cut = *ch.of(&[n, n / 2, n.saturating_sub(1), 1, 1024, 4096]);
    let cut = cut.min(n);
    let mut s = Replay::new(&w);
    let mut script: Vec<Ans> = vec![];
    if cut > 0 {
        script.push(Ans::Bytes(cut));
    }
    if cut < cap {
        script.push(Ans::Block);
    }
    s.reads = script.iter().copied().collect();
    s.writes = script.iter().copied().collect();
    let mut b = ReadBuf::new(vec![0; cap]);
    let p = b.poll_fill(Pin::new(&mut s), &mut Context::from_waker(&w));
    ch.step();
    if p.is_pending() != (cut < cap) || b.len() != cut || b.room() != cap - cut || b.is_full() != (cut == cap) {
        return Err(format!("capacity {cap}, {cut} bytes delivered: {} len {} room {}", poll_res(&p), b.len(), b.room()));
    }
    let mut x = vec![];
    b.read_to_end(&mut x).map_err(|e| e.to_string())?;
    if x.len() != cut || x.iter().enumerate().any(|(i, b)| *b != (i as u8).wrapping_add(1)) {
        return Err(format!("wrong contents after {cut} bytes"));
    }
    let mut b = WriteBuf::new(vec![0; cap]);
    let data: Vec<u8> = (0..cap).map(|i| (i * 3 + i / 251) as u8).collect();
    b.write_all(&data).map_err(|e| e.to_string())?;
    let p = b.poll_flush(Pin::new(&mut s), &mut Context::from_waker(&w));
    ch.step();
    if p.is_pending() != (cut < cap) || b.len() != cap - cut || s.got != data[..cut] {
        return Err(format!("capacity {cap}, {cut} bytes taken: {} len {}", poll_res(&p), b.len()));
    }
    let mut rest = vec![];
    b.flush(&mut rest).map_err(|e| format!("{:?}", e.kind()))?;
    if rest != data[cut..] {
        return Err("wrong rest".into());
    }
    ch.state(&(cap, cut));
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- C20

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
pub fn c20(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    let dev = if th { 3 } else { 2 };
    b.push(format!("an encoding task and a flushing task over a write buffer of 1..=4 bytes: every schedule of the runnable tasks and of the writer becoming writable, every short write, up to {dev} would-block and {} failing answers, yields after items, blocking / poll-based / alternating flush; wakers are valid for one poll only", 1));
    b.push("4 encoders (4-byte numbers, byte strings, repeated numbers, mixed tuple), 2 items each".into());
    b.push("every state in which the buffer has just regained room: the stored waker has been woken".into());
    let mut us = vec![];
    for cap in 1..=4usize {
        for kind in 0..4usize {
            for flush in 0..3usize {
                for which in 0..dev + 1 {
                    us.push(unit(format!("capacity {cap} encoder {kind} flush {flush} blocks {which}"), move |ch| tasks(ch, cap, kind, flush, which, th)));
                }
            }
        }
        for flush in 0..2usize {
            us.push(unit(format!("wake capacity {cap} flush {flush}"), move |ch| wake_once(ch, cap, flush)));
        }
    }
    us.push(unit("wake through execute_io_poll", wake_bio));
    us
}
struct Shared {
    /// What is registered with the writer.
    waker: Option<Waker>,
    blocked: bool,
    blocks_left: usize,
    errs_left: usize,
    shorts_left: usize,
    out: Vec<u8>,
}
struct TaskWriter<'a, 'b> {
    ch: &'a RefCell<&'b mut Ch>,
    s: &'a RefCell<Shared>,
}
impl TaskWriter<'_, '_> {
    fn go(&mut self, buf: &[u8]) -> Option<io::Result<usize>> {
        let s = &mut *self.s.borrow_mut();
        if s.blocked {
            return None;
        }
        let shorts = if s.shorts_left > 0 { buf.len() - 1 } else { 0 };
        let n = 1 + shorts + usize::from(s.blocks_left > 0) + usize::from(s.errs_left > 0);
        let k = self.ch.borrow_mut().pick(n);
        let c = if k == 0 {
            buf.len()
        } else if k <= shorts {
            s.shorts_left -= 1;
            k
        } else if k == shorts + 1 && s.blocks_left > 0 {
            s.blocks_left -= 1;
            s.blocked = true;
            return None;
        } else {
            s.errs_left -= 1;
            return Some(Err(fail(io::ErrorKind::Other)));
        };
        s.out.extend(&buf[..c]);
        Some(Ok(c))
    }
}
impl Write for TaskWriter<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.go(buf).unwrap_or_else(|| Err(fail(io::ErrorKind::WouldBlock)))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncWrite for TaskWriter<'_, '_> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.go(buf) {
            Some(r) => Poll::Ready(r),
            None => {
                self.s.borrow_mut().waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
type TaskEnc = Box<dyn Encode<Item = usize>>;
fn task_enc(kind: usize) -> TaskEnc {
    match kind {
        0 => Box::new(U32beEncoder::new().map_from(|i: usize| 0x0102_0304 + 0x1000_0000 * i as u32)),
        1 => Box::new(BytesEncoder::new().map_from(|i: usize| (0..5 - i as u8).collect::<Vec<u8>>())),
        2 => Box::new(U16beEncoder::new().repeat().map_from(|i: usize| (0..2 + i as u16).map(|x| x * 257 + 1).collect::<Vec<u16>>().into_iter())),
        _ => Box::new(bytecodec::tuple::TupleEncoder::<(U8Encoder, BytesEncoder)>::default().map_from(|i: usize| (3 + i as u8, vec![7u8; 3 + i]))),
    }
}
const ITEMS: usize = 2;
fn tasks(ch: &mut Ch, cap: usize, kind: usize, flush: usize, blocks: usize, th: bool) -> Case {
    let mut want = vec![];
    for i in 0..ITEMS {
        want.extend(task_enc(kind).encode_into_bytes(i).map_err(|e| format!("{:?}", e.kind()))?);
    }
    let c = RefCell::new(ch);
    let shared = RefCell::new(Shared {
        waker: None,
        blocked: false,
        blocks_left: blocks,
        errs_left: 1,
        shorts_left: if cap == 1 { 0 } else if th { 3 } else { 2 },
        out: vec![],
    });
    let buf = Rc::new(RefCell::new(WriteBuf::new(vec![0; cap])));
    let mut e = task_enc(kind);
    let mut next_item = 0;
    let mut yields = 1;
    // the current waker of each task
    let mut enc_flag = Arc::new(Flag(AtomicBool::new(true)));
    let mut fl_flag = Arc::new(Flag(AtomicBool::new(true)));
    // registered with the encoding task: to be told about new bytes
    let mut new_bytes: Option<Waker> = None;
    let (mut enc_done, mut fl_done) = (false, false);
    let mut round = 0;
    loop {
        if enc_done && fl_done {
            break;
        }
        round += 1;
        if round > 300 {
            return Err("the tasks make no progress".into());
        }
        let mut can = vec![];
        if !enc_done && enc_flag.0.load(SeqCst) {
            can.push(0);
        }
        if !fl_done && fl_flag.0.load(SeqCst) {
            can.push(1);
        }
        if shared.borrow().blocked {
            can.push(2);
        }
        if can.is_empty() {
            return Err(format!(
                "both tasks sleep forever: encoding done={enc_done}, flushing done={fl_done}, {} of {} bytes written, {} buffered, {} room",
                shared.borrow().out.len(),
                want.len(),
                buf.borrow().len(),
                buf.borrow().room()
            ));
        }
        let who = can[c.borrow_mut().pick(can.len())];
        {
            let b = buf.borrow();
            let s = shared.borrow();
            c.borrow_mut().state(&(who, b.len(), b.room(), s.out.len(), s.blocked, enc_done, enc_flag.0.load(SeqCst), fl_flag.0.load(SeqCst)));
        }
        c.borrow_mut().step();
        match who {
            0 => {
                enc_flag = Arc::new(Flag(AtomicBool::new(false)));
                let w: Waker = enc_flag.clone().into();
                let mut cx = Context::from_waker(&w);
                loop {
                    if e.is_idle() {
                        if next_item == ITEMS {
                            enc_done = true;
                            c.borrow_mut().log(|| "encoder: done".into());
                            break;
                        }
                        e.start_encoding(next_item).map_err(|e| format!("start: {:?}", e.kind()))?;
                        next_item += 1;
                    }
                    let mut b = buf.borrow_mut();
                    e.encode_to_write_buf_async(&mut *b, &mut cx).map_err(|e| format!("encode: {:?}", e.kind()))?;
                    c.borrow_mut().log(|| format!("encoder: buffered {}, idle={}", b.len(), e.is_idle()));
                    if !b.is_empty() {
                        if let Some(w) = new_bytes.take() {
                            w.wake();
                        }
                    }
                    if !e.is_idle() {
                        if !b.is_full() {
                            return Err("encoder stopped although the buffer is not full".into());
                        }
                        break;
                    }
                    if yields > 0 && c.borrow_mut().pick_bool() {
                        yields -= 1;
                        w.wake_by_ref();
                        break;
                    }
                }
                if enc_done {
                    if let Some(w) = new_bytes.take() {
                        w.wake();
                    }
                }
            }
            1 => {
                fl_flag = Arc::new(Flag(AtomicBool::new(false)));
                let w: Waker = fl_flag.clone().into();
                let mut cx = Context::from_waker(&w);
                let mut wr = TaskWriter { ch: &c, s: &shared };
                let mut b = buf.borrow_mut();
                let poll = flush == 1 || flush == 2 && round % 2 == 0;
                let r = if poll {
                    b.poll_flush(Pin::new(&mut wr), &mut cx)
                } else {
                    let r = b.flush(&mut wr);
                    if r.is_ok() && shared.borrow().blocked && !b.is_empty() {
                        // readiness is reported to whoever asked last
                        shared.borrow_mut().waker = Some(w.clone());
                        Poll::Pending
                    } else {
                        Poll::Ready(r)
                    }
                };
                c.borrow_mut().log(|| format!("flusher: {}, {} left", poll_res(&r), b.len()));
                match r {
                    Poll::Pending => {
                        if !shared.borrow().blocked {
                            return Err("pending for no reason".into());
                        }
                    }
                    Poll::Ready(Err(_)) => w.wake_by_ref(),
                    Poll::Ready(Ok(())) => {
                        if !b.is_empty() {
                            return Err("flushed, but bytes are left".into());
                        }
                        if enc_done {
                            fl_done = true;
                        } else {
                            new_bytes = Some(w.clone());
                        }
                    }
                }
            }
            _ => {
                let mut s = shared.borrow_mut();
                s.blocked = false;
                c.borrow_mut().log(|| "writer: writable".into());
                if let Some(w) = s.waker.take() {
                    w.wake();
                }
            }
        }
    }
    let out = shared.into_inner().out;
    let ch = c.into_inner();
    if out != want {
        return Err(format!("{} written, expected {}", hex(&out), hex(&want)));
    }
    ch.outcome(&round);
    ch.valid();
    Ok(())
}
/// Whenever a flush gives a full buffer room, the waker stored last has been woken.
fn wake_once(ch: &mut Ch, cap: usize, flush: usize) -> Case {
    let mut b = WriteBuf::new(vec![0; cap]);
    let mut e = BytesEncoder::new();
    e.start_encoding(vec![5u8; 3 * cap + 1]).map_err(|e| format!("{:?}", e.kind()))?;
    let c = RefCell::new(ch);
    let shared = RefCell::new(Shared { waker: None, blocked: false, blocks_left: 2, errs_left: 2, shorts_left: 2, out: vec![] });
    for round in 0..40 {
        // several polls with different wakers while waiting: the last one counts
        let polls = if round < 2 { 1 + c.borrow_mut().pick(2) } else { 1 };
        let mut flag = Arc::new(Flag(AtomicBool::new(false)));
        for _ in 0..polls {
            flag = Arc::new(Flag(AtomicBool::new(false)));
            let w: Waker = flag.clone().into();
            e.encode_to_write_buf_async(&mut b, &mut Context::from_waker(&w)).map_err(|e| format!("{:?}", e.kind()))?;
            c.borrow_mut().step();
        }
        if e.is_idle() {
            let ch = c.into_inner();
            ch.valid();
            return Ok(());
        }
        if !b.is_full() {
            return Err("encoder stopped although the buffer is not full".into());
        }
        if flag.0.load(SeqCst) {
            return Err("woken while the buffer is full".into());
        }
        // flush until there is room
        let mut tries = 0;
        while b.is_full() {
            shared.borrow_mut().blocked = false;
            let mut wr = TaskWriter { ch: &c, s: &shared };
            let other = my_waker();
            if flush == 0 {
                let _ = b.flush(&mut wr);
            } else {
                let _ = b.poll_flush(Pin::new(&mut wr), &mut Context::from_waker(&other));
            }
            c.borrow_mut().step();
            c.borrow_mut().state(&(b.len(), b.room(), round, tries));
            if !b.is_full() && !flag.0.load(SeqCst) {
                return Err(format!("the buffer has {} bytes of room again, but the waiting task was not woken", b.room()));
            }
            tries += 1;
            if tries > 10 {
                return Err("no progress flushing".into());
            }
        }
    }
    Err("no progress".into())
}
/// One task drives a buffered stream; the encoder finds its write buffer full.
struct BothTask<'a, 'b>(TaskWriter<'a, 'b>);
impl AsyncRead for BothTask<'_, '_> {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        Poll::Pending
    }
}
impl AsyncWrite for BothTask<'_, '_> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn wake_bio(ch: &mut Ch) -> Case {
    let cap = 1 + ch.pick(3);
    let mut e = BytesEncoder::new();
    e.start_encoding((0..2 * cap as u8 + 1).collect::<Vec<u8>>()).map_err(|e| format!("{:?}", e.kind()))?;
    let c = RefCell::new(ch);
    let shared = RefCell::new(Shared { waker: None, blocked: false, blocks_left: 2, errs_left: 0, shorts_left: 2, out: vec![] });
    let mut io = BufferedIo::new(BothTask(TaskWriter { ch: &c, s: &shared }), 2, cap);
    for round in 0..40 {
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let w: Waker = flag.clone().into();
        e.encode_to_write_buf_async(io.write_buf_mut(), &mut Context::from_waker(&w)).map_err(|e| format!("{:?}", e.kind()))?;
        let full = io.write_buf_ref().is_full();
        let io_flag = Arc::new(Flag(AtomicBool::new(false)));
        let w: Waker = io_flag.clone().into();
        let p = Pin::new(&mut io).execute_io_poll(&mut Context::from_waker(&w));
        c.borrow_mut().steps(2);
        c.borrow_mut().state(&(round, io.write_buf_ref().len(), full, p.is_pending()));
        if full && !io.write_buf_ref().is_full() && !flag.0.load(SeqCst) {
            return Err("execute_io_poll made room, but the waiting task was not woken".into());
        }
        if p.is_pending() && !shared.borrow().blocked {
            return Err("pending although the writer is not blocked".into());
        }
        if e.is_idle() && io.write_buf_ref().is_empty() {
            drop(io);
            let ch = c.into_inner();
            let n = shared.borrow().out.len();
            if shared.borrow().out != (0..2 * cap as u8 + 1).collect::<Vec<u8>>() {
                return Err(format!("{n} bytes written"));
            }
            ch.valid();
            return Ok(());
        }
        let blocked = std::mem::replace(&mut shared.borrow_mut().blocked, false);
        if blocked {
            let w = shared.borrow_mut().waker.take();
            if let Some(w) = w {
                w.wake();
            }
            if !io_flag.0.load(SeqCst) {
                return Err("the writer was polled with another context".into());
            }
        }
    }
    Err("no progress".into())
}
