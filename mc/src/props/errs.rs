//! C24: error kinds through every layer, calls of the functions given to `map_err`, I/O errors.
use crate::core::*;
use crate::dterm::{self, AsBytes, Coll, BD};
use crate::eterm::{self, BE};
use crate::val::*;
use bytecodec::bytes::Utf8Decoder;
use bytecodec::combinator::{Last, Slice};
use bytecodec::fixnum::{U8Decoder, U8Encoder};
use bytecodec::io::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;
use trackable::error::Failure;

type Log = Rc<RefCell<Vec<ErrorKind>>>;

pub fn c24(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("decoders: 14 ways of failing x 7 kinds x first or second item x every stack of up to 2 (3, of a smaller set) of 51 layers (every position of every tuple arity included); one call, byte by byte, every single cut, late end of stream, asked early or not, decode_exact, decode_from_bytes, read buffers of 1 and 4 bytes".into());
    b.push("encoders: 11 ways of failing x 7 kinds x first or second item x every stack of up to 2 (3) of 48 layers; buffers likewise, started again while busy or not, encode_into_bytes, encode_all, write buffers".into());
    b.push("every map_err in the stack: the errors its codec returned, the calls of its function and the errors it returned are compared after every call".into());
    b.push("all stable io::ErrorKind variants through Error::from, fill, flush, execute_io, poll_fill, poll_flush, decode_exact, encode_all".into());
    let mut us = vec![];
    let ls = dlayers();
    for s in stacks(&ls, &dfew(), th) {
        if dvalid(&s) {
            let long = s.len() > 1;
            us.push(unit(format!("decoder under {s:?}"), move |ch| dec_case(ch, &s, long)));
        }
    }
    let ls = elayers();
    for s in stacks(&ls, &efew(), th) {
        let long = s.len() > 1;
        us.push(unit(format!("encoder under {s:?}"), move |ch| enc_case(ch, &s, long)));
    }
    us.push(unit("io errors", io_errors));
    us.push(unit("conversions", conversions));
    us
}
fn stacks<L: Copy>(all: &[L], few: &[L], th: bool) -> Vec<Vec<L>> {
    let mut v = vec![vec![]];
    for a in all {
        v.push(vec![*a]);
        for b in all {
            v.push(vec![*a, *b]);
        }
    }
    if th {
        for a in few {
            for b in few {
                for c in few {
                    v.push(vec![*a, *b, *c]);
                }
            }
        }
    }
    v
}
/// The kind by which the `map_err` layers replace a kind.
fn next(k: ErrorKind) -> ErrorKind {
    let i = KINDS.iter().position(|x| *x == k).unwrap();
    KINDS[(i + 3) % 7]
}

// ---------------------------------------------------------------- spies

/// What happened at one `map_err` layer.
#[derive(Default, Clone)]
struct Sight {
    inner: Log,
    calls: Log,
    outer: Log,
}
impl Sight {
    fn check(&self) -> Case {
        let (i, c, o) = (self.inner.borrow(), self.calls.borrow(), self.outer.borrow());
        if *i != *c {
            return Err(format!("the codec under map_err failed with {i:?}, but the function was called with {c:?}"));
        }
        let w: Vec<_> = i.iter().map(|k| next(*k)).collect();
        if *o != w {
            return Err(format!("map_err produced {w:?}, but {o:?} was reported"));
        }
        Ok(())
    }
}
struct Spy<C>(C, Log);
impl<C> Spy<C> {
    fn note<T>(&self, r: bytecodec::Result<T>) -> bytecodec::Result<T> {
        if let Err(e) = &r {
            self.1.borrow_mut().push(*e.kind());
        }
        r
    }
}
impl<D: Decode> Decode for Spy<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let r = self.0.decode(buf, eos);
        self.note(r)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<D::Item> {
        let r = self.0.finish_decoding();
        self.note(r)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
/// The encoder under or above a `map_err`.
struct SpyE<C>(Spy<C>);
impl<C: Encode> Encode for SpyE<C> {
    type Item = C::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let r = self.0 .0.encode(buf, eos);
        self.0.note(r)
    }
    fn start_encoding(&mut self, item: C::Item) -> bytecodec::Result<()> {
        let r = self.0 .0.start_encoding(item);
        self.0.note(r)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0 .0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0 .0.is_idle()
    }
}
/// Uses a codec through a mutable reference.
struct ByMut<C>(C);
impl<D: Decode> Decode for ByMut<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut r = &mut self.0;
        <&mut D as Decode>::decode(&mut r, buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<D::Item> {
        let mut r = &mut self.0;
        <&mut D as Decode>::finish_decoding(&mut r)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
struct ByMutE<C>(C);
impl<E: Encode> Encode for ByMutE<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut r = &mut self.0;
        <&mut E as Encode>::encode(&mut r, buf, eos)
    }
    fn start_encoding(&mut self, item: E::Item) -> bytecodec::Result<()> {
        let mut r = &mut self.0;
        <&mut E as Encode>::start_encoding(&mut r, item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}

// ---------------------------------------------------------------- decoders

/// How the innermost decoder fails.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Place {
    Never,
    /// When it is shown the byte at this offset of the item.
    After(usize),
    AtEos,
    Finish,
    /// A function given to `try_map` fails, with an error of various types.
    FnError,
    FnKind,
    FnEof,
    FnIo,
    FnFailure,
    /// The text is not UTF-8.
    Text,
}
const PLACES: [Place; 12] = [
    Place::Never, Place::After(0), Place::After(1), Place::After(2), Place::AtEos, Place::Finish,
    Place::FnError, Place::FnKind, Place::FnEof, Place::FnIo, Place::FnFailure, Place::Text,
];
const SIZE: usize = 3;
/// Reads three bytes, and fails at the chosen place of the chosen item.
#[derive(Clone)]
struct FD {
    place: Place,
    kind: ErrorKind,
    target: usize,
    items: Rc<Cell<usize>>,
    raised: Log,
    got: Vec<u8>,
}
impl FD {
    fn fail<T>(&self, k: ErrorKind) -> bytecodec::Result<T> {
        self.raised.borrow_mut().push(k);
        Err(err(k))
    }
    fn now(&self, p: Place) -> bool {
        self.place == p && self.items.get() == self.target
    }
}
impl Decode for FD {
    type Item = V;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        if self.got.len() == SIZE {
            return Ok(0);
        }
        if let Place::After(k) = self.place {
            if self.items.get() == self.target && self.got.len() + buf.len() > k {
                return self.fail(self.kind);
            }
        }
        let n = buf.len().min(SIZE - self.got.len());
        self.got.extend(&buf[..n]);
        if self.got.len() < SIZE && eos.is_reached() {
            return self.fail(if self.now(Place::AtEos) { self.kind } else { ErrorKind::UnexpectedEos });
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<V> {
        if self.got.len() < SIZE {
            return self.fail(ErrorKind::IncompleteDecoding);
        }
        let b = std::mem::take(&mut self.got);
        let r = if self.now(Place::Finish) { self.fail(self.kind) } else { Ok(V::B(b)) };
        self.items.set(self.items.get() + 1);
        r
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite((SIZE - self.got.len()) as u64)
    }
}
/// The failing part, and the kind it fails with.
fn base(ch: &mut Ch, place: Place, target: usize, raised: &Log) -> (BD, ErrorKind) {
    let kinds = !matches!(place, Place::Never | Place::FnEof | Place::FnIo | Place::FnFailure | Place::Text);
    let kind = if kinds { *ch.of(&KINDS) } else { ErrorKind::Other };
    let items = Rc::new(Cell::new(0));
    let fd = FD { place, kind, target, items: items.clone(), raised: raised.clone(), got: vec![] };
    let r = raised.clone();
    // the item being converted has been counted already
    let bad = move || items.get() == target + 1;
    let note = move |k: ErrorKind| {
        r.borrow_mut().push(k);
        k
    };
    match place {
        Place::FnError => (Box::new(fd.try_map(move |v| if bad() { Err(err(note(kind))) } else { Ok(v) })), kind),
        Place::FnKind => (Box::new(fd.try_map(move |v| if bad() { Err(note(kind)) } else { Ok(v) })), kind),
        Place::FnEof => {
            let k = ErrorKind::UnexpectedEos;
            (Box::new(fd.try_map(move |v| if bad() { note(k); Err(io::Error::from(io::ErrorKind::UnexpectedEof)) } else { Ok(v) })), k)
        }
        Place::FnIo => (Box::new(fd.try_map(move |v| if bad() { note(kind); Err(io::Error::from(io::ErrorKind::InvalidData)) } else { Ok(v) })), kind),
        Place::FnFailure => (Box::new(fd.try_map(move |v| if bad() { note(kind); Err(Failure::from_error("no")) } else { Ok(v) })), kind),
        Place::Text => {
            let k = ErrorKind::InvalidInput;
            let d = fd.map(move |v| match v {
                V::B(mut b) => {
                    if bad() {
                        note(k);
                        b[1] = 0xFF;
                    }
                    V::B(b)
                }
                v => v,
            });
            (Box::new(Utf8Decoder::with_bytes_decoder(AsBytes(Box::new(d))).map(V::S)), k)
        }
        _ => (Box::new(fd), kind),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum L {
    Box,
    Mut,
    Map,
    TryMap,
    MapErr,
    And0,
    And1,
    Collect,
    CollectN(usize),
    Len,
    Omit,
    Max,
    Slice,
    Peek,
    Maybe,
    Chain(usize),
    Tup(usize, usize),
}
fn dlayers() -> Vec<L> {
    let mut v = vec![
        L::Box, L::Mut, L::Map, L::TryMap, L::MapErr, L::And0, L::And1, L::Collect, L::CollectN(1), L::CollectN(2),
        L::Len, L::Omit, L::Max, L::Slice, L::Peek, L::Maybe, L::Chain(0), L::Chain(1),
    ];
    for n in 2..=8 {
        for i in 0..n {
            v.push(L::Tup(n, i));
        }
    }
    v
}
fn dfew() -> Vec<L> {
    vec![
        L::Map, L::TryMap, L::MapErr, L::And0, L::And1, L::Collect, L::CollectN(2), L::Len, L::Omit, L::Max, L::Slice, L::Peek, L::Maybe,
        L::Tup(2, 0), L::Tup(2, 1), L::Tup(3, 1),
    ]
}
/// Innermost layer first: nothing may follow something that reads up to the end of the stream.
fn dvalid(s: &[L]) -> bool {
    let (mut open, mut counted) = (false, false);
    for l in s {
        // a collection of a fixed size is not used twice (see KF-collectn-reuse)
        if counted && matches!(l, L::Collect | L::CollectN(2)) {
            return false;
        }
        counted |= matches!(l, L::CollectN(_));
        match l {
            L::Collect | L::CollectN(_) | L::And0 | L::Chain(0) if open => return false,
            L::Tup(n, i) if open && i + 1 < *n => return false,
            L::Collect => open = true,
            L::Len => open = false,
            _ => {}
        }
    }
    true
}
struct Gen<'a> {
    s: &'a [L],
    items: usize,
    stop_at: Option<usize>,
    ended: bool,
}
impl Gen<'_> {
    /// The bytes of one item of the `n` innermost layers.
    fn item(&mut self, n: usize, out: &mut Vec<u8>) {
        if self.ended {
            return;
        }
        if n == 0 {
            out.extend(b"abc");
            if self.stop_at == Some(self.items) {
                out.pop();
                self.ended = true;
            }
            self.items += 1;
            return;
        }
        let (pre, times, post) = match self.s[n - 1] {
            L::And0 | L::Chain(0) => (0, 1, 1),
            L::And1 | L::Chain(_) => (1, 1, 0),
            L::Collect | L::CollectN(2) => (0, 2, 0),
            L::Tup(k, i) => (i, 1, k - 1 - i),
            _ => (0, 1, 0),
        };
        out.extend(vec![b'p'; pre]);
        for _ in 0..times {
            self.item(n - 1, out);
        }
        if !self.ended {
            out.extend(vec![b'q'; post]);
        }
    }
}
fn u8d() -> BD {
    Box::new(U8Decoder::new().map(|n| V::N(u64::from(n))))
}
fn layer(l: L, d: BD, len: u64, sights: &mut Vec<Sight>) -> BD {
    match l {
        L::Box => Box::new(Box::new(d)),
        L::Mut => Box::new(ByMut(d)),
        L::Map => Box::new(d.map(|v| v)),
        L::TryMap => Box::new(d.try_map(Ok::<V, Error>)),
        L::MapErr => {
            let s = Sight::default();
            sights.push(s.clone());
            let calls = s.calls.clone();
            Box::new(Spy(
                Spy(d, s.inner.clone()).map_err(move |e| {
                    calls.borrow_mut().push(*e.kind());
                    err(next(*e.kind()))
                }),
                s.outer.clone(),
            ))
        }
        L::And0 => Box::new(d.and_then(|_| u8d())),
        L::And1 => {
            let d = RefCell::new(Some(Rc::new(RefCell::new(d))));
            let shared = d.borrow_mut().take().unwrap();
            // the same decoder again for the next item
            Box::new(u8d().and_then(move |_| Shared(shared.clone())))
        }
        L::Collect => Box::new(d.collect::<Coll>().map(|c| V::L(c.0))),
        L::CollectN(n) => {
            let mut c = d.collectn::<Coll>(n);
            c.set_remaining_items(n);
            Box::new(c.map(|c| V::L(c.0)))
        }
        L::Len => Box::new(d.length(len)),
        L::Omit => Box::new(d.omit(false).map(|o| V::O(o.map(Box::new)))),
        L::Max => Box::new(d.max_bytes(1000)),
        L::Slice => {
            let mut s: Slice<BD> = d.slice();
            s.set_consumable_bytes(1000);
            Box::new(s)
        }
        L::Peek => Box::new(d.peekable()),
        L::Maybe => Box::new(d.maybe_eos()),
        L::Chain(0) => Box::new(d.chain(u8d()).map(|(a, b)| V::T(vec![a, b]))),
        L::Chain(_) => Box::new(u8d().chain(d).map(|(a, b)| V::T(vec![a, b]))),
        L::Tup(n, i) => {
            let mut v: Vec<BD> = (1..n).map(|_| u8d()).collect();
            v.insert(i, d);
            dterm::tup(v)
        }
    }
}
struct Shared(Rc<RefCell<BD>>);
impl Decode for Shared {
    type Item = V;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.borrow_mut().decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<V> {
        self.0.borrow_mut().finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.borrow().requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.borrow().is_idle()
    }
}
fn dec_case(ch: &mut Ch, s: &[L], long: bool) -> Case {
    let place = *ch.of(&PLACES);
    let target = if place == Place::AtEos || place == Place::Never { 0 } else { ch.pick(2) };
    let raised = Log::default();
    let (mut d, mut want) = base(ch, place, target, &raised);
    let mut sights = vec![];
    let stop = (place == Place::AtEos).then_some(0);
    for (i, l) in s.iter().enumerate() {
        let mut b = vec![];
        Gen { s, items: 0, stop_at: stop, ended: false }.item(i, &mut b);
        d = layer(*l, d, b.len() as u64, &mut sights);
        if *l == L::MapErr {
            want = next(want);
        }
    }
    let many = s.iter().any(|l| matches!(l, L::Collect | L::CollectN(2)));
    let once = s.iter().any(|l| matches!(l, L::CollectN(_)));
    let fails = place != Place::Never;
    let rounds = if target == 1 && !many { 2 } else { 1 };
    if rounds == 2 && once {
        return ch.skip();
    }
    let mut g = Gen { s, items: 0, stop_at: stop, ended: false };
    let mode = ch.pick(8);
    let early = mode < 4 && (!long || mode == 1) && ch.pick_bool();
    for round in 0..rounds {
        let mut inp = vec![];
        g.item(s.len(), &mut inp);
        let must = fails && round + 1 == rounds;
        let r = drive_d(ch, &mut d, &inp, mode, early, &sights)?;
        ch.log(|| format!("round {round} mode {mode}: {}", res(&r)));
        ch.state(&(place, target, mode, round, raised.borrow().len()));
        for x in &sights {
            x.check()?;
        }
        match (&r, must) {
            (Ok(_), false) => {}
            (Err(e), true) => {
                if *e.kind() != want {
                    return Err(format!("{place:?} of item {target} under {s:?}: reported as {:?}, expected {want:?}", e.kind()));
                }
            }
            (r, _) => return Err(format!("{place:?} of item {target} under {s:?}: {} in round {round}, expected error: {must}", res(r))),
        }
    }
    // nothing is asked again after it failed, nor although it did not fail
    let n = raised.borrow().iter().filter(|k| !early || **k != ErrorKind::IncompleteDecoding).count();
    if !early && n != usize::from(fails) {
        return Err(format!("{n} errors were raised inside {s:?}"));
    }
    ch.outcome(&(kbit(want), fails));
    ch.valid();
    Ok(())
}
/// Result: violation of the harness' own checks, or what the decoder reported.
fn drive_d(ch: &mut Ch, d: &mut BD, inp: &[u8], mode: usize, early: bool, sights: &[Sight]) -> Result<bytecodec::Result<V>, String> {
    ch.steps(2);
    match mode {
        4 => return Ok(d.decode_exact(inp)),
        5 => return Ok(d.decode_from_bytes(inp)),
        6 | 7 => {
            let mut b = ReadBuf::new(vec![0; if mode == 6 { 1 } else { 4 }]);
            let mut r = inp;
            for _ in 0..100 {
                b.fill(&mut r).map_err(|e| format!("fill: {:?}", e.kind()))?;
                if let Err(e) = d.decode_from_read_buf(&mut b) {
                    return Ok(Err(e));
                }
                if d.is_idle() {
                    return Ok(d.finish_decoding());
                }
            }
            return Err("no progress through the read buffer".into());
        }
        _ => {}
    }
    // 0: one call, 1: one cut anywhere, 2: byte by byte, 3: so with the end announced alone
    let cut = if mode == 1 { ch.pick(inp.len()) } else { 0 };
    let mut off = 0;
    for _ in 0..100 {
        let rest = inp.len() - off;
        let n = match mode {
            0 => rest,
            1 if off < cut => cut - off,
            1 => rest,
            _ => rest.min(1),
        };
        let eos = if mode == 3 { rest == 0 } else { n == rest };
        let r = d.decode(&inp[off..off + n], Eos::new(eos));
        ch.step();
        match r {
            Err(e) => return Ok(Err(e)),
            Ok(k) => off += k,
        }
        for x in sights {
            x.check()?;
        }
        if d.is_idle() {
            return Ok(d.finish_decoding());
        }
        if early {
            let r = d.finish_decoding();
            ch.step();
            for x in sights {
                x.check()?;
            }
            match r {
                Ok(v) => return Err(format!("unfinished decoder returned {v:?}")),
                Err(e) if sights.is_empty() && *e.kind() != ErrorKind::IncompleteDecoding => {
                    return Err(format!("asked early: {:?}", e.kind()));
                }
                Err(_) => {}
            }
        }
    }
    Err("no progress".into())
}

// ---------------------------------------------------------------- encoders

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum EPlace {
    Never,
    Start,
    After(usize),
    AtEos,
    FnError,
    FnKind,
    FnEof,
    FnIo,
    FnFailure,
}
const EPLACES: [EPlace; 11] = [
    EPlace::Never, EPlace::Start, EPlace::After(0), EPlace::After(1), EPlace::After(2), EPlace::AtEos,
    EPlace::FnError, EPlace::FnKind, EPlace::FnEof, EPlace::FnIo, EPlace::FnFailure,
];
struct FE {
    place: EPlace,
    kind: ErrorKind,
    target: usize,
    items: Rc<Cell<usize>>,
    raised: Log,
    left: usize,
}
impl FE {
    fn fail<T>(&self, k: ErrorKind) -> bytecodec::Result<T> {
        self.raised.borrow_mut().push(k);
        Err(err(k))
    }
    fn now(&self, p: EPlace) -> bool {
        self.place == p && self.items.get() == self.target + 1
    }
}
impl Encode for FE {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        if self.left == 0 {
            return Ok(0);
        }
        if let EPlace::After(k) = self.place {
            if self.items.get() == self.target + 1 && SIZE - self.left + buf.len() > k {
                return self.fail(self.kind);
            }
        }
        let n = buf.len().min(self.left);
        for b in &mut buf[..n] {
            *b = b'x';
        }
        self.left -= n;
        if self.left > 0 && eos.is_reached() {
            return self.fail(if self.now(EPlace::AtEos) { self.kind } else { ErrorKind::UnexpectedEos });
        }
        Ok(n)
    }
    fn start_encoding(&mut self, _: V) -> bytecodec::Result<()> {
        if self.left > 0 {
            return self.fail(ErrorKind::EncoderFull);
        }
        self.items.set(self.items.get() + 1);
        if self.now(EPlace::Start) {
            return self.fail(self.kind);
        }
        self.left = SIZE;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left as u64)
    }
    fn is_idle(&self) -> bool {
        self.left == 0
    }
}
fn ebase(ch: &mut Ch, place: EPlace, target: usize, raised: &Log) -> (BE, ErrorKind) {
    let kinds = !matches!(place, EPlace::Never | EPlace::FnEof | EPlace::FnIo | EPlace::FnFailure);
    let kind = if kinds { *ch.of(&KINDS) } else { ErrorKind::Other };
    let fe = FE { place, kind, target, items: Rc::default(), raised: raised.clone(), left: 0 };
    let r = raised.clone();
    let items = fe.items.clone();
    let bad = move || items.get() == target;
    let note = move |k: ErrorKind| {
        r.borrow_mut().push(k);
        k
    };
    match place {
        EPlace::FnError => (Box::new(fe.try_map_from(move |v: V| if bad() { Err(err(note(kind))) } else { Ok(v) })), kind),
        EPlace::FnKind => (Box::new(fe.try_map_from(move |v: V| if bad() { Err(note(kind)) } else { Ok(v) })), kind),
        EPlace::FnEof => {
            let k = ErrorKind::UnexpectedEos;
            (Box::new(fe.try_map_from(move |v: V| if bad() { note(k); Err(io::Error::from(io::ErrorKind::UnexpectedEof)) } else { Ok(v) })), k)
        }
        EPlace::FnIo => (Box::new(fe.try_map_from(move |v: V| if bad() { note(kind); Err(io::Error::from(io::ErrorKind::WriteZero)) } else { Ok(v) })), kind),
        EPlace::FnFailure => (Box::new(fe.try_map_from(move |v: V| if bad() { note(kind); Err(Failure::from_error("no")) } else { Ok(v) })), kind),
        _ => (Box::new(fe), kind),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum M {
    Box,
    Mut,
    MapFrom,
    TryMapFrom,
    MapErr,
    Optional,
    Repeat(usize),
    Len,
    Max,
    Slice,
    Pre,
    Last,
    Chain(usize),
    Tup(usize, usize),
}
fn elayers() -> Vec<M> {
    let mut v = vec![
        M::Box, M::Mut, M::MapFrom, M::TryMapFrom, M::MapErr, M::Optional, M::Repeat(1), M::Repeat(2), M::Len, M::Max, M::Slice,
        M::Pre, M::Last, M::Chain(0), M::Chain(1),
    ];
    for n in 2..=8 {
        for i in 0..n {
            v.push(M::Tup(n, i));
        }
    }
    v
}
fn efew() -> Vec<M> {
    vec![
        M::MapFrom, M::TryMapFrom, M::MapErr, M::Optional, M::Repeat(2), M::Len, M::Max, M::Slice, M::Pre, M::Last,
        M::Tup(2, 0), M::Tup(2, 1), M::Tup(3, 1),
    ]
}
fn u8e() -> BE {
    Box::new(U8Encoder::new().map_from(|v: V| v.num() as u8))
}
/// `last` around an encoder which is given its item later.
struct LateLast {
    inner: Rc<RefCell<BE>>,
    cur: Option<Last<SharedE>>,
}
#[derive(Clone)]
struct SharedE(Rc<RefCell<BE>>);
impl Encode for SharedE {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.borrow_mut().encode(buf, eos)
    }
    fn start_encoding(&mut self, item: V) -> bytecodec::Result<()> {
        self.0.borrow_mut().start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.borrow().requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.borrow().is_idle()
    }
}
impl Encode for LateLast {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.cur.as_mut().map_or(Ok(0), |c| c.encode(buf, eos))
    }
    fn start_encoding(&mut self, item: V) -> bytecodec::Result<()> {
        if !self.is_idle() {
            return Err(err(ErrorKind::EncoderFull));
        }
        self.cur = Some(SharedE(self.inner.clone()).last(item));
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.cur.as_ref().map_or(ByteCount::Finite(0), |c| c.requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.cur.as_ref().is_none_or(|c| c.is_idle())
    }
}
fn elayer(l: M, e: BE, len: u64, sights: &mut Vec<Sight>) -> BE {
    match l {
        M::Box => Box::new(Box::new(e)),
        M::Mut => Box::new(ByMutE(e)),
        M::MapFrom => Box::new(e.map_from(|v: V| v)),
        M::TryMapFrom => Box::new(e.try_map_from(Ok::<V, Error>)),
        M::MapErr => {
            let s = Sight::default();
            sights.push(s.clone());
            let calls = s.calls.clone();
            Box::new(SpyE(Spy(
                SpyE(Spy(e, s.inner.clone())).map_err(move |e| {
                    calls.borrow_mut().push(*e.kind());
                    err(next(*e.kind()))
                }),
                s.outer.clone(),
            )))
        }
        M::Optional => Box::new(e.optional().map_from(Some)),
        M::Repeat(n) => Box::new(e.repeat::<std::vec::IntoIter<V>>().map_from(move |v: V| vec![v; n].into_iter())),
        M::Len => Box::new(e.length(len)),
        M::Max => Box::new(e.max_bytes(1000)),
        M::Slice => {
            let mut s: Slice<BE> = e.slice();
            s.set_consumable_bytes(1000);
            Box::new(s)
        }
        M::Pre => Box::new(e.pre_encode()),
        M::Last => Box::new(LateLast { inner: Rc::new(RefCell::new(e)), cur: None }),
        M::Chain(0) => Box::new(e.chain(u8e()).map_from(|v: V| (v, V::N(9)))),
        M::Chain(_) => Box::new(u8e().chain(e).map_from(|v: V| (V::N(9), v))),
        M::Tup(n, i) => {
            let mut v: Vec<BE> = (1..n).map(|_| u8e()).collect();
            v.insert(i, e);
            Box::new(eterm::tup_e(v).map_from(move |v: V| {
                let mut p = vec![V::N(7); n - 1];
                p.insert(i, v);
                V::T(p)
            }))
        }
    }
}
/// (bytes in front of the first failing item, bytes of everything)
fn extent(s: &[M]) -> (usize, usize) {
    let (mut pre, mut all) = (0, SIZE);
    for l in s {
        match l {
            M::Tup(n, i) => {
                pre += i;
                all += n - 1;
            }
            M::Chain(i) => {
                pre += i;
                all += 1;
            }
            M::Repeat(n) => all *= n,
            _ => {}
        }
    }
    (pre, all)
}
fn enc_case(ch: &mut Ch, s: &[M], long: bool) -> Case {
    let place = *ch.of(&EPLACES);
    if place == EPlace::AtEos && s.iter().any(|l| matches!(l, M::Len | M::Pre)) {
        // a frame notices a short output itself, pre-encoding happens in memory
        return ch.skip();
    }
    let single = place == EPlace::AtEos || place == EPlace::Never;
    let target = if single { 0 } else { ch.pick(2) };
    let raised = Log::default();
    let (mut e, mut want) = ebase(ch, place, target, &raised);
    let mut sights = vec![];
    for (i, l) in s.iter().enumerate() {
        e = elayer(*l, e, extent(&s[..i]).1 as u64, &mut sights);
        if *l == M::MapErr {
            want = next(want);
        }
    }
    let many = s.iter().any(|l| matches!(l, M::Repeat(2)));
    let rounds = if target == 1 && !many { 2 } else { 1 };
    let fails = place != EPlace::Never;
    let mode = ch.pick(if place == EPlace::AtEos { 3 } else { 7 });
    // the functions count the items they are shown
    let counts = matches!(place, EPlace::FnError | EPlace::FnKind | EPlace::FnEof | EPlace::FnIo | EPlace::FnFailure);
    let busy = mode < 3 && !counts && (!long || mode == 1) && !s.contains(&M::Pre) && ch.pick_bool();
    let (pre, all) = extent(s);
    let cap = if place == EPlace::AtEos { pre + SIZE - 1 } else { usize::MAX };
    for round in 0..rounds {
        let must = fails && round + 1 == rounds;
        let r = drive_e(ch, &mut e, mode, busy, cap, all, &sights)?;
        ch.log(|| format!("round {round} mode {mode}: {}", res(&r)));
        ch.state(&(place, target, mode, round, raised.borrow().len()));
        for x in &sights {
            x.check()?;
        }
        match (&r, must) {
            (Ok(n), false) if *n == all => {}
            (Err(x), true) => {
                if *x.kind() != want {
                    return Err(format!("{place:?} of item {target} under {s:?}: reported as {:?}, expected {want:?}", x.kind()));
                }
            }
            (r, _) => return Err(format!("{place:?} of item {target} under {s:?}: {} in round {round}, expected error: {must}, {all} bytes", res(r))),
        }
    }
    if !busy && raised.borrow().len() != usize::from(fails) {
        return Err(format!("{} errors were raised inside {s:?}", raised.borrow().len()));
    }
    ch.outcome(&(kbit(want), fails));
    ch.valid();
    Ok(())
}
fn drive_e(ch: &mut Ch, e: &mut BE, mode: usize, busy: bool, cap: usize, all: usize, sights: &[Sight]) -> Result<bytecodec::Result<usize>, String> {
    ch.steps(2);
    let item = V::N(1);
    match mode {
        3 => return Ok(e.encode_into_bytes(item).map(|b| b.len())),
        4 => {
            if let Err(x) = e.start_encoding(item) {
                return Ok(Err(x));
            }
            let mut out = vec![];
            return Ok(e.encode_all(&mut out).map(|()| out.len()));
        }
        5 | 6 => {
            if let Err(x) = e.start_encoding(item) {
                return Ok(Err(x));
            }
            let mut b = WriteBuf::new(vec![0; if mode == 5 { 1 } else { 4 }]);
            let mut out = vec![];
            for _ in 0..100 {
                if let Err(x) = e.encode_to_write_buf(&mut b) {
                    return Ok(Err(x));
                }
                b.flush(&mut out).map_err(|e| format!("flush: {:?}", e.kind()))?;
                if e.is_idle() {
                    return Ok(Ok(out.len()));
                }
            }
            return Err("no progress through the write buffer".into());
        }
        _ => {}
    }
    if let Err(x) = e.start_encoding(item) {
        return Ok(Err(x));
    }
    let cut = if mode == 1 { ch.pick(all) } else { 0 };
    let mut off = 0;
    for _ in 0..100 {
        if e.is_idle() {
            return Ok(Ok(off));
        }
        if busy {
            let r = e.start_encoding(V::N(2));
            ch.step();
            for x in sights {
                x.check()?;
            }
            match r {
                Ok(()) => return Err("busy encoder accepted another item".into()),
                Err(x) if sights.is_empty() && *x.kind() != ErrorKind::EncoderFull => {
                    return Err(format!("busy encoder refused an item with {:?}", x.kind()));
                }
                Err(_) => {}
            }
        }
        let n = match mode {
            0 => 100,
            1 if off < cut => cut - off,
            1 => 100,
            _ => 1,
        }
        .min(cap - off);
        let mut buf = vec![0; n];
        let r = e.encode(&mut buf, Eos::new(cap != usize::MAX && off + n == cap));
        ch.step();
        for x in sights {
            x.check()?;
        }
        match r {
            Err(x) => return Ok(Err(x)),
            Ok(k) => off += k,
        }
    }
    Err("no progress".into())
}

// ---------------------------------------------------------------- I/O errors

pub const IO_KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::NotADirectory,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::DirectoryNotEmpty,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::StorageFull,
    io::ErrorKind::NotSeekable,
    io::ErrorKind::QuotaExceeded,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::ExecutableFileBusy,
    io::ErrorKind::Deadlock,
    io::ErrorKind::TooManyLinks,
    io::ErrorKind::ArgumentListTooLong,
    io::ErrorKind::Interrupted,
    io::ErrorKind::Unsupported,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];
fn make(k: io::ErrorKind, how: usize) -> io::Error {
    match how {
        0 => io::Error::from(k),
        1 => io::Error::new(k, "with a message"),
        // an error of this crate inside: the outer kind counts
        2 => io::Error::new(k, err(ErrorKind::InvalidInput)),
        _ => io::Error::new(k, io::Error::from(io::ErrorKind::UnexpectedEof)),
    }
}
/// A stream that transfers some bytes and then fails once.
struct Bad {
    ok: usize,
    kind: io::ErrorKind,
    how: usize,
}
impl io::Read for Bad {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.ok == 0 {
            return Err(make(self.kind, self.how));
        }
        self.ok -= 1;
        buf[0] = 1;
        Ok(1)
    }
}
impl io::Write for Bad {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        if self.ok == 0 {
            return Err(make(self.kind, self.how));
        }
        self.ok -= 1;
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl tokio::io::AsyncRead for Bad {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<io::Result<()>> {
        let mut b = [0];
        std::task::Poll::Ready(io::Read::read(&mut *self, &mut b).map(|_| buf.put_slice(&b)))
    }
}
impl tokio::io::AsyncWrite for Bad {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, buf: &[u8]) -> std::task::Poll<io::Result<usize>> {
        std::task::Poll::Ready(io::Write::write(&mut *self, buf))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}
fn io_errors(ch: &mut Ch) -> Case {
    use std::task::{Context, Poll, Waker};
    let kind = *ch.of(IO_KINDS);
    let how = ch.pick(4);
    let ok = ch.pick(3);
    let block = kind == io::ErrorKind::WouldBlock;
    let want = crate::props::io_kind(kind);
    let op = ch.pick(9);
    ch.steps(1);
    ch.state(&(format!("{kind:?}"), how, ok, op));
    let mut cx = Context::from_waker(Waker::noop());
    let bad = Bad { ok, kind, how };
    let ready = |p: Poll<bytecodec::Result<()>>| match p {
        Poll::Ready(r) => Ok(r),
        Poll::Pending => Err("pending instead of an answer".to_string()),
    };
    let full = || -> Result<WriteBuf<Vec<u8>>, String> {
        let mut b = WriteBuf::new(vec![0; 8]);
        io::Write::write(&mut b, &[1; 8]).map_err(|e| format!("write: {e}"))?;
        Ok(b)
    };
    // blocks are no errors to the buffers
    let (r, state) = match op {
        0 => {
            let e = Error::from(make(kind, how));
            (Err(e), None)
        }
        1 => {
            let mut b = ReadBuf::new(vec![0; 8]);
            let r = b.fill(bad);
            if b.len() != ok {
                return Err(format!("{} of {ok} bytes kept", b.len()));
            }
            (r, Some(b.stream_state()))
        }
        2 => {
            let mut b = full()?;
            let r = b.flush(bad);
            if b.len() != 8 - ok {
                return Err(format!("{} bytes kept, {ok} written", b.len()));
            }
            (r, Some(b.stream_state()))
        }
        3 | 4 => {
            let mut s = BufferedIo::new(bad, if op == 3 { 8 } else { 1 }, 8);
            io::Write::write(s.write_buf_mut(), &[1; 8]).map_err(|e| format!("write: {e}"))?;
            let r = s.execute_io();
            let st = if s.read_buf_ref().stream_state() == StreamState::Error || s.write_buf_ref().stream_state() == StreamState::Error {
                StreamState::Error
            } else {
                StreamState::WouldBlock
            };
            (r, Some(st))
        }
        5 => {
            if block {
                return ch.skip();
            }
            let mut b = ReadBuf::new(vec![0; 8]);
            let mut bad = bad;
            let r = ready(b.poll_fill(std::pin::Pin::new(&mut bad), &mut cx))?;
            (r, Some(b.stream_state()))
        }
        6 => {
            if block {
                return ch.skip();
            }
            let mut b = full()?;
            let mut bad = bad;
            let r = ready(b.poll_flush(std::pin::Pin::new(&mut bad), &mut cx))?;
            (r, Some(b.stream_state()))
        }
        7 => {
            if block {
                return ch.skip();
            }
            (bytecodec::fixnum::U64beDecoder::new().decode_exact(bad).map(|_| ()), None)
        }
        _ => {
            // an interrupted write_all is tried again (C18)
            if block || kind == io::ErrorKind::Interrupted {
                return ch.skip();
            }
            let mut e = bytecodec::fixnum::U64beEncoder::with_item(5).map_err(|e| format!("{:?}", e.kind()))?;
            (e.encode_all(bad), None)
        }
    };
    let blocked = block && op != 0;
    if blocked != r.is_ok() || r.as_ref().is_err_and(|e| *e.kind() != want) {
        return Err(format!("operation {op} with {kind:?} (form {how}) after {ok} bytes: {}, expected {want:?}", res(&r)));
    }
    if let Some(s) = state {
        let w = if blocked { StreamState::WouldBlock } else { StreamState::Error };
        if s != w {
            return Err(format!("operation {op} with {kind:?}: state {s:?}, expected {w:?}"));
        }
    }
    ch.outcome(&(kbit(want), blocked));
    ch.valid();
    Ok(())
}
fn conversions(ch: &mut Ch) -> Case {
    let k = *ch.of(&KINDS);
    let r = match ch.pick(6) {
        0 => (Error::from(k), k),
        1 => (Error::from(Failure::from_error("x")), ErrorKind::Other),
        2 => (Error::from(trackable::error::TrackableError::from(k)), k),
        3 => (Error::from(trackable::error::ErrorKindExt::cause(k, "why")), k),
        4 => (err(k).clone(), k),
        // a failure which has a kind inside is of another kind all the same
        _ => (Error::from(Failure::from_error(err(k))), ErrorKind::Other),
    };
    ch.step();
    ch.state(&(kbit(k), kbit(r.1)));
    if *r.0.kind() != r.1 {
        return Err(format!("kind {:?}, expected {:?}", r.0.kind(), r.1));
    }
    ch.outcome(&kbit(r.1));
    ch.valid();
    Ok(())
}
