//! Decoder terms: a small language of compositions, how to build the real decoder of a term, and the
//! reference semantics of a term over byte streams.
use crate::fix::{self, Fix};
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::json_codec::JsonDecoder;
use bytecodec::null::NullDecoder;
use bytecodec::padding::PaddingDecoder;
use bytecodec::tuple::TupleDecoder;
use bytecodec::{Decode, DecodeExt, Error, ErrorKind};

pub type BD = Box<dyn Decode<Item = V>>;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum D {
    Fix(Fix),
    Arr(usize),
    Once(usize),
    Rest,
    Utf8,
    Utf8With(Box<D>),
    Pad(Option<u8>),
    Null,
    Json,
    /// A user's decoder: everything up to a byte 2, which ends the item.  Never knows its requirement.
    Line,
    /// A user's decoder: everything up to the first even byte.  Always knows that it needs one more.
    Run,
    Map(Box<D>),
    TryMap(Box<D>),
    MapErr(ErrorKindW, Box<D>),
    AndThen(Box<D>, Next),
    Collect(Box<D>),
    CollectN(usize, Box<D>),
    Length(u64, Box<D>),
    Omit(bool, Box<D>),
    Max(u64, Box<D>),
    Tup(Vec<D>),
    Slice(Box<D>),
    Peek(Box<D>),
    Maybe(Box<D>),
    Boxed(Box<D>),
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct ErrorKindW(pub ErrorKind);
impl std::fmt::Debug for ErrorKindW {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::hash::Hash for ErrorKindW {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(kbit(self.0))
    }
}

/// How the second decoder of `and_then` is chosen from the first item.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Next {
    /// The given decoder limited to the length given by the first item.
    Len(Box<D>),
    /// The given decoder repeated as often as the first item says.
    Count(Box<D>),
    /// Even numbers select the first, odd ones the second.
    Sel(Box<D>, Box<D>),
}
impl Next {
    pub fn apply(&self, v: &V) -> D {
        match self {
            Next::Len(d) => D::Length(v.num(), d.clone()),
            Next::Count(d) => D::CollectN(v.num() as usize, d.clone()),
            Next::Sel(a, b) => {
                if v.num() % 2 == 0 {
                    (**a).clone()
                } else {
                    (**b).clone()
                }
            }
        }
    }
}

pub fn map_fn(v: V) -> V {
    V::T(vec![V::N(77), v])
}
/// `TryMap` rejects values whose number is 2.
pub fn rejects(v: &V) -> bool {
    v.num() == 2
}
pub const REJECT: ErrorKind = ErrorKind::InvalidInput;
pub fn try_map_fn(v: V) -> Result<V, Error> {
    if rejects(&v) {
        Err(err(REJECT))
    } else {
        Ok(V::T(vec![V::N(78), v]))
    }
}

/// Collection that notices runaway growth.
#[derive(Default, Debug)]
pub struct Coll(pub Vec<V>);
pub const COLL_MAX: usize = 300_000;
impl Extend<V> for Coll {
    fn extend<I: IntoIterator<Item = V>>(&mut self, i: I) {
        for v in i {
            self.0.push(v);
            if self.0.len() > COLL_MAX {
                panic!("collection grows without bound");
            }
        }
    }
}

pub fn arr(n: usize) -> BD {
    macro_rules! a {
        ($($n:expr),*) => {
            match n {
                $($n => Box::new(CopyableBytesDecoder::new([0u8; $n]).map(|b| V::B(b.to_vec()))),)*
                _ => panic!("HARNESS: Arr({n})"),
            }
        };
    }
    a!(0, 1, 2, 3, 4, 5, 7, 8, 16, 255, 256, 257, 1023, 1024, 1025, 2048, 65535, 65536, 65537)
}

pub fn tup(mut ds: Vec<BD>) -> BD {
    let n = ds.len();
    let mut it = ds.drain(..);
    macro_rules! t {
        ($($v:ident),*) => {{
            $(let $v = it.next().unwrap();)*
            Box::new(TupleDecoder::new(($($v,)*)).map(|($($v,)*)| V::T(vec![$($v),*])))
        }};
    }
    match n {
        2 => t!(a, b),
        3 => t!(a, b, c),
        4 => t!(a, b, c, d),
        5 => t!(a, b, c, d, e),
        6 => t!(a, b, c, d, e, f),
        7 => t!(a, b, c, d, e, f, g),
        8 => t!(a, b, c, d, e, f, g, h),
        _ => panic!("HARNESS: tuple arity {n}"),
    }
}

pub struct AsBytes(pub BD);
impl Decode for AsBytes {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: bytecodec::Eos) -> bytecodec::Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> {
        match self.0.finish_decoding()? {
            V::B(b) => Ok(b),
            v => panic!("HARNESS: bytes expected, got {v:?}"),
        }
    }
    fn requiring_bytes(&self) -> bytecodec::ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}

/// The user's decoders `Line` and `Run`; they use the trait's default `is_idle`.
pub struct Until {
    pub run: bool,
    pub buf: Vec<u8>,
    pub done: bool,
}
impl Until {
    pub fn new(run: bool) -> Self {
        Until { run, buf: vec![], done: false }
    }
    fn last(&self, b: u8) -> bool {
        if self.run {
            b % 2 == 0
        } else {
            b == LINE_END
        }
    }
}
pub const LINE_END: u8 = 2;
impl Decode for Until {
    type Item = V;
    fn decode(&mut self, buf: &[u8], eos: bytecodec::Eos) -> bytecodec::Result<usize> {
        if self.done {
            return Ok(0);
        }
        let n = match buf.iter().position(|&b| self.last(b)) {
            Some(n) => {
                self.done = true;
                n + 1
            }
            None => buf.len(),
        };
        self.buf.extend(&buf[..n]);
        if !self.done && eos.is_reached() {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<V> {
        if !self.done {
            return Err(err(ErrorKind::IncompleteDecoding));
        }
        self.done = false;
        let mut b = std::mem::take(&mut self.buf);
        Ok(if self.run {
            V::N(b.len() as u64)
        } else {
            b.pop();
            V::B(b)
        })
    }
    fn requiring_bytes(&self) -> bytecodec::ByteCount {
        use bytecodec::ByteCount::*;
        match (self.done, self.run) {
            (true, _) => Finite(0),
            (false, true) => Finite(1),
            (false, false) => Unknown,
        }
    }
}

pub fn build(t: &D) -> BD {
    match t {
        D::Fix(f) => fix::decoder(*f),
        D::Arr(n) => arr(*n),
        D::Once(n) => Box::new(BytesDecoder::new(vec![0u8; *n]).map(V::B)),
        D::Rest => Box::new(RemainingBytesDecoder::new().map(V::B)),
        D::Utf8 => Box::new(Utf8Decoder::new().map(V::S)),
        D::Utf8With(d) => Box::new(Utf8Decoder::with_bytes_decoder(AsBytes(build(d))).map(V::S)),
        D::Pad(b) => Box::new(PaddingDecoder::new(*b).map(|()| V::Unit)),
        D::Null => Box::new(NullDecoder.map(|()| V::Unit)),
        D::Json => Box::new(JsonDecoder::<serde_json::Value>::new().map(|v| V::S(v.to_string()))),
        D::Line | D::Run => Box::new(Until::new(*t == D::Run)),
        D::Map(d) => Box::new(build(d).map(map_fn)),
        D::TryMap(d) => Box::new(build(d).try_map(try_map_fn)),
        D::MapErr(k, d) => {
            let k = k.0;
            Box::new(build(d).map_err(move |_| err(k)))
        }
        D::AndThen(d, n) => {
            let n = n.clone();
            Box::new(build(d).and_then(move |v| build(&n.apply(&v))))
        }
        D::Collect(d) => Box::new(build(d).collect::<Coll>().map(|c| V::L(c.0))),
        D::CollectN(n, d) => Box::new(build(d).collectn::<Coll>(*n).map(|c| V::L(c.0))),
        D::Length(n, d) => Box::new(build(d).length(*n)),
        D::Omit(b, d) => Box::new(build(d).omit(*b).map(|o| V::O(o.map(Box::new)))),
        D::Max(n, d) => Box::new(build(d).max_bytes(*n)),
        D::Tup(ds) => tup(ds.iter().map(build).collect()),
        D::Slice(d) if crate::props::gate::on() => Box::new(crate::props::gate::Gate(build(d).slice())),
        D::Slice(d) => {
            let mut s: Slice<BD> = build(d).slice();
            s.set_consumable_bytes(u64::MAX);
            Box::new(s)
        }
        D::Peek(d) => Box::new(build(d).peekable()),
        D::Maybe(d) => Box::new(build(d).maybe_eos()),
        D::Boxed(d) => Box::new(Box::new(build(d))),
    }
}

/// What a term prescribes for the bytes offered so far.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum R {
    /// The decoder is ready after `used` bytes; taking the item yields `val`.
    Done { used: usize, val: Result<V, KsW> },
    More,
    Err(KsW),
}
pub type KsW = Ks;

/// Reference semantics.  `inp`: the bytes offered so far, `total`: the length of the whole stream if it
/// is known (the stream has ended if it equals `inp.len()`).
pub fn spec(t: &D, inp: &[u8], total: Option<u64>) -> R {
    let len = inp.len();
    let ended = total == Some(len as u64);
    let fixed = |n: usize, f: &dyn Fn(&[u8]) -> V| {
        if len >= n {
            R::Done { used: n, val: Ok(f(&inp[..n])) }
        } else if ended {
            R::Err(EOS)
        } else {
            R::More
        }
    };
    let sub = |d: &D, off: usize| spec(d, &inp[off..], total.map(|t| t - off as u64));
    match t {
        D::Fix(f) => fixed(f.width, &|b| V::N(fix::model_read(*f, b))),
        D::Arr(n) | D::Once(n) => fixed(*n, &|b| V::B(b.to_vec())),
        D::Rest | D::Utf8 if !ended => R::More,
        D::Rest => R::Done { used: len, val: Ok(V::B(inp.to_vec())) },
        D::Utf8 => R::Done { used: len, val: std::str::from_utf8(inp).map(|s| V::S(s.into())).map_err(|_| INV) },
        D::Utf8With(d) => match sub(d, 0) {
            R::Done { used, val: Ok(V::B(b)) } => {
                R::Done { used, val: String::from_utf8(b).map(V::S).map_err(|_| INV) }
            }
            r => r,
        },
        D::Pad(b) => {
            if b.is_some_and(|b| inp.iter().any(|&x| x != b)) {
                R::Err(INV)
            } else if ended {
                R::Done { used: len, val: Ok(V::Unit) }
            } else {
                R::More
            }
        }
        D::Null => R::Done { used: 0, val: Ok(V::Unit) },
        D::Json => {
            if !ended {
                R::More
            } else {
                match serde_json::from_slice::<serde_json::Value>(inp) {
                    Ok(v) => R::Done { used: len, val: Ok(V::S(v.to_string())) },
                    Err(_) => R::Err(INV),
                }
            }
        }
        D::Line | D::Run => {
            let u = Until::new(*t == D::Run);
            match inp.iter().position(|&b| u.last(b)) {
                Some(n) => R::Done {
                    used: n + 1,
                    val: Ok(if u.run { V::N(n as u64 + 1) } else { V::B(inp[..n].to_vec()) }),
                },
                None if ended => R::Err(EOS),
                None => R::More,
            }
        }
        D::Map(d) => match sub(d, 0) {
            R::Done { used, val } => R::Done { used, val: val.map(map_fn) },
            r => r,
        },
        D::TryMap(d) => match sub(d, 0) {
            R::Done { used, val: Ok(v) } => R::Done {
                used,
                val: if rejects(&v) { Err(k(REJECT)) } else { Ok(V::T(vec![V::N(78), v])) },
            },
            r => r,
        },
        D::MapErr(kk, d) => match sub(d, 0) {
            R::Done { used, val } => R::Done { used, val: val.map_err(|_| k(kk.0)) },
            R::Err(_) => R::Err(k(kk.0)),
            R::More => R::More,
        },
        D::AndThen(d, n) => match sub(d, 0) {
            R::Done { used, val: Ok(v) } => match sub(&n.apply(&v), used) {
                R::Done { used: u, val } => R::Done { used: used + u, val },
                r => r,
            },
            R::Done { val: Err(e), .. } => R::Err(e),
            r => r,
        },
        D::Collect(d) => {
            let mut off = 0;
            let mut items = vec![];
            loop {
                if off == len {
                    return if ended { R::Done { used: off, val: Ok(V::L(items)) } } else { R::More };
                }
                match sub(d, off) {
                    R::Done { used: 0, .. } => return R::Err(ANY),
                    R::Done { used, val: Ok(v) } => {
                        off += used;
                        items.push(v);
                    }
                    R::Done { val: Err(e), .. } => return R::Err(e),
                    r => return r,
                }
            }
        }
        D::CollectN(n, d) => {
            let mut off = 0;
            let mut items = vec![];
            for _ in 0..*n {
                match sub(d, off) {
                    R::Done { used, val: Ok(v) } => {
                        off += used;
                        items.push(v);
                    }
                    R::Done { val: Err(e), .. } => return R::Err(e),
                    R::More if ended => return R::Err(EOS),
                    r => return r,
                }
            }
            R::Done { used: off, val: Ok(V::L(items)) }
        }
        D::Length(n, d) => {
            let avail = (*n).min(len as u64) as usize;
            let r = spec(d, &inp[..avail], Some(*n));
            // satisfied before the end of its frame: there never is an item
            if let R::Done { used, .. } = spec(d, &inp[..avail], None) {
                if (used as u64) < *n {
                    return R::Done { used, val: Err(ANY) };
                }
            }
            if total.is_some_and(|t| t < *n) {
                return R::Err(match r {
                    R::Err(e) => e.or(EOS),
                    _ => EOS,
                });
            }
            match r {
                R::Done { used, val } if used as u64 == *n => R::Done { used, val },
                R::Done { used, .. } => R::Done { used, val: Err(ANY) },
                r => r,
            }
        }
        D::Omit(true, _) => R::Done { used: 0, val: Ok(V::O(None)) },
        D::Omit(false, d) => match sub(d, 0) {
            R::Done { used, val } => R::Done { used, val: val.map(|v| V::O(Some(Box::new(v)))) },
            r => r,
        },
        D::Max(n, d) => {
            let r = sub(d, 0);
            if total.is_some_and(|t| t > *n) || len as u64 > *n {
                return R::Err(match r {
                    R::Err(e) => e.or(INV),
                    _ => INV,
                });
            }
            r
        }
        D::Tup(ds) => {
            let mut off = 0;
            let mut items = vec![];
            let mut bad = None;
            for d in ds {
                match sub(d, off) {
                    R::Done { used, val } => {
                        off += used;
                        match val {
                            Ok(v) => items.push(v),
                            Err(e) => bad = bad.or(Some(e)),
                        }
                    }
                    r => return r,
                }
            }
            R::Done { used: off, val: bad.map_or(Ok(V::T(items)), Err) }
        }
        D::Slice(d) | D::Boxed(d) => sub(d, 0),
        D::Peek(d) => match sub(d, 0) {
            R::Done { val: Err(e), .. } => R::Err(e),
            r => r,
        },
        D::Maybe(d) => {
            if len == 0 && ended {
                spec(d, inp, None)
            } else {
                sub(d, 0)
            }
        }
    }
}

/// Number of bytes of every item, if it does not depend on the stream.
pub fn fixed_size(t: &D) -> Option<u64> {
    Some(match t {
        D::Fix(f) => f.width as u64,
        D::Arr(n) | D::Once(n) => *n as u64,
        D::Null | D::Omit(true, _) | D::CollectN(0, _) => 0,
        D::CollectN(_, d) if fixed_size(d) == Some(0) => 0,
        D::Length(n, _) => *n,
        D::Utf8With(d)
        | D::Map(d)
        | D::TryMap(d)
        | D::MapErr(_, d)
        | D::Omit(false, d)
        | D::Max(_, d)
        | D::Slice(d)
        | D::Peek(d)
        | D::Maybe(d)
        | D::Boxed(d) => fixed_size(d)?,
        D::Tup(ds) => {
            let mut n = 0u64;
            for d in ds {
                n = n.saturating_add(fixed_size(d)?);
            }
            n
        }
        _ => return None,
    })
}
/// Does the decoder take everything up to the end of the stream (and nothing less)?
pub fn until_eos(t: &D) -> bool {
    match t {
        D::Rest | D::Utf8 | D::Pad(_) | D::Json | D::Collect(_) => true,
        D::Map(d) | D::TryMap(d) | D::MapErr(_, d) | D::Omit(false, d) | D::Max(_, d) | D::Slice(d)
        | D::Peek(d) | D::Maybe(d) | D::Boxed(d) | D::Utf8With(d) => until_eos(d),
        D::Tup(ds) => until_eos(ds.last().unwrap()),
        _ => false,
    }
}
pub fn any(t: &D, p: &dyn Fn(&D) -> bool) -> bool {
    if p(t) {
        return true;
    }
    match t {
        D::Utf8With(d) | D::Map(d) | D::TryMap(d) | D::MapErr(_, d) | D::Collect(d) | D::CollectN(_, d)
        | D::Length(_, d) | D::Omit(_, d) | D::Max(_, d) | D::Slice(d) | D::Peek(d) | D::Maybe(d)
        | D::Boxed(d) => any(d, p),
        D::Tup(ds) => ds.iter().any(|d| any(d, p)),
        D::AndThen(d, n) => {
            any(d, p)
                || match n {
                    Next::Len(d) => any(d, p),
                    Next::Count(d) => any(d, p),
                    Next::Sel(a, b) => any(a, p) || any(b, p),
                }
        }
        _ => false,
    }
}
/// Parts of `t` that stay the same object from one item to the next (everything but the decoders
/// made afresh by `and_then`).
pub fn any_persistent(t: &D, p: &dyn Fn(&D) -> bool) -> bool {
    if p(t) {
        return true;
    }
    match t {
        D::AndThen(d, _) => any_persistent(d, p),
        D::Utf8With(d) | D::Map(d) | D::TryMap(d) | D::MapErr(_, d) | D::Collect(d) | D::CollectN(_, d)
        | D::Length(_, d) | D::Omit(_, d) | D::Max(_, d) | D::Slice(d) | D::Peek(d) | D::Maybe(d)
        | D::Boxed(d) => any_persistent(d, p),
        D::Tup(ds) => ds.iter().any(|d| any_persistent(d, p)),
        _ => false,
    }
}
/// Can the decoder decode several items in sequence?  (One-shot decoders and item counts that are used
/// up cannot; the latter is the known finding KF-collectn-reuse.)
pub fn reusable(t: &D) -> bool {
    !any_persistent(t, &|d| matches!(d, D::Once(_)) || matches!(d, D::CollectN(n, _) if *n > 0))
}
/// Is the term meaningful (its parts are used as their contracts allow)?
pub fn well_formed(t: &D) -> bool {
    !any(t, &|d| match d {
        // collected decoders must be reusable and must not be able to finish without consuming
        D::Collect(d) | D::CollectN(_, d) => !reusable(d),
        D::AndThen(_, Next::Count(d)) => !reusable(d),
        // documented: the limit refers to what is offered, so the inner decoder has to be greedy
        D::Max(n, d) => *n < 64 && !until_eos(d),
        D::Utf8With(d) => !bytes_item(d),
        // ignoring the end of a frame
        D::Length(_, d) | D::AndThen(_, Next::Len(d)) => any(d, &|x| matches!(x, D::Maybe(_))),
        _ => false,
    })
}
/// Length frames whose inner decoder may be satisfied before the frame ends: they announce readiness
/// but never hand out an item.
pub fn overlong(t: &D) -> bool {
    any(t, &|d| match d {
        D::Length(n, d) => !until_eos(d) && fixed_size(d) != Some(*n),
        D::AndThen(_, Next::Len(d)) => !until_eos(d),
        _ => false,
    })
}
pub fn bytes_item(t: &D) -> bool {
    match t {
        D::Arr(_) | D::Once(_) | D::Rest | D::Line => true,
        D::Length(_, d) | D::Max(_, d) | D::Slice(d) | D::Peek(d) | D::Maybe(d) | D::Boxed(d)
        | D::MapErr(_, d) => bytes_item(d),
        D::AndThen(_, Next::Len(d)) => bytes_item(d),
        D::AndThen(_, Next::Sel(a, b)) => bytes_item(a) && bytes_item(b),
        _ => false,
    }
}
pub fn value_dependent(t: &D) -> bool {
    any(t, &|d| matches!(d, D::AndThen(..) | D::TryMap(_) | D::Pad(Some(_)) | D::Json | D::Line | D::Run))
}
pub fn text(t: &D) -> bool {
    any(t, &|d| matches!(d, D::Utf8 | D::Utf8With(_)))
}
pub fn bx(d: D) -> Box<D> {
    Box::new(d)
}

pub fn leaves() -> Vec<D> {
    vec![
        D::Fix(fix::U8),
        D::Fix(fix::U16BE),
        D::Fix(fix::U24LE),
        D::Null,
        D::Rest,
        D::Utf8,
        D::Arr(0),
        D::Arr(2),
        D::Once(2),
        D::Once(0),
        D::Pad(None),
        D::Pad(Some(1)),
        D::Json,
        D::Line,
        D::Run,
    ]
}
pub fn few_leaves() -> Vec<D> {
    vec![D::Fix(fix::U8), D::Fix(fix::U16BE), D::Rest, D::Null, D::Utf8, D::Line]
}
/// All terms with one combinator around `d`.
pub fn unary(d: &D) -> Vec<D> {
    let u8t = || bx(D::Fix(fix::U8));
    let b = || bx(d.clone());
    vec![
        D::Map(b()),
        D::TryMap(b()),
        D::MapErr(ErrorKindW(ErrorKind::Other), b()),
        D::AndThen(u8t(), Next::Len(b())),
        D::AndThen(u8t(), Next::Count(b())),
        D::AndThen(u8t(), Next::Sel(b(), bx(D::Fix(fix::U16BE)))),
        D::AndThen(b(), Next::Sel(bx(D::Fix(fix::U8)), bx(D::Rest))),
        D::Collect(b()),
        D::CollectN(0, b()),
        D::CollectN(1, b()),
        D::CollectN(2, b()),
        D::CollectN(3, b()),
        D::Length(0, b()),
        D::Length(1, b()),
        D::Length(2, b()),
        D::Length(3, b()),
        D::Length(4, b()),
        D::Omit(false, b()),
        D::Omit(true, b()),
        D::Max(3, b()),
        D::Max(100, b()),
        D::Slice(b()),
        D::Peek(b()),
        D::Maybe(b()),
        D::Boxed(b()),
        D::Utf8With(b()),
    ]
    .into_iter()
    .filter(well_formed)
    .collect()
}
pub fn pairs(a: &[D], b: &[D]) -> Vec<D> {
    let mut v = vec![];
    for x in a {
        for y in b {
            v.push(D::Tup(vec![x.clone(), y.clone()]));
        }
    }
    v.retain(well_formed);
    v
}
/// All tuples of the arities 3 to 8 over a rotating selection of leaves.
pub fn tuples() -> Vec<D> {
    let pool = [
        D::Fix(fix::U8),
        D::Fix(fix::U16BE),
        D::Null,
        D::Arr(1),
        D::AndThen(bx(D::Fix(fix::U8)), Next::Len(bx(D::Rest))),
        D::Omit(true, bx(D::Fix(fix::U8))),
    ];
    let mut v = vec![];
    for n in 2..=8usize {
        // all parts one byte; every position special in turn
        v.push(D::Tup(vec![D::Fix(fix::U8); n]));
        for i in 0..n {
            for p in &pool[1..] {
                let mut t = vec![D::Fix(fix::U8); n];
                t[i] = p.clone();
                v.push(D::Tup(t));
            }
            let mut t = vec![D::Null; n];
            t[i] = D::Fix(fix::U16BE);
            v.push(D::Tup(t));
            let mut t = vec![D::Fix(fix::U8); n];
            t[i] = D::TryMap(bx(D::Fix(fix::U8)));
            v.push(D::Tup(t));
        }
        let mut t = vec![D::Fix(fix::U8); n];
        t[n - 1] = D::Rest;
        v.push(D::Tup(t));
    }
    v
}

/// The terms explored in the given tier.
pub fn terms(thorough: bool) -> Vec<D> {
    let l = leaves();
    let mut d2: Vec<D> = l.iter().flat_map(unary).collect();
    d2.extend(pairs(&l, &l));
    let mut v = l.clone();
    v.extend(d2.iter().cloned());
    v.extend(tuples());
    let few = few_leaves();
    let few2: Vec<D> = few.iter().flat_map(unary).chain(pairs(&few, &few)).collect();
    if thorough {
        for d in &d2 {
            v.extend(unary(d));
        }
        v.extend(pairs(&d2, &few));
        v.extend(pairs(&few, &d2));
        // depth 4 around one-byte and end-of-stream leaves
        for leaf in [D::Fix(fix::U16BE), D::Rest] {
            for a in unary(&leaf) {
                for b in unary(&a) {
                    v.extend(unary(&b));
                }
            }
        }
    } else {
        for d in &few2 {
            v.extend(unary(d));
        }
        let small = [D::Fix(fix::U8), D::Rest];
        v.extend(pairs(&few2, &small));
        v.extend(pairs(&small, &few2));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| well_formed(t) && seen.insert(t.clone()));
    v
}

/// Alphabet and maximal length of the byte streams for a term; an empty alphabet stands for
/// position-coded streams (byte i is 16+i), enough for terms that only move bytes around.
pub fn inputs(t: &D, thorough: bool) -> (Vec<u8>, usize) {
    let x = usize::from(thorough);
    if any(t, &|d| *d == D::Json) {
        (vec![b'1', b' ', b'"', b'x'], 3 + x)
    } else if text(t) && value_dependent(t) {
        (vec![1, 2, 0xC3, 0xA9], 4)
    } else if text(t) {
        (vec![0x61, 0xC3, 0xA9], 4 + x)
    } else if value_dependent(t) {
        (vec![1, 2, 0, 3], 4 + x)
    } else {
        (vec![], 6 + x)
    }
}
