//! Encoder terms: a small language of compositions, how to build the real encoder of a term, items for
//! a term, and the reference semantics (the bytes an item stands for, and when encoding it must fail).
use crate::dterm::{rejects, ErrorKindW};
use crate::fix::{self, Fix};
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::combinator::{Last, Slice};
use bytecodec::json_codec::JsonEncoder;
use bytecodec::null::NullEncoder;
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::{ByteCount, Encode, EncodeExt, Eos, Error, ErrorKind, Result, SizedEncode};

pub type BE = Box<dyn Encode<Item = V>>;
pub type BSE = Box<dyn SizedEncode<Item = V>>;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Fix(Fix),
    Bytes,
    Utf8,
    Pad,
    Null,
    Json,
    /// A user's encoder of unknown size: the bytes and a closing byte 2.
    Line,
    MapFrom(Box<E>),
    TryMapFrom(Box<E>),
    MapErr(ErrorKindW, Box<E>),
    Optional(Box<E>),
    Repeat(Box<E>),
    Length(u64, Box<E>),
    Max(u64, Box<E>),
    Tup(Vec<E>),
    Pre(Box<E>),
    Slice(Box<E>),
    Last(Box<E>),
    Boxed(Box<E>),
}

fn bytes_of(v: V) -> Vec<u8> {
    match v {
        V::B(b) => b,
        v => panic!("HARNESS: bytes expected, got {v:?}"),
    }
}
fn str_of(v: V) -> String {
    match v {
        V::S(b) => b,
        v => panic!("HARNESS: string expected, got {v:?}"),
    }
}
fn num_of(v: V) -> u64 {
    match v {
        V::N(n) => n,
        v => panic!("HARNESS: number expected, got {v:?}"),
    }
}
/// An iterator whose size hint is right but rarely exact, and which starts over if it is asked again
/// after it has ended.
pub struct Items {
    all: Vec<V>,
    at: usize,
}
impl Iterator for Items {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        let v = self.all.get(self.at).cloned();
        self.at = if v.is_some() { self.at + 1 } else { 0 };
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.all.len() - self.at;
        match self.all.len() % 4 {
            0 | 1 => (0, None),
            2 => (n, Some(n)),
            _ => (n.min(1), Some(n + 1)),
        }
    }
}
fn list_of(v: V) -> Items {
    match v {
        V::L(l) => Items { all: l, at: 0 },
        v => panic!("HARNESS: list expected, got {v:?}"),
    }
}
fn opt_of(v: V) -> Option<V> {
    match v {
        V::O(o) => o.map(|b| *b),
        v => panic!("HARNESS: option expected, got {v:?}"),
    }
}
fn parts(v: V, n: usize) -> Vec<V> {
    match v {
        V::T(t) if t.len() == n => t,
        v => panic!("HARNESS: {n}-tuple expected, got {v:?}"),
    }
}
/// Inverse of `map_fn`.
fn unmap(v: V) -> V {
    parts(v, 2).pop().unwrap()
}
fn try_unmap(v: V) -> std::result::Result<V, Error> {
    let v = unmap(v);
    if rejects(&v) {
        Err(err(ErrorKind::InvalidInput))
    } else {
        Ok(v)
    }
}

/// The user's encoder `Line`; it uses the trait's default `is_idle`.
#[derive(Default)]
pub struct LineEncoder {
    buf: Vec<u8>,
    at: usize,
}
impl Encode for LineEncoder {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let n = buf.len().min(self.buf.len() - self.at);
        buf[..n].copy_from_slice(&self.buf[self.at..self.at + n]);
        self.at += n;
        if eos.is_reached() && self.at < self.buf.len() {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn start_encoding(&mut self, item: V) -> Result<()> {
        if !self.is_idle() {
            return Err(err(ErrorKind::EncoderFull));
        }
        self.buf = bytes_of(item);
        self.buf.push(crate::dterm::LINE_END);
        self.at = 0;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.at == self.buf.len() {
            ByteCount::Finite(0)
        } else {
            ByteCount::Unknown
        }
    }
}

/// `last` with a pending item: the item of this adapter is (pending item or none, final item).
pub struct LastE {
    inner: E,
    cur: Option<Last<BE>>,
}
impl Encode for LastE {
    type Item = V;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.cur.as_mut().map_or(Ok(0), |c| c.encode(buf, eos))
    }
    fn start_encoding(&mut self, item: V) -> Result<()> {
        if !self.is_idle() {
            return Err(err(ErrorKind::EncoderFull));
        }
        let mut p = parts(item, 2);
        let fin = p.pop().unwrap();
        let mut e = build(&self.inner);
        if let Some(v) = opt_of(p.pop().unwrap()) {
            e.start_encoding(v)?;
        }
        self.cur = Some(e.last(fin));
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.cur.as_ref().map_or(ByteCount::Finite(0), |c| c.requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.cur.as_ref().is_none_or(|c| c.is_idle())
    }
}

macro_rules! tup_fn {
    ($name:ident, $b:ty) => {
        pub fn $name(es: Vec<$b>) -> $b {
            let n = es.len();
            let mut it = es.into_iter();
            macro_rules! nx {
                () => {
                    it.next().unwrap()
                };
            }
            match n {
                2 => {
                    let t = (nx!(), nx!());
                    Box::new(TupleEncoder::new(t).map_from(|v: V| {
                        let mut p = parts(v, 2).into_iter();
                        let mut f = || p.next().unwrap();
                        (f(), f())
                    }))
                }
                3 => {
                    let t = (nx!(), nx!(), nx!());
                    Box::new(TupleEncoder::new(t).map_from(|v: V| {
                        let mut p = parts(v, 3).into_iter();
                        let mut f = || p.next().unwrap();
                        (f(), f(), f())
                    }))
                }
                4 => {
                    let t = (nx!(), nx!(), nx!(), nx!());
                    Box::new(TupleEncoder::new(t).map_from(|v: V| {
                        let mut p = parts(v, 4).into_iter();
                        let mut f = || p.next().unwrap();
                        (f(), f(), f(), f())
                    }))
                }
                5 => {
                    let t = (nx!(), nx!(), nx!(), nx!(), nx!());
                    Box::new(TupleEncoder::new(t).map_from(|v: V| {
                        let mut p = parts(v, 5).into_iter();
                        let mut f = || p.next().unwrap();
                        (f(), f(), f(), f(), f())
                    }))
                }
                6 => {
                    let t = (nx!(), nx!(), nx!(), nx!(), nx!(), nx!());
                    Box::new(TupleEncoder::new(t).map_from(|v: V| {
                        let mut p = parts(v, 6).into_iter();
                        let mut f = || p.next().unwrap();
                        (f(), f(), f(), f(), f(), f())
                    }))
                }
                7 => {
                    let t = (nx!(), nx!(), nx!(), nx!(), nx!(), nx!(), nx!());
                    Box::new(TupleEncoder::new(t).map_from(|v: V| {
                        let mut p = parts(v, 7).into_iter();
                        let mut f = || p.next().unwrap();
                        (f(), f(), f(), f(), f(), f(), f())
                    }))
                }
                8 => {
                    let t = (nx!(), nx!(), nx!(), nx!(), nx!(), nx!(), nx!(), nx!());
                    Box::new(TupleEncoder::new(t).map_from(|v: V| {
                        let mut p = parts(v, 8).into_iter();
                        let mut f = || p.next().unwrap();
                        (f(), f(), f(), f(), f(), f(), f(), f())
                    }))
                }
                _ => panic!("HARNESS: tuple arity {n}"),
            }
        }
    };
}
tup_fn!(tup_e, BE);
tup_fn!(tup_se, BSE);

pub fn build(t: &E) -> BE {
    match t {
        E::Fix(f) => fix::encoder(*f),
        E::Bytes => Box::new(BytesEncoder::<Vec<u8>>::new().map_from(bytes_of)),
        E::Utf8 => Box::new(Utf8Encoder::<String>::new().map_from(str_of)),
        E::Pad => Box::new(PaddingEncoder::new().map_from(|v: V| num_of(v) as u8)),
        E::Null => Box::new(NullEncoder.map_from(|_: V| ())),
        E::Json => Box::new(JsonEncoder::<String>::new().map_from(str_of)),
        E::Line => Box::new(LineEncoder::default()),
        E::MapFrom(e) => Box::new(build(e).map_from(unmap)),
        E::TryMapFrom(e) => Box::new(build(e).try_map_from(try_unmap)),
        E::MapErr(k, e) => {
            let k = k.0;
            Box::new(build(e).map_err(move |_| err(k)))
        }
        E::Optional(e) => Box::new(build(e).optional().map_from(opt_of)),
        E::Repeat(e) => Box::new(build(e).repeat::<Items>().map_from(list_of)),
        E::Length(n, e) => Box::new(build(e).length(*n)),
        E::Max(n, e) => Box::new(build(e).max_bytes(*n)),
        E::Tup(es) => tup_e(es.iter().map(build).collect()),
        E::Pre(e) => Box::new(build(e).pre_encode()),
        E::Slice(e) if crate::props::gate::on() => Box::new(crate::props::gate::Gate(build(e).slice())),
        E::Slice(e) => {
            let mut s: Slice<BE> = build(e).slice();
            s.set_consumable_bytes(u64::MAX);
            Box::new(s)
        }
        E::Last(e) => Box::new(LastE { inner: (**e).clone(), cur: None }),
        E::Boxed(e) => Box::new(Box::new(build(e))),
    }
}
pub fn build_sized(t: &E) -> Option<BSE> {
    Some(match t {
        E::Fix(f) => fix::sized_encoder(*f),
        E::Bytes => Box::new(BytesEncoder::<Vec<u8>>::new().map_from(bytes_of)),
        E::Utf8 => Box::new(Utf8Encoder::<String>::new().map_from(str_of)),
        E::Null => Box::new(NullEncoder.map_from(|_: V| ())),
        E::Pad | E::Json | E::Line | E::Repeat(_) | E::Last(_) => return None,
        E::MapFrom(e) => Box::new(build_sized(e)?.map_from(unmap)),
        E::TryMapFrom(e) => Box::new(build_sized(e)?.try_map_from(try_unmap)),
        E::MapErr(k, e) => {
            let k = k.0;
            Box::new(build_sized(e)?.map_err(move |_| err(k)))
        }
        E::Optional(e) => Box::new(build_sized(e)?.optional().map_from(opt_of)),
        E::Length(n, e) => Box::new(build(e).length(*n)),
        E::Max(n, e) => Box::new(build_sized(e)?.max_bytes(*n)),
        E::Tup(es) => {
            let mut v = vec![];
            for e in es {
                v.push(build_sized(e)?);
            }
            tup_se(v)
        }
        E::Pre(e) => Box::new(build(e).pre_encode()),
        E::Slice(e) => {
            let mut s: Slice<BSE> = build_sized(e)?.slice();
            s.set_consumable_bytes(u64::MAX);
            Box::new(s)
        }
        E::Boxed(e) => Box::new(Box::new(build_sized(e)?)),
    })
}

/// What encoding an item must do.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct ES {
    /// `start_encoding` refuses the item.
    pub start: Option<Ks>,
    /// Is the encoder still idle after accepting the item (nothing to do)?
    pub idle_at_once: bool,
    pub bytes: Vec<u8>,
    /// After `bytes` this byte is repeated until end of stream.
    pub tail: Option<u8>,
    /// Something does not fit after the endless tail.
    pub doomed: bool,
    /// Encoding fails in the call in which the output offered so far reaches this many bytes.
    pub fail: Option<(u64, Ks)>,
}
pub fn espec(t: &E, item: &V) -> ES {
    let ok = |b: Vec<u8>| ES { bytes: b, ..ES::default() };
    match t {
        E::Fix(f) => match fix::model_write(*f, num_of(item.clone())) {
            Some(b) => ok(b),
            None => ES { start: Some(INV), ..ES::default() },
        },
        E::Bytes => ok(bytes_of(item.clone())),
        E::Utf8 => ok(str_of(item.clone()).into_bytes()),
        E::Pad => ES { tail: Some(num_of(item.clone()) as u8), ..ES::default() },
        E::Null => ES { idle_at_once: true, ..ES::default() },
        E::Json => ok(serde_json::to_vec(&str_of(item.clone())).unwrap()),
        E::Line => {
            let mut b = bytes_of(item.clone());
            b.push(crate::dterm::LINE_END);
            ok(b)
        }
        E::MapFrom(e) => espec(e, &unmap(item.clone())),
        E::TryMapFrom(e) => match try_unmap(item.clone()) {
            Ok(v) => espec(e, &v),
            Err(_) => ES { start: Some(INV), ..ES::default() },
        },
        E::MapErr(kk, e) => {
            let mut s = espec(e, item);
            s.start = s.start.map(|_| k(kk.0));
            s.fail = s.fail.map(|(n, _)| (n, k(kk.0)));
            s
        }
        E::Optional(e) => match opt_of(item.clone()) {
            None => ES { idle_at_once: true, ..ES::default() },
            Some(v) => espec(e, &v),
        },
        E::Repeat(e) => {
            let items: Vec<V> = match item {
                V::L(l) => l.clone(),
                v => panic!("HARNESS: list expected, got {v:?}"),
            };
            let mut out = ES::default();
            for v in &items {
                let s = espec(e, v);
                let off = out.bytes.len() as u64;
                if let Some(ks) = s.start {
                    out.fail = Some((off, ks));
                    return out;
                }
                out.bytes.extend(&s.bytes);
                if let Some((n, ks)) = s.fail {
                    out.fail = Some((off + n, ks));
                    return out;
                }
                if s.tail.is_some() {
                    panic!("HARNESS: endless item repeated");
                }
            }
            out
        }
        E::Length(n, e) => {
            let mut s = espec(e, item);
            if s.start.is_some() {
                return s;
            }
            if s.idle_at_once {
                if *n != 0 {
                    s.start = Some(INV);
                }
                return s;
            }
            let len = s.bytes.len() as u64;
            let ek = eos_kinds(e).or(EOS);
            match s.fail {
                // both may be met in the same call
                Some((m, ks)) if m <= *n => {
                    s.fail = Some((m, ks.or(ek)));
                    if let Some(b) = s.tail.take() {
                        s.bytes.resize(s.bytes.len().max(m as usize - 1), b);
                    }
                }
                // endless, and would fail only beyond the frame
                Some(_) if s.tail.is_some() && !s.doomed && len <= *n => {
                    s.fail = None;
                    s.bytes.resize(*n as usize, s.tail.take().unwrap());
                }
                Some(_) => {
                    s.fail = Some((*n, ek));
                    if let Some(b) = s.tail.take() {
                        s.bytes.resize(s.bytes.len().max(*n as usize), b);
                    }
                }
                None => {
                    if let Some(b) = s.tail.take() {
                        if s.doomed || len > *n {
                            s.fail = Some((*n, ek));
                        }
                        s.bytes.resize(s.bytes.len().max(*n as usize), b);
                        s.doomed = false;
                    } else if len > *n {
                        s.fail = Some((*n, ek));
                    } else if len < *n {
                        s.fail = Some((len, INV));
                    }
                }
            }
            s
        }
        E::Max(n, e) => {
            let mut s = espec(e, item);
            if s.start.is_some() {
                return s;
            }
            if s.bytes.len() as u64 > *n || s.tail.is_some() {
                match s.fail {
                    Some((m, ks)) => s.fail = Some((m.min(*n + 1), ks.or(INV))),
                    _ => s.fail = Some((*n + 1, INV)),
                }
            }
            s
        }
        E::Tup(es) => {
            let vs = parts(item.clone(), es.len());
            let mut out = ES { idle_at_once: true, ..ES::default() };
            let ss: Vec<ES> = es.iter().zip(&vs).map(|(e, v)| espec(e, v)).collect();
            if let Some(k) = ss.iter().find_map(|s| s.start) {
                return ES { start: Some(k), ..ES::default() };
            }
            for s in ss {
                out.idle_at_once &= s.idle_at_once;
                if out.tail.is_some() {
                    out.doomed |= !s.bytes.is_empty() || s.doomed || s.fail.is_some();
                    continue;
                }
                if out.fail.is_some() {
                    continue;
                }
                let off = out.bytes.len() as u64;
                out.bytes.extend(&s.bytes);
                out.fail = s.fail.map(|(n, ks)| (n + off, ks));
                out.tail = s.tail;
                out.doomed = s.doomed;
            }
            out
        }
        E::Pre(e) => {
            let mut s = espec(e, item);
            if s.start.is_some() {
                return s;
            }
            if s.tail.is_some() {
                s.start = Some(ANY);
            }
            if let Some((_, ks)) = s.fail {
                s.start = Some(ks.or(EOS).or(crate::val::k(ErrorKind::InconsistentState)));
                s.fail = None;
            }
            s.idle_at_once = false;
            s
        }
        E::Slice(e) | E::Boxed(e) => espec(e, item),
        E::Last(e) => {
            let mut p = parts(item.clone(), 2);
            let fin = espec(e, &p.pop().unwrap());
            let mut out = match opt_of(p.pop().unwrap()) {
                Some(v) => espec(e, &v),
                None => ES::default(),
            };
            out.idle_at_once = false;
            if out.start.is_some() || out.fail.is_some() || out.tail.is_some() {
                return out;
            }
            let off = out.bytes.len() as u64;
            out.bytes.extend(&fin.bytes);
            out.tail = fin.tail;
            out.doomed = fin.doomed;
            if let Some(ks) = fin.start {
                out.fail = Some((off, ks));
            } else {
                out.fail = fin.fail.map(|(n, ks)| (n + off, ks));
            }
            out
        }
    }
}
/// One call: what must happen when `cap` further bytes are offered after `done` bytes have been emitted.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Want {
    Err(Ks),
    Ok { out: Vec<u8>, idle: bool },
}
pub fn want(s: &ES, mapped_eos: Ks, done: usize, cap: usize, eos: bool) -> Want {
    let total = done as u64 + cap as u64;
    if let Some((n, ks)) = s.fail {
        if total >= n {
            return Want::Err(if eos { ks.or(mapped_eos) } else { ks });
        }
        if eos && s.tail.is_none() {
            return Want::Err(mapped_eos);
        }
    }
    let need = s.bytes.len();
    if let Some(b) = s.tail {
        let mut out: Vec<u8> = s.bytes[done.min(need)..need.min(done + cap).max(done.min(need))].to_vec();
        if eos && (s.doomed || total < need as u64) {
            return Want::Err(mapped_eos);
        }
        out.resize(cap, b);
        return Want::Ok { out, idle: eos };
    }
    if total >= need as u64 {
        Want::Ok { out: s.bytes[done..].to_vec(), idle: s.fail.is_none() }
    } else if eos {
        Want::Err(mapped_eos)
    } else {
        Want::Ok { out: s.bytes[done..done + cap].to_vec(), idle: false }
    }
}
/// The kind as which an unexpected end of stream is reported (an outer `map_err` replaces it).
pub fn eos_kinds(t: &E) -> Ks {
    match t {
        E::MapErr(kk, _) => k(kk.0),
        E::Length(_, e) => eos_kinds(e).or(EOS),
        E::MapFrom(e) | E::TryMapFrom(e) | E::Optional(e) | E::Repeat(e) | E::Max(_, e) | E::Slice(e)
        | E::Boxed(e) | E::Last(e) => eos_kinds(e),
        E::Pre(_) => EOS,
        E::Tup(es) => es.iter().fold(Ks(0), |a, e| a.or(eos_kinds(e))),
        E::Null => Ks(0),
        _ => EOS,
    }
}

pub fn any(t: &E, p: &dyn Fn(&E) -> bool) -> bool {
    if p(t) {
        return true;
    }
    match t {
        E::MapFrom(e) | E::TryMapFrom(e) | E::MapErr(_, e) | E::Optional(e) | E::Repeat(e) | E::Length(_, e)
        | E::Max(_, e) | E::Pre(e) | E::Slice(e) | E::Last(e) | E::Boxed(e) => any(e, p),
        E::Tup(es) => es.iter().any(|e| any(e, p)),
        _ => false,
    }
}
pub fn well_formed(t: &E) -> bool {
    let endless = |e: &E| any(e, &|x| *x == E::Pad);
    !any(t, &|x| match x {
        E::Repeat(e) | E::Last(e) => endless(e),
        // pre_encode of an encoder that fails or never ends is not promised to be usable afterwards
        E::Pre(e) => endless(e) || any(e, &|y| matches!(y, E::Length(..) | E::Max(..))),
        _ => false,
    })
}

pub fn bx(e: E) -> Box<E> {
    Box::new(e)
}
pub fn boxed(v: V) -> V {
    V::O(Some(Box::new(v)))
}
/// Items to encode with a term.
pub fn items(t: &E) -> Vec<V> {
    items_n(t, 4)
}
pub fn items_n(t: &E, max: usize) -> Vec<V> {
    let mut v = match t {
        E::Fix(f) => {
            let top = if f.width == 8 { u64::MAX } else { (1u64 << (f.width * 8)) - 1 };
            let pos = 0x0102_0304_0506_0708u64 >> (64 - f.width * 8);
            let mut v = vec![V::N(pos), V::N(2)];
            if f.signed {
                v.push(V::N(u64::MAX)); // -1
            } else {
                v.push(V::N(top));
                if f.width < 8 && !f.float && [3, 5, 6, 7].contains(&f.width) {
                    v.push(V::N(top + 1));
                }
            }
            v
        }
        E::Bytes => vec![V::B(vec![1, 2, 3]), V::B(vec![]), V::B(vec![2]), V::B(vec![9, 8])],
        E::Utf8 => vec![V::S("aé".into()), V::S("".into()), V::S("\u{2}".into())],
        E::Pad => vec![V::N(7), V::N(0)],
        E::Null => vec![V::Unit],
        E::Line => vec![V::B(vec![1, 3]), V::B(vec![]), V::B(vec![3])],
        E::Json => vec![V::S("a".into()), V::S("".into()), V::S("\n".into())],
        E::MapFrom(e) | E::TryMapFrom(e) => {
            items_n(e, max).into_iter().map(|x| V::T(vec![V::N(if matches!(t, E::MapFrom(_)) { 77 } else { 78 }), x])).collect()
        }
        E::MapErr(_, e) | E::Length(_, e) | E::Max(_, e) | E::Pre(e) | E::Slice(e) | E::Boxed(e) => items_n(e, max),
        E::Optional(e) => {
            let mut v: Vec<V> = items_n(e, max).into_iter().map(boxed).collect();
            v.insert(v.len().min(1), V::O(None));
            v
        }
        E::Repeat(e) => {
            let i = items_n(e, 3);
            let mut v = vec![V::L(i.clone()), V::L(vec![]), V::L(vec![i[0].clone()])];
            if i.len() > 1 {
                v.push(V::L(vec![i[1].clone(), i[0].clone(), i[1].clone()]));
                v.push(V::L(vec![i[0].clone(), i[1].clone()]));
            }
            v
        }
        E::Last(e) => {
            let i = items_n(e, 3);
            let mut v = vec![];
            for x in &i {
                v.push(V::T(vec![V::O(None), x.clone()]));
                for y in i.iter().take(2) {
                    v.push(V::T(vec![boxed(y.clone()), x.clone()]));
                }
            }
            v
        }
        E::Tup(es) => {
            let is: Vec<Vec<V>> = es.iter().map(|e| items_n(e, 3)).collect();
            let mut v = vec![V::T(is.iter().map(|i| i[0].clone()).collect())];
            for (j, i) in is.iter().enumerate() {
                for x in &i[1..] {
                    let mut p: Vec<V> = is.iter().map(|i| i[0].clone()).collect();
                    p[j] = x.clone();
                    v.push(V::T(p));
                }
            }
            v.push(V::T(is.iter().map(|i| i[i.len() - 1].clone()).collect()));
            v
        }
    };
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    if matches!(t, E::Repeat(_) | E::Tup(_) | E::Last(_)) {
        v.truncate(max.max(12));
    } else {
        v.truncate(max.max(4) + 2);
    }
    v
}

pub fn leaves() -> Vec<E> {
    vec![
        E::Fix(fix::U8),
        E::Fix(fix::U16BE),
        E::Fix(fix::U24LE),
        E::Bytes,
        E::Utf8,
        E::Null,
        E::Pad,
        E::Json,
        E::Line,
    ]
}
pub fn few_leaves() -> Vec<E> {
    vec![E::Fix(fix::U8), E::Fix(fix::U16BE), E::Bytes, E::Null, E::Line]
}
pub fn unary(e: &E) -> Vec<E> {
    let b = || bx(e.clone());
    vec![
        E::MapFrom(b()),
        E::TryMapFrom(b()),
        E::MapErr(ErrorKindW(ErrorKind::Other), b()),
        E::Optional(b()),
        E::Repeat(b()),
        E::Length(0, b()),
        E::Length(1, b()),
        E::Length(2, b()),
        E::Length(3, b()),
        E::Length(5, b()),
        E::Max(0, b()),
        E::Max(1, b()),
        E::Max(2, b()),
        E::Max(3, b()),
        E::Max(100, b()),
        E::Pre(b()),
        E::Slice(b()),
        E::Last(b()),
        E::Boxed(b()),
    ]
    .into_iter()
    .filter(well_formed)
    .collect()
}
pub fn pairs(a: &[E], b: &[E]) -> Vec<E> {
    let mut v = vec![];
    for x in a {
        for y in b {
            v.push(E::Tup(vec![x.clone(), y.clone()]));
        }
    }
    v.retain(well_formed);
    v
}
pub fn tuples() -> Vec<E> {
    let pool = [
        E::Fix(fix::U16BE),
        E::Null,
        E::Bytes,
        E::Optional(bx(E::Fix(fix::U8))),
        E::Repeat(bx(E::Fix(fix::U8))),
    ];
    let mut v = vec![];
    for n in 2..=8usize {
        v.push(E::Tup(vec![E::Fix(fix::U8); n]));
        for i in 0..n {
            for p in &pool {
                let mut t = vec![E::Fix(fix::U8); n];
                t[i] = p.clone();
                v.push(E::Tup(t));
            }
            let mut t = vec![E::Null; n];
            t[i] = E::Fix(fix::U16BE);
            v.push(E::Tup(t));
        }
        let mut t = vec![E::Fix(fix::U8); n];
        t[n - 1] = E::Pad;
        v.push(E::Tup(t));
    }
    v
}
pub fn terms(thorough: bool) -> Vec<E> {
    let l = leaves();
    let mut d2: Vec<E> = l.iter().flat_map(unary).collect();
    d2.extend(pairs(&l, &l));
    let mut v = l.clone();
    v.extend(d2.iter().cloned());
    v.extend(tuples());
    let few = few_leaves();
    if thorough {
        for d in &d2 {
            v.extend(unary(d));
        }
        v.extend(pairs(&d2, &few));
        v.extend(pairs(&few, &d2));
    } else {
        let few2: Vec<E> = few.iter().flat_map(unary).chain(pairs(&few, &few)).collect();
        for d in &few2 {
            v.extend(unary(d));
        }
        let small = [E::Fix(fix::U8), E::Bytes];
        v.extend(pairs(&few2, &small));
        v.extend(pairs(&small, &few2));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| well_formed(t) && seen.insert(t.clone()));
    v
}
/// Can a failed `start_encoding` leave earlier parts of a tuple started?  (Known finding
/// KF-tuple-partial-start.)
pub fn partial_start(t: &E, item: &V) -> bool {
    match t {
        E::Tup(es) => {
            let vs = parts(item.clone(), es.len());
            let ss: Vec<ES> = es.iter().zip(&vs).map(|(e, v)| espec(e, v)).collect();
            match ss.iter().position(|s| s.start.is_some()) {
                Some(i) => ss[..i].iter().any(|s| !s.idle_at_once) || partial_start(&es[i], &vs[i]),
                None => false,
            }
        }
        E::MapFrom(e) => partial_start(e, &unmap(item.clone())),
        E::TryMapFrom(e) => try_unmap(item.clone()).is_ok_and(|v| partial_start(e, &v)),
        E::Optional(e) => opt_of(item.clone()).is_some_and(|v| partial_start(e, &v)),
        // the inner encoder of pre_encode failed in the middle of the item
        E::Pre(e) => partial_start(e, item) || espec(e, item).fail.is_some(),
        E::MapErr(_, e) | E::Length(_, e) | E::Max(_, e) | E::Slice(e) | E::Boxed(e) => partial_start(e, item),
        // rejected in the middle of encoding
        E::Repeat(_) | E::Last(_) => false,
        _ => false,
    }
}
