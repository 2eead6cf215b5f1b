//! C03 (fixed-width numbers), C21 (byte counts and distances), C27 (owned slices).
use crate::core::*;
use crate::fix::{self, Fix, FixVisitor, Num};
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::slice::OwnedSlice;
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use std::cmp::Ordering;

// ---------------------------------------------------------------- C03

fn mask(f: Fix) -> u64 {
    if f.width == 8 {
        u64::MAX
    } else {
        (1u64 << (f.width * 8)) - 1
    }
}
/// The raw value of a bit pattern.
fn raw(f: Fix, pattern: u64) -> u64 {
    let p = pattern & mask(f);
    if f.signed && f.width < 8 && p >> (f.width * 8 - 1) == 1 {
        p | !mask(f)
    } else {
        p
    }
}
struct Run<'a, 'b> {
    f: Fix,
    job: Job<'b>,
    ch: &'a mut Ch,
    r: Case,
}
enum Job<'a> {
    /// One call per direction, codecs reused from one value to the next.
    Whole(&'a mut dyn Iterator<Item = u64>),
    /// All ways of cutting the representation.
    Cut(u64),
    /// Values that must be refused, each followed by a valid one.
    Refuse(&'a [u64]),
}
impl FixVisitor for Run<'_, '_> {
    fn visit<T, D, E>(&mut self, f: Fix)
    where
        T: Num,
        D: Decode<Item = T> + Default,
        E: SizedEncode<Item = T> + Default,
    {
        debug_assert_eq!(f, self.f);
        self.r = match &mut self.job {
            Job::Whole(it) => whole::<T, D, E>(self.ch, f, *it),
            Job::Cut(x) => cut::<T, D, E>(self.ch, f, *x),
            Job::Refuse(xs) => refuse::<T, D, E>(self.ch, f, xs),
        };
    }
}
fn run(ch: &mut Ch, f: Fix, job: Job) -> Case {
    let mut r = Run { f, job, ch, r: Ok(()) };
    fix::visit(f, &mut r);
    r.r
}
fn whole<T: Num, D: Decode<Item = T> + Default, E: SizedEncode<Item = T> + Default>(
    ch: &mut Ch,
    f: Fix,
    it: &mut dyn Iterator<Item = u64>,
) -> Case {
    let (mut d, mut e) = (D::default(), E::default());
    let w = f.width;
    let mut n = 0u64;
    for pattern in it {
        n += 1;
        let p = pattern & mask(f);
        let x = raw(f, p);
        // the representation, lane by lane
        let mut want = [0xEEu8; 10];
        for i in 0..w {
            want[if f.little { i } else { w - 1 - i }] = (p >> (8 * i)) as u8;
        }
        let mut buf = [0xEEu8; 10];
        if let Err(x) = e.start_encoding(T::from_raw(x)) {
            return Err(format!("{}: value {p:#x} refused with {:?}", f.name, x.kind()));
        }
        let m = e.encode(&mut buf, Eos::new(false)).map_err(|x| format!("{}: encoding {p:#x}: {:?}", f.name, x.kind()))?;
        if m != w || buf != want || !e.is_idle() {
            return Err(format!("{}: {p:#x} encoded as {:02x?} ({m} bytes, idle={}), expected {:02x?}", f.name, &buf, e.is_idle(), &want[..w]));
        }
        let m = d.decode(&want, Eos::new(false)).map_err(|x| format!("{}: decoding {p:#x}: {:?}", f.name, x.kind()))?;
        if m != w || !d.is_idle() {
            return Err(format!("{}: {m} of {w} bytes consumed, idle={}", f.name, d.is_idle()));
        }
        let y = d.finish_decoding().map_err(|x| format!("{}: finish: {:?}", f.name, x.kind()))?.to_raw();
        if y != x {
            return Err(format!("{}: {:02x?} decoded as {y:#x}, expected {x:#x}", f.name, &want[..w]));
        }
    }
    ch.steps(n * 4);
    ch.validated += n;
    ch.state(&(f.name, n));
    Ok(())
}
fn cut<T: Num, D: Decode<Item = T> + Default, E: SizedEncode<Item = T> + Default>(ch: &mut Ch, f: Fix, pattern: u64) -> Case {
    let p = pattern & mask(f);
    let x = raw(f, p);
    let want = fix::model_write(f, if f.signed { p } else { x }).unwrap();
    let mut e = E::default();
    if e.exact_requiring_bytes() != 0 || e.requiring_bytes() != ByteCount::Finite(0) || !e.is_idle() {
        return Err(format!("{}: new encoder is not idle", f.name));
    }
    e.start_encoding(T::from_raw(x)).map_err(|x| format!("{}: {p:#x} refused: {:?}", f.name, x.kind()))?;
    let mut out = vec![];
    // a bit mask of cut positions
    let m = ch.pick(1 << (f.width - 1));
    let mut pieces = vec![];
    let mut len = 0;
    for i in 0..f.width {
        len += 1;
        if i + 1 == f.width || m >> i & 1 == 1 {
            pieces.push(len);
            len = 0;
        }
    }
    for &k in &pieces {
        let left = (f.width - out.len()) as u64;
        if e.exact_requiring_bytes() != left || e.requiring_bytes() != ByteCount::Finite(left) || e.is_idle() {
            return Err(format!("{}: {} bytes announced, {left} to come", f.name, e.exact_requiring_bytes()));
        }
        let mut b = vec![0xEE; k];
        let last = out.len() + k == f.width;
        let n = e.encode(&mut b, Eos::new(last)).map_err(|x| format!("{}: encode: {:?}", f.name, x.kind()))?;
        ch.step();
        if n != k {
            return Err(format!("{}: {n} bytes written into a buffer of {k}", f.name));
        }
        out.extend(b);
    }
    if out != want || !e.is_idle() {
        return Err(format!("{}: {p:#x} encoded as {out:02x?}, expected {want:02x?}", f.name));
    }
    let mut d = D::default();
    let mut pos = 0;
    for &k in &pieces {
        if d.requiring_bytes() != ByteCount::Finite((f.width - pos) as u64) {
            return Err(format!("{}: requirement after {pos} bytes", f.name));
        }
        let last = pos + k == f.width;
        let n = d.decode(&want[pos..pos + k], Eos::new(last)).map_err(|x| format!("{}: decode: {:?}", f.name, x.kind()))?;
        ch.step();
        pos += k;
        if n != k || d.is_idle() != last {
            return Err(format!("{}: {n} of {k} bytes consumed, idle={} after {pos}", f.name, d.is_idle()));
        }
    }
    let y = d.finish_decoding().map_err(|x| format!("{}: finish: {:?}", f.name, x.kind()))?.to_raw();
    if y != x {
        return Err(format!("{}: {want:02x?} decoded as {y:#x}, expected {x:#x}", f.name));
    }
    ch.state(&(f.name, p, m));
    ch.outcome(&(f.name, p));
    ch.valid();
    Ok(())
}
fn refuse<T: Num, D: Decode<Item = T> + Default, E: SizedEncode<Item = T> + Default>(ch: &mut Ch, f: Fix, xs: &[u64]) -> Case {
    let mut e = E::default();
    for &x in xs {
        match e.start_encoding(T::from_raw(x)) {
            Ok(()) => return Err(format!("{}: {x:#x} accepted although it does not fit", f.name)),
            Err(k) if *k.kind() != ErrorKind::InvalidInput => return Err(format!("{}: {x:#x} refused with {:?}", f.name, k.kind())),
            Err(_) => {}
        }
        if !e.is_idle() || e.exact_requiring_bytes() != 0 || e.requiring_bytes() != ByteCount::Finite(0) {
            return Err(format!("{}: not idle after refusing {x:#x}", f.name));
        }
        let mut b = [0xEE; 9];
        match e.encode(&mut b, Eos::new(false)) {
            Ok(0) if b == [0xEE; 9] => {}
            r => return Err(format!("{}: after refusing {x:#x} encode gave {}", f.name, res(&r))),
        }
        let v = x & mask(f);
        let out = e.encode_into_bytes(T::from_raw(v)).map_err(|k| format!("{}: {v:#x} refused after {x:#x}: {:?}", f.name, k.kind()))?;
        if Some(&out) != fix::model_write(f, v).as_ref() {
            return Err(format!("{}: {v:#x} after the refusal of {x:#x}: {out:02x?}", f.name));
        }
        ch.steps(4);
        ch.validated += 1;
        ch.state(&(f.name, x));
    }
    Ok(())
}
/// Bit patterns with a structure code may trip over.
fn special(f: Fix) -> Vec<u64> {
    let bits = f.width as u32 * 8;
    let mut v = vec![];
    for i in 0..bits {
        for x in [1u64 << i, (1u64 << i).wrapping_sub(1), !(1u64 << i), (1u64 << i).wrapping_add(1), u64::MAX << i, 0x0102_0304_0506_0708u64.rotate_left(i), 0x5A5A_A5A5_FF00_00FFu64.rotate_right(i)] {
            v.push(x & mask(f));
        }
    }
    if f.float {
        let (e, m) = if f.width == 4 { (8, 23) } else { (11, 52) };
        let exp = (1u64 << e) - 1;
        for s in [0u64, 1] {
            for ex in [0, 1, exp / 2, exp - 1, exp] {
                for ma in [0u64, 1, (1 << m) - 1, 1 << (m - 1), (1 << (m - 1)) + 1, 0x2_5A5A] {
                    v.push((s << (e + m)) | (ex << m) | ma);
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
pub fn c03(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("all 26 fixed-width codecs: every value of the 8, 16 and 24 bit ones; for wider ones every value of every byte lane and of every pair of byte lanes over several backgrounds, all structured patterns (single bits, runs, carries, float classes and NaN payloads); all 2^(width-1) ways of cutting the representation for the structured patterns; every way of exceeding the width by one or two bits, and each over-range bit over every structured low part".into());
    let mut us = vec![];
    for f in fix::FIXES {
        let f = *f;
        if f.width <= 3 {
            us.push(unit(format!("all values {}", f.name), move |ch| {
                let blocks = 1u64 << (f.width * 8).saturating_sub(16);
                let hi = ch.pick(blocks as usize) as u64;
                let n = 1u64 << (f.width * 8).min(16);
                run(ch, f, Job::Whole(&mut (0..n).map(|x| hi << 16 | x)))
            }));
        }
        // pairs of lanes
        let w = f.width;
        for (i, j) in (0..w).flat_map(|i| (i..w).map(move |j| (i, j))) {
            if w == 1 {
                continue;
            }
            us.push(unit(format!("lanes {} {i} {j}", f.name), move |ch| {
                let all = [0u64, u64::MAX, 0x0102_0304_0506_0708, 0x8080_8080_8080_8080, 0x7F7F_7F7F_7F7F_7F7F, 0xA1B2_C3D4_E5F6_9788, 1 << 63 | 1 << 31, 0x00FF_00FF_00FF_00FF];
                let bg = all[ch.pick(if th { 8 } else { 4 })] & !(0xFF << (8 * i)) & !(0xFF << (8 * j));
                if i == j {
                    run(ch, f, Job::Whole(&mut (0..256u64).map(|x| bg | x << (8 * i))))
                } else {
                    run(ch, f, Job::Whole(&mut (0..65536u64).map(|x| bg | (x & 255) << (8 * i) | (x >> 8) << (8 * j))))
                }
            }));
        }
        us.push(unit(format!("special {}", f.name), move |ch| {
            let v = special(f);
            run(ch, f, Job::Whole(&mut v.into_iter()))
        }));
        us.push(unit(format!("cut {}", f.name), move |ch| {
            let v = special(f);
            let x = *ch.of(&v);
            run(ch, f, Job::Cut(x))
        }));
        // sequences: nothing of one value shows in the next
        us.push(unit(format!("sequence {}", f.name), move |ch| {
            let vs = [0u64, u64::MAX, 0x0102_0304_0506_0708, 0x8000_0000_0000_0001];
            let v: Vec<u64> = (0..4).map(|_| *ch.of(&vs)).collect();
            run(ch, f, Job::Whole(&mut v.into_iter()))
        }));
        if [3usize, 5, 6, 7].contains(&f.width) {
            us.push(unit(format!("refuse {}", f.name), move |ch| {
                let top = if f.width == 3 { 32 } else { 64 };
                let lo = f.width * 8;
                let i = lo + ch.pick(top - lo);
                let mut xs = vec![];
                for j in 0..top {
                    xs.push(1u64 << i | 1u64 << j);
                    xs.push((1u64 << i) - 1 + (1 << i) >> (top - 1 - i).min(1));
                    xs.push(u64::MAX >> (64 - top) & !(1 << j) | 1 << i);
                    xs.push((1u64 << i) | ((1u64 << j) - 1));
                }
                xs.extend(special(f).iter().map(|s| s | 1 << i));
                xs.retain(|x| x >> lo != 0 && (top == 64 || x >> top == 0));
                xs.push(1u64 << lo);
                xs.push(u64::MAX >> (64 - top));
                run(ch, f, Job::Refuse(&xs))
            }));
            us.push(unit(format!("boundary {}", f.name), move |ch| {
                let m = mask(f);
                run(ch, f, Job::Whole(&mut [m, m - 1, m >> 1, (m >> 1) + 1, 0, 1, m - 255, m - 256].into_iter()))
            }));
        }
    }
    us
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    F(u128),
    Inf,
    Unk,
}
fn real(b: B) -> ByteCount {
    match b {
        B::F(n) => ByteCount::Finite(n.min(u128::from(u64::MAX)) as u64),
        B::Inf => ByteCount::Infinite,
        B::Unk => ByteCount::Unknown,
    }
}
fn add_dec(a: B, b: B) -> B {
    match (a, b) {
        (B::F(a), B::F(b)) => B::F(a + b),
        (B::Inf, _) | (_, B::Inf) => B::Inf,
        (B::Unk, B::Unk) => B::Unk,
        (B::F(0), B::Unk) | (B::Unk, B::F(0)) => B::Unk,
        (B::F(a), B::Unk) | (B::Unk, B::F(a)) => B::F(a),
    }
}
fn add_enc(a: B, b: B) -> B {
    match (a, b) {
        (B::F(a), B::F(b)) => B::F(a + b),
        (B::Inf, _) | (_, B::Inf) => B::Inf,
        _ => B::Unk,
    }
}
fn order(a: B, b: B) -> Option<Ordering> {
    match (a, b) {
        (B::Unk, _) | (_, B::Unk) => None,
        (B::F(a), B::F(b)) => Some(a.cmp(&b)),
        (B::Inf, B::Inf) => Some(Ordering::Equal),
        (B::Inf, _) => Some(Ordering::Greater),
        (_, B::Inf) => Some(Ordering::Less),
    }
}
fn domain() -> Vec<B> {
    let mut v: Vec<u128> = (0..=17).collect();
    for i in 4..=64u32 {
        for d in [0i64, -1, 1, -2, 2] {
            let x = (1i128 << i) + i128::from(d);
            if x <= i128::from(u64::MAX) {
                v.push(x as u128);
            }
        }
    }
    for d in 0..4 {
        v.push(u128::from(u64::MAX) - d);
        v.push(u128::from(u64::MAX / 2) + d);
        v.push(u128::from(u64::MAX / 3) + d);
    }
    v.sort_unstable();
    v.dedup();
    let mut r = vec![B::Unk, B::Inf];
    r.extend(v.into_iter().map(B::F));
    r
}
fn small_domain() -> Vec<B> {
    let m = u128::from(u64::MAX);
    vec![B::Unk, B::Inf, B::F(0), B::F(1), B::F(2), B::F(255), B::F(256), B::F(1 << 31), B::F((1 << 32) - 1), B::F(1 << 32), B::F(m / 2), B::F(m / 2 + 1), B::F(m - 1), B::F(m)]
}
/// A decoder or encoder that only announces a requirement.
pub struct Stub(pub ByteCount);
impl Decode for Stub {
    type Item = ();
    fn decode(&mut self, _: &[u8], _: Eos) -> bytecodec::Result<usize> {
        Ok(0)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        Err(err(ErrorKind::IncompleteDecoding))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0
    }
    fn is_idle(&self) -> bool {
        false
    }
}
impl Encode for Stub {
    type Item = ();
    fn encode(&mut self, _: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        Ok(0)
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0
    }
    fn is_idle(&self) -> bool {
        false
    }
}
impl SizedEncode for Stub {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.to_u64().unwrap_or(0)
    }
}
fn tuple_sums(v: &[B]) -> (ByteCount, ByteCount, u64) {
    let mut it = v.iter().map(|b| Stub(real(*b)));
    let mut it2 = v.iter().map(|b| Stub(real(*b)));
    macro_rules! t {
        ($($x:ident),*) => {{
            $(let $x = it.next().unwrap();)*
            let d = TupleDecoder::new(($($x,)*));
            $(let $x = it2.next().unwrap();)*
            let e = TupleEncoder::new(($($x,)*));
            (d.requiring_bytes(), e.requiring_bytes(), e.exact_requiring_bytes())
        }};
    }
    match v.len() {
        2 => t!(a, b),
        3 => t!(a, b, c),
        4 => t!(a, b, c, d),
        5 => t!(a, b, c, d, e),
        6 => t!(a, b, c, d, e, f),
        7 => t!(a, b, c, d, e, f, g),
        8 => t!(a, b, c, d, e, f, g, h),
        _ => panic!("HARNESS: arity"),
    }
}
pub fn c21(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every pair out of about 300 byte counts (all powers of two and their neighbours, both ends, infinite, unknown) for both additions, every comparison operator, and moving a distance back; every triple of 14 of them for associativity; every way of placing them in tuples of arity 2 to 8 (three positions free)".into());
    let mut us = vec![];
    let dom = domain();
    for (i, a) in dom.iter().copied().enumerate() {
        let dom = dom.clone();
        us.push(unit(format!("pairs {i} {a:?}"), move |ch| {
            let b = *ch.of(&dom);
            let (x, y) = (real(a), real(b));
            ch.state(&(format!("{x:?}{y:?}")));
            let eq = |what: &str, got: ByteCount, want: B| {
                if got == real(want) {
                    Ok(())
                } else {
                    Err(format!("{what} of {x:?} and {y:?} is {got:?}, expected {:?}", real(want)))
                }
            };
            eq("add_for_decoding", x.add_for_decoding(y), add_dec(a, b))?;
            eq("add_for_encoding", x.add_for_encoding(y), add_enc(a, b))?;
            eq("reversed add_for_decoding", y.add_for_decoding(x), add_dec(a, b))?;
            eq("reversed add_for_encoding", y.add_for_encoding(x), add_enc(a, b))?;
            let o = order(a, b);
            if x.partial_cmp(&y) != o || (x < y) != (o == Some(Ordering::Less)) || (x > y) != (o == Some(Ordering::Greater)) || (x <= y) != matches!(o, Some(Ordering::Less | Ordering::Equal)) || (x >= y) != matches!(o, Some(Ordering::Greater | Ordering::Equal)) {
                return Err(format!("{x:?} compared with {y:?} gives {:?}, expected {o:?}", x.partial_cmp(&y)));
            }
            if (x == y) != (a == b) || (x != y) != (a != b) {
                return Err(format!("{x:?} == {y:?} gives {}", x == y));
            }
            ch.steps(9);
            let (p, q) = (Eos::with_remaining_bytes(x), Eos::with_remaining_bytes(y));
            if p.partial_cmp(&q) != o || (p == q) != (a == b) {
                return Err(format!("{p:?} compared with {q:?} gives {:?}, expected {o:?}", p.partial_cmp(&q)));
            }
            // moving back
            if let B::F(n) = b {
                let want = match a {
                    B::F(m) => B::F(m + n),
                    z => z,
                };
                let r = p.back(n as u64);
                if r.remaining_bytes() != real(want) || r.is_reached() != (want == B::F(0)) || p.remaining_bytes() != x {
                    return Err(format!("{p:?} moved back by {n} is {r:?}, expected {:?}", real(want)));
                }
                for m in [0u64, 1, u64::MAX, 1 << 32] {
                    let want = match want {
                        B::F(k) => B::F(k + u128::from(m)),
                        z => z,
                    };
                    let r = p.back(n as u64).back(m);
                    if r.remaining_bytes() != real(want) || r.is_reached() != (want == B::F(0)) {
                        return Err(format!("{p:?} moved back by {n} and {m} is {r:?}, expected {:?}", real(want)));
                    }
                }
                ch.steps(5);
            }
            ch.valid();
            Ok(())
        }));
    }
    us.push(unit("single", |ch| {
        let dom = domain();
        let a = *ch.of(&dom);
        let x = real(a);
        let f = matches!(a, B::F(_));
        if x.is_finite() != f || x.is_infinite() != (a == B::Inf) || x.is_unknow() != (a == B::Unk) {
            return Err(format!("classification of {x:?}"));
        }
        if x.to_u64() != (if let B::F(n) = a { Some(n as u64) } else { None }) {
            return Err(format!("to_u64 of {x:?} is {:?}", x.to_u64()));
        }
        let e = Eos::with_remaining_bytes(x);
        if e.is_reached() != (a == B::F(0)) || e.remaining_bytes() != x {
            return Err(format!("{e:?}: reached={} remaining={:?}", e.is_reached(), e.remaining_bytes()));
        }
        if ByteCount::default() != ByteCount::Unknown {
            return Err("default byte count".into());
        }
        let (r, o) = (Eos::new(true), Eos::new(false));
        if !r.is_reached() || r.remaining_bytes() != ByteCount::Finite(0) || o.is_reached() || o.remaining_bytes() != ByteCount::Unknown {
            return Err(format!("Eos::new: {r:?} {o:?}"));
        }
        ch.steps(8);
        ch.valid();
        Ok(())
    }));
    for a in small_domain() {
        us.push(unit(format!("triples {a:?}"), move |ch| {
            let dom = small_domain();
            let (b, c) = (*ch.of(&dom), *ch.of(&dom));
            let (x, y, z) = (real(a), real(b), real(c));
            for (n, l, r, want) in [
                ("add_for_decoding", x.add_for_decoding(y).add_for_decoding(z), x.add_for_decoding(y.add_for_decoding(z)), (add_dec(add_dec(a, b), c), add_dec(a, add_dec(b, c)))),
                ("add_for_encoding", x.add_for_encoding(y).add_for_encoding(z), x.add_for_encoding(y.add_for_encoding(z)), (add_enc(add_enc(a, b), c), add_enc(a, add_enc(b, c)))),
            ] {
                if l != real(want.0) || r != real(want.1) {
                    return Err(format!("{n} of {x:?}, {y:?}, {z:?}: {l:?} / {r:?}, expected {:?} / {:?}", real(want.0), real(want.1)));
                }
                if want.0 == want.1 && l != r {
                    return Err(format!("{n} of {x:?}, {y:?}, {z:?} is not associative: {l:?} / {r:?}"));
                }
            }
            ch.state(&format!("{a:?}{b:?}{c:?}"));
            ch.steps(4);
            ch.valid();
            Ok(())
        }));
    }
    for n in 2..=8usize {
        for rest in [B::F(0), B::F(3), B::Unk, B::F(u128::from(u64::MAX) / 4)] {
            us.push(unit(format!("tuple {n} {rest:?}"), move |ch| {
                let dom = small_domain();
                let mut v = vec![rest; n];
                for _ in 0..if th { 3 } else { 2 } {
                    let i = ch.pick(n);
                    v[i] = *ch.of(&dom);
                }
                let d = v.iter().fold(B::F(0), |a, b| add_dec(a, *b));
                let e = v.iter().fold(B::F(0), |a, b| add_enc(a, *b));
                let s = v.iter().fold(0u128, |a, b| a + if let B::F(n) = b { *n } else { 0 });
                let (x, y, z) = tuple_sums(&v);
                if x != real(d) {
                    return Err(format!("tuple decoder of {v:?} requires {x:?}, expected {:?}", real(d)));
                }
                if y != real(e) {
                    return Err(format!("tuple encoder of {v:?} requires {y:?}, expected {:?}", real(e)));
                }
                if z != s.min(u128::from(u64::MAX)) as u64 {
                    return Err(format!("tuple encoder of {v:?} announces exactly {z}, expected {s}"));
                }
                ch.state(&format!("{v:?}"));
                ch.steps(3);
                ch.valid();
                Ok(())
            }));
        }
    }
    us
}

// ---------------------------------------------------------------- C27

fn base(n: usize) -> Vec<u8> {
    (0..n).map(|i| 100 + i as u8).collect()
}
/// One use of every kind of a range of a large value.
fn wide_range(ch: &mut Ch, n: usize, s: usize, e: usize) -> Case {
    let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8 ^ (i >> 8) as u8).collect();
    let l = e - s;
    let bad = |m: &str| -> Case { Err(format!("{m} (range {s}..{e} of {n} bytes)")) };
    let input: Vec<u8> = (0..l + 2).map(|i| (i % 241) as u8 + 3).collect();
    let mut want = data.clone();
    want[s..e].copy_from_slice(&input[..l]);
    let mut o = OwnedSlice::new(data.clone(), s, e);
    if (o.start(), o.end()) != (s, e) || AsRef::<[u8]>::as_ref(&o) != &data[s..e] {
        return bad("as_ref");
    }
    AsMut::<[u8]>::as_mut(&mut o).copy_from_slice(&input[..l]);
    if AsRef::<[u8]>::as_ref(&o) != &input[..l] || *o.inner_ref() != want || o.into_inner() != want {
        return bad("as_mut");
    }
    ch.steps(5);
    let mut enc = BytesEncoder::new();
    if enc.start_encoding(OwnedSlice::new(data.clone(), s, e)).is_err() || enc.exact_requiring_bytes() != l as u64 {
        return bad("encoder refuses or misjudges the item");
    }
    let mut out = vec![0xEE; l + 1];
    let k = l / 3;
    let mut m = enc.encode(&mut out[..k], Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
    m += enc.encode(&mut out[k..], Eos::new(true)).map_err(|e| format!("encode: {:?}", e.kind()))?;
    if m != l || out[..l] != data[s..e] || !enc.is_idle() {
        return bad("encoded bytes");
    }
    ch.steps(3);
    let mut dec = BytesDecoder::new(OwnedSlice::new(data.clone(), s, e));
    let mut m = dec.decode(&input[..k], Eos::new(false)).map_err(|e| format!("decode: {:?}", e.kind()))?;
    m += dec.decode(&input[k..], Eos::new(false)).map_err(|e| format!("decode: {:?}", e.kind()))?;
    match dec.finish_decoding() {
        Ok(g) if m == l && *g.inner_ref() == want => {}
        _ => return bad("decoded bytes"),
    }
    ch.steps(3);
    let mut rb = ReadBuf::new(OwnedSlice::new(data.clone(), s, e));
    rb.fill(&input[..]).map_err(|e| format!("fill: {:?}", e.kind()))?;
    if rb.len() != l || *rb.inner_ref().inner_ref() != want {
        return bad("filled bytes");
    }
    let mut wb = WriteBuf::new(OwnedSlice::new(data.clone(), s, e));
    let m = std::io::Write::write(&mut wb, &input).map_err(|e| format!("write: {e}"))?;
    let mut out = vec![];
    wb.flush(&mut out).map_err(|e| format!("flush: {:?}", e.kind()))?;
    if m != l || out != input[..l] || wb.into_inner().into_inner() != want {
        return bad("written bytes");
    }
    ch.steps(4);
    ch.valid();
    Ok(())
}
pub fn c27(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    let max = if th { 9 } else { 7 };
    b.push(format!("every value of up to {max} bytes x every range of it x every read, write, encode, decode and I/O use of that range with every chunk or buffer size"));
    let mut us = vec![];
    for n in 0..=max {
        us.push(unit(format!("range {n}"), move |ch| {
            let s = ch.pick(n + 1);
            let e = s + ch.pick(n - s + 1);
            let data = base(n);
            ch.log(|| format!("{n} bytes, range {s}..{e}"));
            let mut o = OwnedSlice::new(data.clone(), s, e);
            let k = ch.pick(4);
            ch.state(&(n, s, e, k));
            let bad = |m: String| -> Case { Err(format!("{m} (range {s}..{e} of {n} bytes)")) };
            if (o.start(), o.end()) != (s, e) || *o.inner_ref() != data {
                return bad(format!("start/end/inner_ref give {}, {}, {:?}", o.start(), o.end(), o.inner_ref()));
            }
            let r: &[u8] = o.as_ref();
            if r != &data[s..e] {
                return bad(format!("as_ref gives {r:?}"));
            }
            ch.steps(4);
            ch.valid();
            match k {
                0 => {
                    // every position written once
                    let mut want = data.clone();
                    for i in 0..e - s {
                        let m: &mut [u8] = o.as_mut();
                        if m.len() != e - s || m[i] != data[s + i] {
                            return bad(format!("as_mut gives {m:?}"));
                        }
                        m[i] = i as u8;
                        want[s + i] = i as u8;
                        ch.step();
                    }
                    let r: &[u8] = o.as_ref();
                    if r != &want[s..e] {
                        return bad(format!("as_ref after writing gives {r:?}"));
                    }
                    let c = o.clone();
                    if c != o || c.clone().into_inner() != want {
                        return bad("clone differs".into());
                    }
                    if o.into_inner() != want {
                        return bad("writes not in the returned value".into());
                    }
                }
                1 => {
                    // the owned value behind it may be changed, even its length
                    o.inner_mut().extend([1, 2, 3]);
                    for i in 0..n {
                        o.inner_mut()[i] ^= 0x55;
                    }
                    let r: &[u8] = o.as_ref();
                    let want: Vec<u8> = data[s..e].iter().map(|x| x ^ 0x55).collect();
                    if r != &want[..] {
                        return bad(format!("as_ref after changing the owned value: {r:?}"));
                    }
                    if (o.start(), o.end()) != (s, e) {
                        return bad("range moved".into());
                    }
                }
                2 => {
                    // nested: a range of a range, up to a box
                    let l = e - s;
                    let s2 = ch.pick(l + 1);
                    let e2 = s2 + ch.pick(l - s2 + 1);
                    let mut oo = OwnedSlice::new(OwnedSlice::new(data.clone().into_boxed_slice(), s, e), s2, e2);
                    let r: &[u8] = oo.as_ref();
                    if r != &data[s + s2..s + e2] {
                        return bad(format!("nested {s2}..{e2}: {r:?}"));
                    }
                    let m: &mut [u8] = oo.as_mut();
                    m.iter_mut().for_each(|x| *x = 7);
                    let mut want = data.clone();
                    want[s + s2..s + e2].fill(7);
                    if *oo.into_inner().into_inner() != want[..] {
                        return bad(format!("nested {s2}..{e2}: writes"));
                    }
                }
                _ => {
                    // other element types and owners
                    let w: Vec<u32> = data.iter().map(|x| u32::from(*x) * 1000).collect();
                    let mut o = OwnedSlice::new(w.clone(), s, e);
                    let r: &[u32] = o.as_ref();
                    if r != &w[s..e] {
                        return bad(format!("u32: {r:?}"));
                    }
                    let m: &mut [u32] = o.as_mut();
                    m.reverse();
                    let mut want = w.clone();
                    want[s..e].reverse();
                    if o.into_inner() != want {
                        return bad("u32: writes".into());
                    }
                    let st = String::from_utf8(data.iter().map(|x| x % 26 + b'a').collect()).unwrap();
                    let o = OwnedSlice::new(st.clone(), s, e);
                    let r: &[u8] = o.as_ref();
                    if r != &st.as_bytes()[s..e] {
                        return bad("string".into());
                    }
                }
            }
            Ok(())
        }));
        us.push(unit(format!("codec {n}"), move |ch| {
            let s = ch.pick(n + 1);
            let e = s + ch.pick(n - s + 1);
            let data = base(n);
            let l = e - s;
            let k = 1 + ch.pick(l + 1);
            ch.log(|| format!("{n} bytes, range {s}..{e}, pieces of {k}"));
            ch.state(&(n, s, e, k));
            // encoder
            let mut enc = BytesEncoder::new();
            enc.start_encoding(OwnedSlice::new(data.clone(), s, e)).map_err(|e| format!("start: {:?}", e.kind()))?;
            if enc.exact_requiring_bytes() != l as u64 {
                return Err(format!("encoder of {s}..{e} announces {}", enc.exact_requiring_bytes()));
            }
            let mut out: Vec<u8> = vec![];
            loop {
                let mut b = vec![0xEE; k];
                let m = enc.encode(&mut b, Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
                ch.step();
                out.extend(&b[..m]);
                if enc.is_idle() {
                    break;
                }
                if m == 0 {
                    return Err("encoder stuck".into());
                }
            }
            if out != data[s..e] {
                return Err(format!("encoded {out:?} for the range {s}..{e} of {data:?}"));
            }
            // decoder
            let mut dec = BytesDecoder::new(OwnedSlice::new(data.clone(), s, e));
            if dec.requiring_bytes() != ByteCount::Finite(l as u64) {
                return Err(format!("decoder into {s}..{e} requires {:?}", dec.requiring_bytes()));
            }
            let input: Vec<u8> = (0..l + 2).map(|x| x as u8 + 1).collect();
            let mut pos = 0;
            while !dec.is_idle() {
                let m = dec.decode(&input[pos..(pos + k).min(input.len())], Eos::new(false)).map_err(|e| format!("decode: {:?}", e.kind()))?;
                ch.step();
                pos += m;
                if m == 0 {
                    return Err("decoder stuck".into());
                }
            }
            let mut want = data.clone();
            want[s..e].copy_from_slice(&input[..l]);
            let got = dec.finish_decoding().map_err(|e| format!("finish: {:?}", e.kind()))?;
            if pos != l || got.inner_ref() != &want || (got.start(), got.end()) != (s, e) {
                return Err(format!("decoded into {s}..{e}: {:?} after {pos} bytes, expected {want:?}", got.inner_ref()));
            }
            // a new buffer for the next item
            dec.set_bytes(OwnedSlice::new(data.clone(), 0, n.min(2)));
            if dec.requiring_bytes() != ByteCount::Finite(n.min(2) as u64) {
                return Err("set_bytes: requirement".into());
            }
            let got = dec.decode_exact(&input[..]).map(|g| g.into_inner());
            let m = n.min(2).min(input.len());
            if n.min(2) <= input.len() {
                let mut want = data.clone();
                want[..m].copy_from_slice(&input[..m]);
                if got.as_ref().ok() != Some(&want) {
                    return Err(format!("second item: {}", res(&got)));
                }
            }
            ch.valid();
            Ok(())
        }));
        us.push(unit(format!("io {n}"), move |ch| {
            let s = ch.pick(n + 1);
            let e = s + ch.pick(n - s + 1);
            let data = base(n);
            let l = e - s;
            ch.log(|| format!("{n} bytes, range {s}..{e}"));
            ch.state(&(n, s, e, "io"));
            let mut rb = ReadBuf::new(OwnedSlice::new(data.clone(), s, e));
            if rb.capacity() != l || rb.room() != l || rb.len() != 0 || !rb.is_empty() || rb.is_full() != (l == 0) {
                return Err(format!("read buffer over {s}..{e}: capacity {} room {} len {}", rb.capacity(), rb.room(), rb.len()));
            }
            let input: Vec<u8> = (0..l + 2).map(|x| x as u8 + 1).collect();
            rb.fill(&input[..]).map_err(|e| format!("fill: {:?}", e.kind()))?;
            if rb.len() != l || rb.inner_ref().as_ref() != &input[..l] {
                return Err(format!("filled: {} bytes", rb.len()));
            }
            let mut want = data.clone();
            want[s..e].copy_from_slice(&input[..l]);
            if rb.inner_ref().inner_ref() != &want {
                return Err(format!("filling touched the owned value outside of {s}..{e}: {:?}", rb.inner_ref().inner_ref()));
            }
            let mut out = vec![0; l + 1];
            let mut pos = 0;
            let k = 1 + ch.pick(l + 1);
            while pos < l {
                let end = (pos + k).min(l + 1);
                let m = std::io::Read::read(&mut rb, &mut out[pos..end]).map_err(|e| format!("read: {e}"))?;
                ch.step();
                if m == 0 {
                    return Err("read buffer dried up".into());
                }
                pos += m;
            }
            if out[..l] != input[..l] {
                return Err(format!("read {out:?}"));
            }
            let mut wb = WriteBuf::new(OwnedSlice::new(data.clone(), s, e));
            if wb.capacity() != l || wb.room() != l || wb.is_full() != (l == 0) {
                return Err(format!("write buffer over {s}..{e}: capacity {} room {}", wb.capacity(), wb.room()));
            }
            let m = std::io::Write::write(&mut wb, &input).map_err(|e| format!("write: {e}"))?;
            if m != l || wb.len() != l || wb.inner_ref().inner_ref() != &want {
                return Err(format!("writing to {s}..{e}: {m} bytes taken, {:?}", wb.inner_ref().inner_ref()));
            }
            let mut out = vec![];
            wb.flush(&mut out).map_err(|e| format!("flush: {:?}", e.kind()))?;
            if out != input[..l] || wb.into_inner().into_inner() != want {
                return Err(format!("flushed {out:?}"));
            }
            // encode_all straight from a range
            let mut o2 = vec![];
            let mut en = BytesEncoder::with_item(OwnedSlice::new(data.clone(), s, e)).map_err(|e| format!("{:?}", e.kind()))?;
            en.encode_all(&mut o2).map_err(|e| format!("encode_all: {:?}", e.kind()))?;
            if o2 != data[s..e] {
                return Err(format!("encode_all gave {o2:?}"));
            }
            ch.valid();
            Ok(())
        }));
    }
    b.push("values of every size 2^k-1, 2^k, 2^k+1 up to 65537, and of 70000 bytes x ranges that start and end at, just before or just behind every such size: read, write, encode, decode, fill and flush".into());
    b.push("ranges at every power of two up to 2^63 of values of zero-size elements".into());
    let mut sizes: Vec<usize> = (4..=16).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    sizes.push(70_000);
    for n in sizes.clone() {
        let mut ends: Vec<usize> = (3..=16).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|x| *x < n).collect();
        ends.extend([0, 1, n / 2, n - 1, n]);
        ends.sort();
        ends.dedup();
        if !th && n > 1000 {
            ends.retain(|x| *x < 2 || *x >= 254);
        }
        us.push(unit(format!("wide {n}"), move |ch| {
            let i = ch.pick(ends.len());
            let j = i + ch.pick(ends.len() - i);
            let (s, e) = (ends[i], ends[j]);
            ch.log(|| format!("{n} bytes, range {s}..{e}"));
            ch.state(&(n, s, e));
            wide_range(ch, n, s, e)
        }));
    }
    us.push(unit("zero-size elements", move |ch| {
        const N: usize = usize::MAX;
        let marks: Vec<usize> = (0..64).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([N - 1, N]).collect();
        let (a, z) = (*ch.of(&marks), *ch.of(&marks));
        if a > z {
            return ch.skip();
        }
        let mut o = OwnedSlice::new([(); N], a, z);
        let r: &[()] = o.as_ref();
        let l = r.len();
        let m: &mut [()] = o.as_mut();
        if l != z - a || m.len() != z - a || (o.start(), o.end()) != (a, z) {
            return Err(format!("range {a}..{z}: {l} elements, start {} end {}", o.start(), o.end()));
        }
        ch.steps(3);
        ch.valid();
        Ok(())
    }));
    us
}
