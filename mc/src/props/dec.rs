//! Properties of decoders: C01, C04, C07, C09, C13 and the decoder half of C14.
use super::scale;
use super::value;
use crate::core::*;
use crate::drive::*;
use crate::dterm::{self, D, R};
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::io::IoDecodeExt;
use bytecodec::padding::PaddingDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Eos, ErrorKind};
use std::cell::RefCell;
use std::io::Read;

/// The result the reference semantics prescribe for a whole stream.
pub fn final_out(t: &D, inp: &[u8], mode: Mode) -> Out {
    let conv = |r: R| match r {
        R::Done { used, val } => Out::Item { used, val },
        R::More => Out::Pending { used: inp.len() },
        R::Err(k) => Out::Fail { used: 0, kind: k },
    };
    match dterm::spec(t, inp, None) {
        R::More if mode != Mode::Open => conv(dterm::spec(t, inp, Some(inp.len() as u64))),
        R::Err(k) if mode != Mode::Open => match dterm::spec(t, inp, Some(inp.len() as u64)) {
            R::Err(k2) => conv(R::Err(k.or(k2))),
            _ => conv(R::Err(k)),
        },
        r => conv(r),
    }
}
/// Is the outcome the same, as far as chunking may not change it?
pub fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Item { used: u, val: Ok(v) }, Out::Item { used: u2, val: Ok(v2) }) => u == u2 && v == v2,
        (Out::Item { val: Err(_), .. }, Out::Item { val: Err(_), .. } | Out::Fail { .. }) => true,
        (Out::Fail { .. }, Out::Item { val: Err(_), .. } | Out::Fail { .. }) => true,
        (Out::Pending { used }, Out::Pending { used: u2 }) => used == u2,
        _ => false,
    }
}
pub fn lbl(p: &str, t: &D) -> String {
    let mut s = format!("{p} {t:?}");
    for (a, b) in [("ErrorKindW", ""), ("signed: false, ", ""), ("float: false, ", "")] {
        s = s.replace(a, b);
    }
    s
}

pub fn c01(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term of the decoder language up to the tier's depth x every stream over its alphabet x 4 ways of announcing the end x every composition into chunks with up to 1 (quick) / 2 (thorough) empty chunks, against one call on the real code and against the reference semantics".into());
    b.push("size ladder: streams up to 70000 (quick) / 1 MiB (thorough) bytes, up to 2 chunk sizes chosen around thresholds, and uniform chunk sizes".into());
    let mut us = vec![];
    b.push("13 decoders that pass bytes on, items of 2^17..2^21 (2^24) bytes, give or take one, in one or two pieces or through buffers".into());
    for n in value::huge(th) {
        for kind in 0..value::DECODERS.len() {
            us.push(unit(format!("huge {n} {}", value::DECODERS[kind]), move |ch| value::decoding(ch, kind, n)));
        }
    }
    for t in dterm::terms(th) {
        us.push(unit(lbl("chunks", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, th);
            let mode = MODES[ch.pick(4)];
            let inp = pick_input(ch, &alpha, max);
            let e = if inp.len() > 4 && !th { 0 } else if th && inp.len() <= 4 { 2 } else { 1 };
            differential(ch, &t, &inp, mode, Chunks::All { empties: e })
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, inp)) in scale::dterms(n).into_iter().enumerate() {
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let mode = MODES[ch.pick(4)];
                if ch.pick_bool() {
                    let k = *ch.of(&[1usize, 7, 64, 255, 256, 1000, 1024, 4096]);
                    if n / k > 3000 {
                        return ch.skip();
                    }
                    return uniform(ch, &t, &inp, mode, k);
                }
                let c = scale::cuts(n);
                let k = if n > 5000 { 1 } else { 2 };
                differential(ch, &t, &inp, mode, Chunks::From { sizes: &c, n: k })
            }));
        }
    }
    us
}
fn short(t: &D) -> String {
    let s = lbl("", t);
    s.chars().take(60).collect()
}
fn differential(ch: &mut Ch, t: &D, inp: &[u8], mode: Mode, c: Chunks) -> Case {
    let mut d = dterm::build(t);
    ch.log(|| format!("{t:?} on {} mode {mode:?}", hex(inp)));
    let a = feed(ch, t, &mut *d, inp, mode, &mut Cutter::new(c), Look::default())?;
    let b = one_shot(ch, t, inp, mode)?;
    compare(ch, t, inp, mode, a, b)
}
fn uniform(ch: &mut Ch, t: &D, inp: &[u8], mode: Mode, k: usize) -> Case {
    let mut d = dterm::build(t);
    let a = feed(ch, t, &mut *d, inp, mode, &mut Cutter::new(Chunks::Every(k)), Look::default())?;
    let b = one_shot(ch, t, inp, mode)?;
    compare(ch, t, inp, mode, a, b)
}
fn compare(ch: &mut Ch, t: &D, inp: &[u8], mode: Mode, a: Out, b: Out) -> Case {
    if !same(&a, &b) {
        return Err(format!("chunked: {a:?}, in one call: {b:?} ({t:?}, input {}, {mode:?})", hex(inp)));
    }
    let f = final_out(t, inp, mode);
    if !same(&a, &f) {
        return Err(format!("result {a:?}, prescribed {f:?} ({t:?}, input {}, {mode:?})", hex(inp)));
    }
    ch.outcome(&format!("{a:?}"));
    ch.valid();
    Ok(())
}

pub fn c04(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term of the decoder language up to the tier's depth x every stream over its alphabet x 4 ways of announcing the end x every composition into chunks; readiness, consumption, errors and item compared with the reference semantics after every call; decode_from_bytes on every stream".into());
    let mut us = vec![];
    for t in dterm::terms(th) {
        us.push(unit(lbl("grammar", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, th);
            let mode = MODES[ch.pick(4)];
            let inp = pick_input(ch, &alpha, max);
            ch.log(|| format!("{t:?} on {} mode {mode:?}", hex(&inp)));
            let mut d = dterm::build(&t);
            let look = Look { spec: !dterm::overlong(&t), ..Look::default() };
            let a = feed(ch, &t, &mut *d, &inp, mode, &mut Cutter::new(Chunks::All { empties: usize::from(th) }), look)?;
            ch.outcome(&format!("{a:?}"));
            let f = final_out(&t, &inp, mode);
            if !same(&a, &f) {
                return Err(format!("result {a:?}, prescribed {f:?} ({t:?}, input {}, {mode:?})", hex(&inp)));
            }
            ch.valid();
            Ok(())
        }));
    }
    for t in dterm::terms(false) {
        us.push(unit(lbl("from_bytes", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, th);
            let inp = pick_input(ch, &alpha, max);
            from_bytes(ch, &t, &inp)
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, inp)) in scale::dterms(n).into_iter().enumerate() {
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let mode = MODES[ch.pick(4)];
                let a = one_shot(ch, &t, &inp, mode)?;
                let f = final_out(&t, &inp, mode);
                if !same(&a, &f) {
                    return Err(format!("result {}, prescribed {} ({t:?}, {n} bytes, {mode:?})", cut(&format!("{a:?}")), cut(&format!("{f:?}"))));
                }
                ch.valid();
                from_bytes(ch, &t, &inp)
            }));
        }
    }
    b.push("the same 13 decoders with items of 2^17..2^21 (2^24) bytes, give or take one".into());
    for n in value::huge(th) {
        for kind in 0..value::DECODERS.len() {
            us.push(unit(format!("huge {n} {}", value::DECODERS[kind]), move |ch| value::decoding(ch, kind, n)));
        }
    }
    b.push("13 decoders that pass bytes on x lengths 1..=17 and around the powers of two up to 1024 (8192) x every byte value first, last, at both ends, in the middle or everywhere, among three others: 6 ways of feeding".into());
    for n in value::lens(th) {
        for kind in 0..value::DECODERS.len() {
            us.push(unit(format!("contents {n} {}", value::DECODERS[kind]), move |ch| value::decoding(ch, kind, n)));
        }
    }
    us
}
pub fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
fn from_bytes(ch: &mut Ch, t: &D, inp: &[u8]) -> Case {
    let r = dterm::build(t).decode_from_bytes(inp);
    ch.step();
    let want = dterm::spec(t, inp, Some(inp.len() as u64));
    let ok = match (&r, &want) {
        (Ok(v), R::Done { used, val: Ok(w) }) => *used == inp.len() && v == w,
        (Err(e), R::Done { used, val: Ok(_) }) => *used != inp.len() && *e.kind() == ErrorKind::InvalidInput,
        (Err(e), R::Done { used, val: Err(ks) }) => ks.has(*e.kind()) || *used != inp.len(),
        (Err(e), R::Err(ks)) => ks.has(*e.kind()),
        (Err(_), R::More) => true,
        _ => false,
    };
    if !ok {
        return Err(format!("decode_from_bytes: {}, prescribed {} ({t:?}, input {})", cut(&res(&r)), cut(&format!("{want:?}")), hex(inp)));
    }
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- C07

/// A reader that returns chosen short reads.
pub struct ShortReader<'a, 'b> {
    pub ch: &'a RefCell<&'b mut Ch>,
    pub data: &'a [u8],
    pub pos: usize,
    pub zero_asked: bool,
    pub free: usize,
    pub eofs: usize,
}
impl Read for ShortReader<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let m = buf.len().min(self.data.len() - self.pos);
        self.ch.borrow_mut().step();
        if buf.is_empty() {
            self.zero_asked = true;
        }
        if m == 0 {
            self.eofs += 1;
            return Ok(0);
        }
        let n = if self.free == 0 {
            m
        } else {
            self.free -= 1;
            let alts = m.min(6);
            m - self.ch.borrow_mut().pick(alts)
        };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// The result decode_exact must give for a stream, and what it takes from the reader.
pub fn exact_out(t: &D, inp: &[u8]) -> (Result<V, Ks>, Option<usize>) {
    for p in 0..=inp.len() {
        match dterm::spec(t, &inp[..p], None) {
            R::More => {}
            R::Done { used, val } => return (val, Some(used)),
            R::Err(k) if p == inp.len() => return (Err(k.or(EOS)), None),
            // one read may deliver more than the bytes that fail already
            R::Err(mut k) => {
                for q in p + 1..=inp.len() {
                    if let R::Err(k2) = dterm::spec(t, &inp[..q], None) {
                        k = k.or(k2);
                    }
                }
                return (Err(k), None);
            }
        }
    }
    match dterm::spec(t, inp, Some(inp.len() as u64)) {
        R::More => (Err(EOS), None),
        R::Done { used, val } => (val, Some(used)),
        R::Err(k) => (Err(k), None),
    }
}
pub fn exact(ch: &mut Ch, t: &D, inp: &[u8], free: usize, want: &(Result<V, Ks>, Option<usize>)) -> Case {
    let mut d = dterm::build(t);
    let c = RefCell::new(ch);
    let mut rd = ShortReader { ch: &c, data: inp, pos: 0, zero_asked: false, free, eofs: 0 };
    let r = d.decode_exact(&mut rd);
    let pos = rd.pos;
    let ch = c.into_inner();
    ch.log(|| format!("decode_exact -> {}, reader at {pos}", cut(&res(&r))));
    let grammar_bad = matches!(want.0, Err(ANY)) || dterm::overlong(t);
    match (&r, &want.0) {
        (Ok(v), Ok(w)) if v == w => {}
        (Err(e), Err(ks)) if ks.has(*e.kind()) || grammar_bad => {}
        _ => return Err(format!("decode_exact gave {}, prescribed {} ({t:?}, input {})", cut(&res(&r)), cut(&format!("{:?}", want.0)), hex(inp))),
    }
    if let (Some(u), Ok(_)) = (want.1, &r) {
        if pos != u {
            return Err(format!("decode_exact took {pos} bytes from the reader, the item has {u} ({t:?}, input {})", hex(inp)));
        }
    }
    ch.outcome(&(pos, r.is_ok()));
    ch.valid();
    Ok(())
}

pub fn c07(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term x every stream x every composition into chunks: the announced requirement before and after every call; decode_exact for every term and stream with every pattern of short reads; sizes around 1024 and on the ladder".into());
    let mut us = vec![];
    b.push("byte-string decoders of around 2 and 4 GiB, alone, framed, limited, sliced and in a tuple: requirements before and after a few calls, and the end of the stream".into());
    for k in 0..5 {
        us.push(unit(format!("giant {k}"), move |ch| super::big::wanted(ch, k)));
    }
    for t in dterm::terms(th) {
        us.push(unit(lbl("requirement", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, th);
            let mode = MODES[ch.pick(4)];
            let inp = pick_input(ch, &alpha, max);
            ch.log(|| format!("{t:?} on {} mode {mode:?}", hex(&inp)));
            let mut d = dterm::build(&t);
            let look = Look { req: true, ..Look::default() };
            let c = Chunks::All { empties: usize::from(inp.len() < 4) };
            let a = feed(ch, &t, &mut *d, &inp, mode, &mut Cutter::new(c), look)?;
            ch.outcome(&format!("{a:?}"));
            ch.valid();
            Ok(())
        }));
    }
    for t in dterm::terms(th) {
        us.push(unit(lbl("decode_exact", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, th);
            let inp = pick_input(ch, &alpha, max);
            ch.log(|| format!("{t:?} on {}", hex(&inp)));
            let w = exact_out(&t, &inp);
            exact(ch, &t, &inp, usize::MAX, &w)
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, inp)) in scale::dterms(n).into_iter().enumerate() {
            us.push(unit(format!("exact ladder {n}/{i} {}", short(&t)), move |ch| {
                let w = match final_out(&t, &inp, Mode::WithLast) {
                    Out::Item { used, val } => (val, Some(used)),
                    Out::Pending { .. } => (Err(EOS), None),
                    Out::Fail { kind, .. } => (Err(kind), None),
                };
                exact(ch, &t, &inp, 2, &w)
            }));
            let (t, inp) = scale::dterms(n).swap_remove(i);
            us.push(unit(format!("req ladder {n}/{i} {}", short(&t)), move |ch| {
                let mode = MODES[ch.pick(4)];
                let c = scale::cuts(n);
                let mut d = dterm::build(&t);
                let look = Look { req: true, ..Look::default() };
                feed(ch, &t, &mut *d, &inp, mode, &mut Cutter::new(Chunks::From { sizes: &c, n: 1 }), look)?;
                ch.valid();
                Ok(())
            }));
        }
    }
    us
}

// ---------------------------------------------------------------- C09

pub fn c09(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term x every stream (hence every cut of every item) x 3 ways of announcing the end x every composition into chunks with up to 2 empty ones; decode_exact on every truncated stream".into());
    let mut us = vec![];
    for t in dterm::terms(th) {
        us.push(unit(lbl("truncation", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, th);
            let mode = [Mode::WithLast, Mode::Late, Mode::Known][ch.pick(3)];
            let inp = pick_input(ch, &alpha, max);
            ch.log(|| format!("{t:?} on {} mode {mode:?}", hex(&inp)));
            truncation(ch, &t, &inp, mode, Chunks::All { empties: if inp.len() < 4 { 2 } else { usize::from(th) } })
        }));
    }
    for t in dterm::terms(th) {
        us.push(unit(lbl("exact truncation", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, th);
            let inp = pick_input(ch, &alpha, max);
            let w = exact_out(&t, &inp);
            if w.0 != Err(EOS) {
                return ch.skip();
            }
            exact(ch, &t, &inp, 3, &w)
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, inp)) in scale::dterms(n).into_iter().enumerate() {
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let mode = [Mode::WithLast, Mode::Late, Mode::Known][ch.pick(3)];
                // cut the stream itself
                let c = scale::cuts(inp.len() + 1);
                let k = ch.pick(c.len() + 1);
                let inp = if k == 0 { &inp[..] } else { &inp[..c[k - 1]] };
                let cuts = scale::cuts(inp.len());
                truncation(ch, &t, inp, mode, Chunks::From { sizes: &cuts, n: usize::from(n < 5000) })
            }));
        }
    }
    us
}
fn truncation(ch: &mut Ch, t: &D, inp: &[u8], mode: Mode, c: Chunks) -> Case {
    let mut d = dterm::build(t);
    let a = feed(ch, t, &mut *d, inp, mode, &mut Cutter::new(c), Look::default())?;
    let f = final_out(t, inp, mode);
    ch.outcome(&format!("{a:?}"));
    ch.valid();
    match (&f, &a) {
        (Out::Fail { kind, .. }, Out::Fail { kind: k2, .. }) => {
            if k2.0 & !kind.0 != 0 {
                return Err(format!("truncated stream reported as {k2:?}, expected {kind:?} ({t:?}, input {}, {mode:?})", hex(inp)));
            }
            Ok(())
        }
        (Out::Fail { .. }, Out::Item { val: Err(_), .. }) if dterm::overlong(t) => Ok(()),
        (Out::Fail { kind, .. }, _) => Err(format!("stream that must fail with {kind:?} gave {a:?} ({t:?}, input {}, {mode:?})", hex(inp))),
        // ignored end of stream: nothing consumed, and the decoder still works
        (Out::Pending { .. }, Out::Pending { .. }) => {
            let greedy = dterm::any(t, &|x| matches!(x, D::Rest | D::Utf8 | D::Pad(_) | D::Json | D::Collect(_)));
            let several = dterm::any(t, &|x| matches!(x, D::Tup(_) | D::AndThen(..) | D::CollectN(..)));
            if mode == Mode::Known || greedy && (several || !inp.is_empty()) {
                return Ok(());
            }
            for bytes in [&[][..], &[1u8, 1, 1, 1, 1, 1, 1, 1][..]] {
                let w = final_out(t, &[inp, bytes].concat(), Mode::WithLast);
                if bytes.is_empty() {
                    // a second announcement is ignored just the same
                    let r = d.decode(&[], Eos::new(true));
                    ch.step();
                    if !matches!(r, Ok(0)) || d.is_idle() {
                        return Err(format!("second ignored end of stream: {} ({t:?})", res(&r)));
                    }
                } else {
                    let r = feed(ch, t, &mut *d, bytes, Mode::WithLast, &mut Cutter::new(Chunks::One), Look::default())?;
                    let w = match w {
                        Out::Item { used, val } => Out::Item { used: used - inp.len(), val },
                        w => w,
                    };
                    if !same(&r, &w) {
                        return Err(format!("after an ignored end of stream: {r:?}, expected {w:?} ({t:?})"));
                    }
                }
            }
            Ok(())
        }
        (x, y) if same(x, y) => Ok(()),
        _ => Err(format!("result {a:?}, prescribed {f:?} ({t:?}, input {}, {mode:?})", hex(inp))),
    }
}

// ---------------------------------------------------------------- C13

pub fn c13(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term x every stream x 4 ways of announcing the end x every composition into chunks, asking for the item before every call and offering 16 kinds of further input once it is ready; once more after it has been taken".into());
    let mut us = vec![];
    for t in dterm::terms(th) {
        if dterm::overlong(&t) {
            continue;
        }
        us.push(unit(lbl("probe", &t), move |ch| {
            let (alpha, max) = dterm::inputs(&t, false);
            let mode = MODES[ch.pick(4)];
            let inp = pick_input(ch, &alpha, max);
            ch.log(|| format!("{t:?} on {} mode {mode:?}", hex(&inp)));
            let mut d = dterm::build(&t);
            probed(ch, &t, &mut *d, &inp, mode, Chunks::All { empties: usize::from(inp.len() < 4) })
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, inp)) in scale::dterms(n).into_iter().enumerate() {
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let mode = MODES[ch.pick(4)];
                let mut d = dterm::build(&t);
                let cuts = scale::cuts(inp.len());
                probed(ch, &t, &mut *d, &inp, mode, Chunks::From { sizes: &cuts, n: 1 })
            }));
        }
    }
    us
}
fn probed(ch: &mut Ch, t: &D, d: &mut dyn Decode<Item = V>, inp: &[u8], mode: Mode, c: Chunks) -> Case {
    let fresh_idle = d.is_idle();
    let look = Look { probe: true, ..Look::default() };
    let a = feed(ch, t, d, inp, mode, &mut Cutter::new(c), look)?;
    let f = final_out(t, inp, mode);
    if !same(&a, &f) {
        return Err(format!("result {}, prescribed {} ({t:?}, input {}, {mode:?})", cut(&format!("{a:?}")), cut(&format!("{f:?}")), hex(inp)));
    }
    ch.outcome(&format!("{a:?}"));
    ch.valid();
    if let Out::Item { val: Ok(v), .. } = &a {
        let counted = dterm::any_persistent(t, &|x| matches!(x, D::CollectN(n, _) if *n > 0));
        if !fresh_idle && !counted && *v != V::Unit {
            let r = take(d);
            ch.step();
            if let Ok(v2) = r {
                return Err(format!("item taken twice: {v:?} and {v2:?} ({t:?})"));
            }
        }
        if !fresh_idle && !counted && *v == V::Unit && !matches!(t, D::Null) {
            let r = take(d);
            if r.is_ok() {
                return Err(format!("item taken twice ({t:?})"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14 (decoders)

pub fn c14(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("decoders: every reusable term x sequences of 3 items (2 for deep terms), each stream segment with its own end announcement and composition; settings changed between items for every setter; 300 items in a row".into());
    let mut us = settings();
    for t in dterm::terms(th) {
        if !dterm::reusable(&t) || dterm::overlong(&t) {
            continue;
        }
        us.push(unit(lbl("reuse", &t), move |ch| reuse(ch, &t, th)));
    }
    for n in [1usize, 2, 7, 64, 127, 128, 129, 255, 256, 257, 300, 600, 1024, 1025, 4097] {
        for (i, t) in many_terms().into_iter().enumerate() {
            us.push(unit(format!("many {n} {i} {}", short(&t)), move |ch| many(ch, &t, n)));
        }
    }
    us
}
/// Several items through one decoder.
fn reuse(ch: &mut Ch, t: &D, th: bool) -> Case {
    let (alpha, _) = dterm::inputs(t, th);
    let mut d = dterm::build(t);
    let segs = 3;
    let greedy = dterm::until_eos(t);
    let mut stream_left: Vec<u8> = vec![];
    let mut mode = Mode::Open;
    let mut rot = 0;
    if !greedy {
        // one stream holding all items
        let max = if alpha.is_empty() { 7 } else if th { 5 } else { 4 };
        stream_left = pick_input(ch, &alpha, max);
        mode = MODES[ch.pick(4)];
    }
    for i in 0..segs {
        let inp;
        if greedy {
            let max = if i == 0 { 3 } else if i == 1 || th { 2 } else { 1 };
            inp = pick_input(ch, &alpha, max);
            if i == 0 || th {
                rot = ch.pick(3);
            }
            mode = [Mode::WithLast, Mode::Late, Mode::Known][(rot + i) % 3];
        } else {
            inp = stream_left.clone();
        }
        ch.log(|| format!("item {i}: {} mode {mode:?}", hex(&inp)));
        let c = if greedy { Chunks::All { empties: 0 } } else { Chunks::From { sizes: &[1, 2], n: if th { 3 } else if alpha.is_empty() { 2 - i / 2 } else { 1 - i / 2 } } };
        let c = if greedy && inp.len() > 2 { Chunks::From { sizes: &[1], n: 2 } } else { c };
        let a = feed(ch, t, &mut *d, &inp, mode, &mut Cutter::new(c), Look::default())?;
        let f = final_out(t, &inp, mode);
        if !same(&a, &f) {
            return Err(format!("item {i}: {a:?}, a new decoder gives {f:?} ({t:?}, input {}, {mode:?})", hex(&inp)));
        }
        ch.valid();
        match (a, f) {
            (Out::Item { val: Err(_), .. }, Out::Item { val: Err(ANY), .. }) => return Ok(()),
            (Out::Item { used, .. }, Out::Item { used: want, .. }) => {
                if used != want {
                    return Err(format!("item {i}: {used} bytes consumed instead of {want} ({t:?})"));
                }
                if !greedy {
                    stream_left.drain(..used);
                }
            }
            _ => return Ok(()),
        }
    }
    Ok(())
}
fn many_terms() -> Vec<D> {
    use crate::dterm::{bx, Next};
    use crate::fix;
    let u8t = || D::Fix(fix::U8);
    vec![
        u8t(),
        D::Fix(fix::U24LE),
        D::Arr(3),
        D::Tup(vec![u8t(), D::Fix(fix::U16BE)]),
        D::AndThen(bx(u8t()), Next::Sel(bx(u8t()), bx(D::Fix(fix::U16BE)))),
        D::AndThen(bx(u8t()), Next::Count(bx(u8t()))),
        D::Length(3, bx(D::Rest)),
        D::Length(3, bx(D::Utf8)),
        D::Length(4, bx(D::Collect(bx(D::Fix(fix::U16BE))))),
        D::Length(2, bx(D::Pad(None))),
        D::Max(9, bx(D::Length(3, bx(D::Rest)))),
        D::Peek(bx(u8t())),
        D::Maybe(bx(D::Fix(fix::U16BE))),
        D::Slice(bx(D::Fix(fix::U16BE))),
        D::Omit(false, bx(u8t())),
        D::Omit(true, bx(u8t())),
        D::TryMap(bx(u8t())),
        D::Line,
        D::Tup(vec![D::Line, u8t()]),
        D::MapErr(dterm::ErrorKindW(ErrorKind::Other), bx(D::TryMap(bx(u8t())))),
        D::Utf8With(bx(D::Length(2, bx(D::Rest)))),
    ]
}
fn many(ch: &mut Ch, t: &D, n: usize) -> Case {
    let mut d = dterm::build(t);
    let k = *ch.of(&[1usize, 2, 5]);
    // values below 0x80 keep text valid; small counts keep items small
    let data: Vec<u8> = (0..n * 12).map(|i| ((i * 5 + i / 7) % 4) as u8).collect();
    let mut pos = 0;
    for i in 0..n {
        let win = &data[pos..(pos + 12).min(data.len())];
        let max = matches!(t, D::Max(..));
        let win = if max { &win[..win.len().min(3)] } else { win };
        let a = feed(ch, t, &mut *d, win, Mode::Open, &mut Cutter::new(Chunks::Every(k)), Look::default())?;
        let f = final_out(t, win, Mode::Open);
        if !same(&a, &f) {
            return Err(format!("item {i} of {n}: {a:?}, a new decoder gives {f:?} ({t:?}, input {})", hex(win)));
        }
        match a {
            Out::Item { used, .. } => pos += used,
            _ => return Ok(()),
        }
    }
    ch.valid();
    Ok(())
}

fn dec<D: Decode>(ch: &mut Ch, d: &mut D, inp: &[u8], eos: bool, k: usize) -> Result<(usize, D::Item), String>
where
    D::Item: std::fmt::Debug,
{
    let mut off = 0;
    loop {
        let n = k.min(inp.len() - off);
        let last = off + n == inp.len();
        let r = d.decode(&inp[off..off + n], Eos::new(eos && last));
        ch.step();
        off += r.map_err(|e| format!("decode failed: {:?}", e.kind()))?;
        if d.is_idle() {
            let v = d.finish_decoding().map_err(|e| format!("finish failed: {:?}", e.kind()))?;
            return Ok((off, v));
        }
        if last && (off < inp.len() || n == 0 || eos) {
            return Err(format!("no item after {off} of {} bytes", inp.len()));
        }
        if off == inp.len() && !eos {
            return Err(format!("no item after {off} bytes"));
        }
    }
}
/// Settings changed between items apply to the next item (and cannot be changed within one).
fn settings() -> Vec<Unit> {
    let mut us = vec![];
    us.push(unit("settings length", |ch| {
        let ns = [0u64, 1, 2, 3, 300, 5000];
        let mut d = RemainingBytesDecoder::new().length(*ch.of(&ns));
        let k = *ch.of(&[1usize, 2, 10_000]);
        let data: Vec<u8> = (0..6000).map(|i| (i % 251) as u8).collect();
        for i in 0..3 {
            if i > 0 || ch.pick_bool() {
                let n = *ch.of(&ns);
                d.set_expected_bytes(n).map_err(|e| format!("set_expected_bytes({n}) between items: {:?}", e.kind()))?;
                if d.expected_bytes() != n || d.remaining_bytes() != n {
                    return Err(format!("expected_bytes {} remaining_bytes {} after setting {n}", d.expected_bytes(), d.remaining_bytes()));
                }
            }
            let n = d.expected_bytes() as usize;
            // a change within an item is refused and changes nothing
            let pre = ch.pick(3).min(n.saturating_sub(1));
            if pre > 0 {
                let m = d.decode(&data[..pre], Eos::new(false)).map_err(|e| format!("{e}"))?;
                if m != pre || d.remaining_bytes() != (n - pre) as u64 {
                    return Err(format!("remaining_bytes {} after {pre} of {n}", d.remaining_bytes()));
                }
                if d.set_expected_bytes(7).is_ok() {
                    return Err("length changed within an item".into());
                }
                if d.expected_bytes() != n as u64 || d.remaining_bytes() != (n - pre) as u64 {
                    return Err("refused change of the length changed it".into());
                }
            }
            let (u, v) = dec(ch, &mut d, &data[pre..], false, k)?;
            if u != n - pre || v[..] != data[..n] {
                return Err(format!("item {i}: {} bytes consumed, {} bytes in the item, length {n}", u + pre, v.len()));
            }
        }
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings wide", |ch| {
        let mut marks: Vec<u64> = (6..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).collect();
        marks.extend([0, 1, 2, 5, 300, 70_000, u64::MAX - 1, u64::MAX]);
        let n = *ch.of(&marks);
        let small = n <= 70_000;
        let data: Vec<u8> = if small { (0..n + 9).map(|i| (i % 251) as u8 ^ (i >> 8) as u8).collect() } else { (1..9).collect() };
        let first = ch.pick(3).min(n.min(8) as usize);
        let left = n - first as u64;
        let bad = |m: &str, v: u64| -> Case { Err(format!("{m}: {v} with the setting {n} after {first} bytes")) };
        ch.log(|| format!("setting {n}, {first} bytes first"));
        match ch.pick(4) {
            0 => {
                let mut d = U8Decoder::new().collectn::<Vec<u8>>(1);
                d.set_remaining_items(n as usize);
                if d.remaining_items() as u64 != n {
                    return bad("remaining_items", d.remaining_items() as u64);
                }
                let u = d.decode(&data[..first], Eos::new(false)).map_err(|e| format!("{e}"))?;
                if u != first || d.remaining_items() as u64 != left || d.is_idle() != (left == 0) {
                    return bad("remaining_items", d.remaining_items() as u64);
                }
                if small {
                    let (u, v) = dec(ch, &mut d, &data[first..], false, 4096)?;
                    if u as u64 != left || v[..] != data[..n as usize] {
                        return bad("items", v.len() as u64);
                    }
                }
            }
            1 => {
                let mut d = RemainingBytesDecoder::new().length(1);
                d.set_expected_bytes(n).map_err(|e| format!("set_expected_bytes({n}): {:?}", e.kind()))?;
                if (d.expected_bytes(), d.remaining_bytes()) != (n, n) || d.requiring_bytes() != ByteCount::Finite(n) {
                    return bad("remaining_bytes", d.remaining_bytes());
                }
                let u = d.decode(&data[..first], Eos::new(false)).map_err(|e| format!("{e}"))?;
                if u != first || d.remaining_bytes() != left || d.requiring_bytes() != ByteCount::Finite(left) || d.expected_bytes() != n {
                    return bad("remaining_bytes", d.remaining_bytes());
                }
                if small {
                    let (u, v) = dec(ch, &mut d, &data[first..], false, 4096)?;
                    if u as u64 != left || v[..] != data[..n as usize] {
                        return bad("bytes", v.len() as u64);
                    }
                }
            }
            2 => {
                let mut d = RemainingBytesDecoder::new().max_bytes(1);
                d.set_max_bytes(n).map_err(|e| format!("set_max_bytes({n}): {:?}", e.kind()))?;
                let get = bytecodec::combinator::MaxBytes::max_bytes(&d);
                if get != n {
                    return bad("max_bytes", get);
                }
                let u = d.decode(&data[..first], Eos::new(false)).map_err(|e| format!("{e}"))?;
                if u != first || d.consumed_bytes() != first as u64 {
                    return bad("consumed_bytes", d.consumed_bytes());
                }
                if small {
                    let (u, v) = dec(ch, &mut d, &data[first..n as usize], true, 4096)?;
                    if u as u64 != left || v[..] != data[..n as usize] {
                        return bad("bytes", v.len() as u64);
                    }
                }
                // one byte more than allowed, of the next or the same item
                let rest = n - d.consumed_bytes();
                let known = ByteCount::Finite(rest - rest.min(1));
                if d.decode(&data[..rest.min(1) as usize], Eos::with_remaining_bytes(known)).is_err() {
                    return bad("refused below the limit", rest);
                }
                if n < u64::MAX {
                    let mut d = RemainingBytesDecoder::new().max_bytes(1);
                    d.set_max_bytes(n).map_err(|e| format!("set_max_bytes({n}): {:?}", e.kind()))?;
                    if d.decode(&data[..1], Eos::with_remaining_bytes(ByteCount::Finite(n))).is_ok() {
                        return bad("accepted above the limit", n);
                    }
                }
            }
            _ => {
                let mut d = RemainingBytesDecoder::new().slice();
                d.set_consumable_bytes(n);
                if d.consumable_bytes() != n || d.is_suspended() != (n == 0) {
                    return bad("consumable_bytes", d.consumable_bytes());
                }
                let u = d.decode(&data[..first], Eos::new(false)).map_err(|e| format!("{e}"))?;
                if u != first || d.consumable_bytes() != left {
                    return bad("consumable_bytes", d.consumable_bytes());
                }
                let u = d.decode(&data[first..], Eos::new(false)).map_err(|e| format!("{e}"))?;
                if u as u64 != left.min((data.len() - first) as u64) || d.consumable_bytes() != left - u as u64 {
                    return bad("consumed", u as u64);
                }
            }
        }
        ch.steps(3);
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings max_bytes", |ch| {
        let ns = [0u64, 1, 2, 3, 300];
        let mut cur = *ch.of(&ns);
        let mut d = RemainingBytesDecoder::new().max_bytes(cur);
        let data: Vec<u8> = (0..400).map(|i| (i % 251) as u8).collect();
        for i in 0..3 {
            if ch.pick_bool() {
                let n = *ch.of(&ns);
                d.set_max_bytes(n).map_err(|e| format!("set_max_bytes: {:?}", e.kind()))?;
                cur = n;
            }
            if bytecodec::combinator::MaxBytes::max_bytes(&d) != cur {
                return Err(format!("max_bytes {} after setting {cur}", bytecodec::combinator::MaxBytes::max_bytes(&d)));
            }
            let n = cur as usize;
            let len = *ch.of(&[n, n.saturating_sub(1), n + 1, 0]);
            let c = *ch.of(&[1usize, 2, 1000]);
            let r = dec(ch, &mut d, &data[..len], true, c);
            match r {
                Ok((u, v)) if len <= n && u == len && v[..] == data[..len] => {}
                Err(_) if len > n => return Ok(()),
                r => return Err(format!("item {i}: {} for {len} bytes under the limit {n}", cut(&format!("{r:?}")))),
            }
            if d.consumed_bytes() != 0 {
                return Err(format!("consumed_bytes {} between items", d.consumed_bytes()));
            }
        }
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings collectn", |ch| {
        let ns = [0usize, 1, 2, 3, 300];
        let mut cur = *ch.of(&ns);
        let mut d = U8Decoder::new().collectn::<Vec<u8>>(cur);
        let k = *ch.of(&[1usize, 2, 1000]);
        let data: Vec<u8> = (0..400).map(|i| (i % 251) as u8).collect();
        for i in 0..3 {
            if i > 0 {
                cur = *ch.of(&ns);
                d.set_remaining_items(cur);
            }
            let n = cur;
            if d.remaining_items() != n {
                return Err(format!("remaining_items {} after setting {n}", d.remaining_items()));
            }
            let (u, v) = dec(ch, &mut d, &data, false, k)?;
            if u != n || v[..] != data[..n] {
                return Err(format!("item {i}: {u} consumed, {} collected, count {n}", v.len()));
            }
        }
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings omit", |ch| {
        let mut o = ch.pick_bool();
        let mut d = U16beDecoder::new().omit(o);
        let k = *ch.of(&[1usize, 2, 1000]);
        let data = [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10];
        let mut pos = 0;
        for i in 0..4 {
            if ch.pick_bool() {
                o = !o;
                d.do_omit(o);
            }
            if d.will_omit() != o {
                return Err(format!("will_omit {} after setting {o}", d.will_omit()));
            }
            let (u, v) = dec(ch, &mut d, &data[pos..], false, k)?;
            let want = if o { None } else { Some(u16::from(data[pos]) << 8 | u16::from(data[pos + 1])) };
            if v != want || u != if o { 0 } else { 2 } {
                return Err(format!("item {i}: {v:?} from {u} bytes, omit={o}"));
            }
            pos += u;
        }
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings padding", |ch| {
        let bs = [None, Some(0u8), Some(7), Some(8)];
        let mut e = *ch.of(&bs);
        let mut d = PaddingDecoder::new(e);
        for i in 0..3 {
            if ch.pick_bool() {
                e = *ch.of(&bs);
                d.set_expected_byte(e);
            }
            if d.expected_byte() != e {
                return Err(format!("expected_byte {:?} after setting {e:?}", d.expected_byte()));
            }
            let x = *ch.of(&[7u8, 8, 0]);
            let len = *ch.of(&[0usize, 1, 3, 300]);
            let c = *ch.of(&[1usize, 1000]);
            let r = dec(ch, &mut d, &vec![x; len], true, c);
            let ok = len == 0 || e.is_none() || e == Some(x);
            match r {
                Ok((u, ())) if ok && u == len => {}
                Err(_) if !ok => return Ok(()),
                r => return Err(format!("item {i}: {r:?} for {len} x {x}, expected byte {e:?}")),
            }
        }
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings bytes", |ch| {
        let ns = [0usize, 1, 2, 5, 300];
        let mut cur = *ch.of(&ns);
        let mut d = BytesDecoder::new(vec![0u8; cur]);
        let data: Vec<u8> = (0..400).map(|i| (i % 251) as u8).collect();
        let k = *ch.of(&[1usize, 2, 1000]);
        let mut n;
        for i in 0..3 {
            if i > 0 {
                n = *ch.of(&ns);
                // also in the middle of an item: the new buffer starts afresh
                if ch.pick_bool() {
                    d.set_bytes(vec![9u8; 4]);
                    let m = d.decode(&data[..2], Eos::new(false)).map_err(|e| format!("{e}"))?;
                    if m != 2 {
                        return Err(format!("{m} of 2 bytes consumed"));
                    }
                }
                d.set_bytes(vec![0u8; n]);
                cur = n;
            }
            let r = dec(ch, &mut d, &data, false, k);
            let (u, v) = r?;
            if u != v.len() || v[..] != data[..u] || u != cur {
                return Err(format!("item {i}: {u} consumed, {} in the item, expected {cur}", v.len()));
            }
            // one-shot
            match d.decode(&data, Eos::new(false)) {
                Err(e) if *e.kind() == ErrorKind::DecoderTerminated => {}
                r => return Err(format!("decode after the single item: {}", res(&r))),
            }
            match d.finish_decoding() {
                Err(e) if *e.kind() == ErrorKind::DecoderTerminated => {}
                r => return Err(format!("second item of a one-shot decoder: {}", res(&r))),
            }
        }
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings slice", |ch| {
        let mut d = U32beDecoder::new().slice();
        let data: Vec<u8> = (0..40).collect();
        let mut pos = 0usize;
        let mut got = vec![];
        for _ in 0..8 {
            let n = *ch.of(&[3u64, 0, 1, 4, 9]);
            d.set_consumable_bytes(n);
            let u = d.decode(&data[pos..], Eos::new(false)).map_err(|e| format!("{e}"))?;
            ch.step();
            if u as u64 > n || d.consumable_bytes() != n - u as u64 {
                return Err(format!("{u} consumed under budget {n}, {} left", d.consumable_bytes()));
            }
            pos += u;
            if d.is_idle() {
                got.push(d.finish_decoding().map_err(|e| format!("{e}"))?);
            } else if u as u64 != n {
                return Err(format!("{u} consumed under budget {n} although unfinished"));
            }
        }
        for (i, g) in got.iter().enumerate() {
            let b = &data[i * 4..];
            if *g != u32::from_be_bytes([b[0], b[1], b[2], b[3]]) {
                return Err(format!("item {i} is {g:#x}"));
            }
        }
        ch.valid();
        Ok(())
    }));
    us
}
