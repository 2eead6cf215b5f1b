//! Drivers: feeding a decoder with a chosen byte stream in chosen chunks, and draining an encoder into
//! chosen buffers, with the reference semantics evaluated after every single call.
use crate::core::*;
use crate::dterm::{self, D, R};
use crate::eterm::{self, Want, E, ES};
use crate::val::*;
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind};

pub fn bc(c: ByteCount) -> String {
    match c {
        ByteCount::Finite(n) => format!("{n}"),
        ByteCount::Infinite => "inf".into(),
        ByteCount::Unknown => "?".into(),
    }
}
pub fn finite(n: u64) -> Eos {
    Eos::with_remaining_bytes(ByteCount::Finite(n))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// The end of the stream is never announced.
    Open,
    /// Announced together with the last byte.
    WithLast,
    /// Announced by a later call with an empty chunk.
    Late,
    /// The remaining distance is known from the start.
    Known,
}
pub const MODES: [Mode; 4] = [Mode::WithLast, Mode::Open, Mode::Late, Mode::Known];

/// Chooses a byte stream from the alphabet of the term.
pub fn pick_input(ch: &mut Ch, alpha: &[u8], max: usize) -> Vec<u8> {
    let len = max - ch.pick(max + 1);
    if alpha.is_empty() {
        (0..len).map(|i| 16 + i as u8).collect()
    } else {
        (0..len).map(|_| alpha[ch.pick(alpha.len())]).collect()
    }
}

/// How chunk sizes are chosen.
pub enum Chunks<'a> {
    /// Every composition of the length, with at most so many empty chunks.
    All { empties: usize },
    /// Sizes from the list (the rest of the stream is always offered as an alternative), at most `n`
    /// free choices, then the rest at once.
    From { sizes: &'a [usize], n: usize },
    /// Always the same size.
    Every(usize),
    /// One call.
    One,
}
pub struct Cutter<'a> {
    c: Chunks<'a>,
    left: usize,
}
impl<'a> Cutter<'a> {
    pub fn new(c: Chunks<'a>) -> Self {
        let left = match &c {
            Chunks::All { empties } => *empties,
            Chunks::From { n, .. } => *n,
            Chunks::One | Chunks::Every(_) => 0,
        };
        Cutter { c, left }
    }
    /// Whether an empty chunk that announces nothing comes before the announcement.
    fn pause(&mut self, ch: &mut Ch) -> bool {
        let pause = matches!(self.c, Chunks::All { .. }) && self.left > 0 && ch.pick_bool();
        self.left -= usize::from(pause);
        pause
    }
    /// The size of the next chunk out of `rest` bytes.
    pub fn next(&mut self, ch: &mut Ch, rest: usize) -> usize {
        match &self.c {
            Chunks::One => rest,
            Chunks::Every(k) => rest.min(*k),
            Chunks::All { .. } => {
                if rest == 0 {
                    return 0;
                }
                let k = ch.pick(rest + usize::from(self.left > 0));
                if k == rest {
                    self.left -= 1;
                    0
                } else {
                    rest - k
                }
            }
            Chunks::From { sizes, .. } => {
                if self.left == 0 {
                    return rest;
                }
                self.left -= 1;
                let k = ch.pick(sizes.len() + 1);
                if k == 0 {
                    rest
                } else {
                    sizes[k - 1].min(rest)
                }
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Item { used: usize, val: Result<V, Ks> },
    Pending { used: usize },
    Fail { used: usize, kind: Ks },
}

/// What is looked at after every call (besides that no byte is lost and the calls return).
#[derive(Clone, Copy, Default)]
pub struct Look {
    /// Compare with the reference semantics after every call.
    pub spec: bool,
    /// Compare announced requirements.
    pub req: bool,
    /// Try to take the item before it is ready, and offer further bytes once it is.
    pub probe: bool,
    /// Do not take the item.
    pub keep: bool,
}

/// Takes the item.
pub fn take(d: &mut dyn Decode<Item = V>) -> Result<V, Ks> {
    d.finish_decoding().map_err(|e| k(kind(&e)))
}

/// Feeds `inp[base..]` to the decoder for one item.  `t` is the term of the decoder.
pub fn feed(
    ch: &mut Ch,
    t: &D,
    d: &mut dyn Decode<Item = V>,
    inp: &[u8],
    mode: Mode,
    cut: &mut Cutter,
    look: Look,
) -> Result<Out, String> {
    let len = inp.len();
    let mut off = 0usize; // consumed
    let ih = fx(inp);
    let mut announced = false;
    let fixed = dterm::fixed_size(t);
    // What the complete stream prescribes (for requirements).
    let complete = if look.req { Some(dterm::spec(t, inp, if mode == Mode::Open { None } else { Some(len as u64) })) } else { None };
    if look.req {
        requirement(t, d, 0, &complete, fixed, false)?;
    }
    loop {
        if look.probe && !d.is_idle() {
            probe_early(ch, t, d)?;
        }
        let rest = len - off;
        let n = cut.next(ch, rest);
        let last = n == rest;
        let eos = match mode {
            Mode::Open => Eos::new(false),
            Mode::WithLast => Eos::new(last),
            Mode::Late => {
                announced = rest == 0 && !cut.pause(ch);
                Eos::new(announced)
            }
            Mode::Known => finite((rest - n) as u64),
        };
        let ended = eos.is_reached();
        let r = d.decode(&inp[off..off + n], eos);
        ch.step();
        let idle = d.is_idle();
        ch.log(|| format!("decode({n} bytes{}) -> {} idle={idle}", if ended { ", eos" } else { "" }, res(&r)));
        ch.state(&(off, n, ended, r.as_ref().ok(), idle, ih));
        let offered = off + n;
        if look.spec {
            let total = match mode {
                Mode::Known => Some(len as u64),
                _ if ended => Some(len as u64),
                _ => None,
            };
            let want = dterm::spec(t, &inp[..offered], total);
            match (&want, &r) {
                (R::Err(ks), Err(e)) => {
                    if !ks.has(*e.kind()) {
                        return Err(format!("decode failed with {:?}, expected {ks:?} ({t:?}, input {})", e.kind(), hex(&inp[..offered])));
                    }
                }
                (R::Err(ks), Ok(_)) => {
                    return Err(format!("decode accepted input that must fail with {ks:?} ({t:?}, input {}, eos={ended})", hex(&inp[..offered])))
                }
                // a frame its inner decoder cannot fill may be rejected at once
                (R::Done { val: Err(_), .. }, Err(_)) if dterm::overlong(t) => {}
                (_, Err(e)) => {
                    return Err(format!("decode failed with {:?}, expected {want:?} ({t:?}, input {}, eos={ended})", e.kind(), hex(&inp[..offered])))
                }
                (R::More, Ok(_)) if idle => {
                    return Err(format!("item ready too early ({t:?}, input {}, eos={ended})", hex(&inp[..offered])))
                }
                (R::Done { used, .. }, Ok(s)) => {
                    if !idle {
                        return Err(format!("item not ready although complete ({t:?}, input {}, eos={ended})", hex(&inp[..offered])));
                    }
                    if off + s != *used {
                        return Err(format!("consumed {} bytes, expected {used} ({t:?}, input {})", off + s, hex(&inp[..offered])));
                    }
                }
                _ => {}
            }
        }
        match r {
            Err(e) => return Ok(Out::Fail { used: off, kind: k(*e.kind()) }),
            Ok(s) => {
                if s > n {
                    return Err(format!("decode reported {s} consumed bytes out of {n} offered ({t:?})"));
                }
                off += s;
                if look.req {
                    requirement(t, d, off, &complete, fixed, idle)?;
                }
                if idle {
                    if look.probe {
                        probe_ready(ch, t, d)?;
                    }
                    if look.keep {
                        return Ok(Out::Item { used: off, val: Ok(V::Unit) });
                    }
                    let val = take(d);
                    ch.step();
                    ch.log(|| format!("finish -> {val:?}"));
                    if look.spec {
                        let total = match mode {
                            Mode::Known => Some(len as u64),
                            _ if ended => Some(len as u64),
                            _ => None,
                        };
                        if let R::Done { val: want, .. } = dterm::spec(t, &inp[..offered], total) {
                            match (&want, &val) {
                                (Ok(a), Ok(b)) if a == b => {}
                                (Err(a), Err(b)) if b.0 & !a.0 == 0 => {}
                                _ => {
                                    return Err(format!("item {val:?}, expected {want:?} ({t:?}, input {})", hex(&inp[..offered])))
                                }
                            }
                        }
                    }
                    return Ok(Out::Item { used: off, val });
                }
                if s < n {
                    return Err(format!("unfinished decoder left {} of {n} offered bytes ({t:?}, input {})", n - s, hex(inp)));
                }
                let over = match mode {
                    Mode::Late => announced,
                    _ => last,
                };
                if over {
                    return Ok(Out::Pending { used: off });
                }
            }
        }
    }
}
/// C07: announced requirement at a point of decoding.
pub fn requirement(t: &D, d: &dyn Decode<Item = V>, used: usize, complete: &Option<R>, fixed: Option<u64>, idle: bool) -> Result<(), String> {
    let r = d.requiring_bytes();
    match complete {
        Some(R::Done { used: total, val: Ok(_) }) => {
            let rest = (*total - used) as u64;
            if let ByteCount::Finite(n) = r {
                if n > rest {
                    return Err(format!("{n} bytes required, but the item takes only {rest} more ({t:?}, {used} consumed)"));
                }
            }
            if idle && r != ByteCount::Finite(0) {
                return Err(format!("finished decoder requires {} bytes ({t:?})", bc(r)));
            }
            if !idle && rest > 0 && r == ByteCount::Finite(0) && !zero_first(t) {
                return Err(format!("unfinished decoder requires no bytes, {rest} to come ({t:?}, {used} consumed)"));
            }
        }
        _ => {}
    }
    if let Some(f) = fixed {
        let ok = matches!(complete, Some(R::Done { val: Ok(_), .. }) | Some(R::More) | Some(R::Err(EOS)));
        if ok && f >= used as u64 && r != ByteCount::Finite(f - used as u64) {
            return Err(format!("decoder of fixed size {f} requires {} bytes after {used} ({t:?})", bc(r)));
        }
    }
    if !idle && dterm::until_eos(t) && r.is_finite() && !dterm::any(t, &|x| matches!(x, D::Json)) {
        // a tuple reads until end of stream with its last part only
        let pure = !matches!(strip(t), D::Tup(_));
        if pure {
            return Err(format!("decoder until end of stream requires only {} bytes ({t:?})", bc(r)));
        }
    }
    Ok(())
}
/// The second decoder of such an `and_then` is not known before the first call.
fn zero_first(t: &D) -> bool {
    dterm::any(t, &|d| matches!(d, D::AndThen(f, _) if dterm::fixed_size(f) == Some(0)))
}
fn strip(t: &D) -> &D {
    match t {
        D::Map(d) | D::TryMap(d) | D::MapErr(_, d) | D::Omit(false, d) | D::Max(_, d) | D::Slice(d)
        | D::Peek(d) | D::Maybe(d) | D::Boxed(d) | D::Utf8With(d) => strip(d),
        d => d,
    }
}

/// C13: asking for the item too early.
pub fn probe_early(ch: &mut Ch, t: &D, d: &mut dyn Decode<Item = V>) -> Result<(), String> {
    let req = d.requiring_bytes();
    match d.finish_decoding() {
        Ok(v) => return Err(format!("unfinished decoder returned the item {v:?} ({t:?})")),
        Err(e) => {
            if *e.kind() != ErrorKind::IncompleteDecoding && !dterm::any(t, &|x| matches!(x, D::MapErr(..))) {
                return Err(format!("unfinished decoder answers {:?} instead of IncompleteDecoding ({t:?})", e.kind()));
            }
        }
    }
    ch.step();
    if d.is_idle() {
        return Err(format!("decoder ready after asking for its item too early ({t:?})"));
    }
    if d.requiring_bytes() != req {
        return Err(format!("requirement changed from {} to {} by asking for the item ({t:?})", bc(req), bc(d.requiring_bytes())));
    }
    Ok(())
}
/// C13: offering more to a decoder that is ready.
pub fn probe_ready(ch: &mut Ch, t: &D, d: &mut dyn Decode<Item = V>) -> Result<(), String> {
    let max = dterm::any(t, &|x| matches!(x, D::Max(..)));
    let long = [0xAAu8; 2100];
    let junk: [&[u8]; 4] = [&[0xAA, 1, 2], &[], &[0xAA], &long];
    for b in junk {
        for eos in [Eos::new(false), Eos::new(true), finite(5), Eos::with_remaining_bytes(ByteCount::Infinite)] {
            let r = d.decode(b, eos);
            ch.step();
            match r {
                Ok(0) => {}
                Ok(n) => return Err(format!("ready decoder consumed {n} of {} bytes ({t:?})", b.len())),
                Err(_) if max => {}
                // a length frame refuses an impossible end of stream
                Err(e) => return Err(format!("ready decoder failed with {:?} on {} bytes ({t:?})", e.kind(), b.len())),
            }
            if !d.is_idle() {
                return Err(format!("ready decoder no longer ready after being offered {} bytes ({t:?})", b.len()));
            }
        }
    }
    Ok(())
}

/// One call with everything.
pub fn one_shot(ch: &mut Ch, t: &D, inp: &[u8], mode: Mode) -> Result<Out, String> {
    let mut d = dterm::build(t);
    let mode = if mode == Mode::Open { Mode::Open } else { Mode::WithLast };
    feed(ch, t, &mut *d, inp, mode, &mut Cutter::new(Chunks::One), Look::default())
}

// ---------------------------------------------------------------- encoders

#[derive(Clone, Copy, Default)]
pub struct ELook {
    /// Try to start another item while busy.
    pub busy: bool,
    /// Check announced sizes.
    pub size: bool,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum EOut {
    Refused(Ks),
    Done(Vec<u8>),
    Fail(Vec<u8>, Ks),
    Open(Vec<u8>),
}
const SENTINEL: u8 = 0xEE;

/// How the end of the output is announced to the encoder.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EMode {
    Never,
    /// With the buffer that exhausts the capacity.
    At(usize),
    /// As above, known from the start.
    Known(usize),
    /// By a call without space once the capacity is exhausted.
    Late(usize),
}
pub trait Enc {
    fn e(&mut self) -> &mut dyn Encode<Item = V>;
    fn exact(&self) -> Option<u64>;
}
pub struct Plain(pub eterm::BE);
pub struct Sized_(pub eterm::BSE);
impl Enc for Plain {
    fn e(&mut self) -> &mut dyn Encode<Item = V> {
        &mut *self.0
    }
    fn exact(&self) -> Option<u64> {
        None
    }
}
impl Enc for Sized_ {
    fn e(&mut self) -> &mut dyn Encode<Item = V> {
        &mut *self.0
    }
    fn exact(&self) -> Option<u64> {
        Some(self.0.exact_requiring_bytes())
    }
}
pub fn sizes(t: &E, s: &ES, d: &mut dyn Enc, done: usize, started: bool) -> Result<(), String> {
    let req = d.e().requiring_bytes();
    let idle = d.e().is_idle();
    let exact = d.exact();
    let rest = s.bytes.len().saturating_sub(done) as u64;
    if idle || !started {
        if !idle {
            return Err(format!("encoder without an item is not idle ({t:?})"));
        }
        if req != ByteCount::Finite(0) {
            return Err(format!("idle encoder requires {} bytes ({t:?})", bc(req)));
        }
        if exact.is_some_and(|x| x != 0) {
            return Err(format!("idle encoder announces {exact:?} bytes ({t:?})"));
        }
        return Ok(());
    }
    if s.fail.is_some() {
        return Ok(());
    }
    match req {
        ByteCount::Finite(n) => {
            if s.tail.is_some() || n != rest {
                return Err(format!("{n} bytes announced, but {rest}{} to come ({t:?}, {done} emitted)", if s.tail.is_some() { "+endless" } else { "" }));
            }
        }
        ByteCount::Infinite => {
            if s.tail.is_none() {
                return Err(format!("infinite output announced, but {rest} bytes to come ({t:?}, {done} emitted)"));
            }
        }
        ByteCount::Unknown => {
            if exact.is_some() && !eterm::any(t, &|x| matches!(x, E::Last(_))) {
                return Err(format!("sized encoder announces an unknown size ({t:?})"));
            }
        }
    }
    if let Some(x) = exact {
        if s.tail.is_none() && x != rest {
            return Err(format!("exactly {x} bytes announced, but {rest} to come ({t:?}, {done} emitted)"));
        }
    }
    Ok(())
}

/// Encodes one item into chosen buffers, comparing every call with the reference semantics.
pub fn drain(
    ch: &mut Ch,
    t: &E,
    d: &mut dyn Enc,
    item: &V,
    mode: EMode,
    cut: &mut dyn FnMut(&mut Ch, usize) -> usize,
    look: ELook,
) -> Result<EOut, String> {
    let s = eterm::espec(t, item);
    let ek = eterm::eos_kinds(t).or(EOS);
    if look.size {
        sizes(t, &s, d, 0, false)?;
    }
    let r = d.e().start_encoding(item.clone());
    ch.step();
    ch.log(|| format!("start({item:?}) -> {}", res(&r)));
    match (&r, s.start) {
        (Err(e), Some(ks)) => {
            if !ks.has(*e.kind()) {
                return Err(format!("item refused with {:?}, expected {ks:?} ({t:?}, {item:?})", e.kind()));
            }
            return Ok(EOut::Refused(k(*e.kind())));
        }
        (Ok(()), Some(ks)) => return Err(format!("item accepted that must be refused with {ks:?} ({t:?}, {item:?})")),
        (Err(e), None) => return Err(format!("valid item refused with {:?} ({t:?}, {item:?})", e.kind())),
        (Ok(()), None) => {}
    }
    let idle = d.e().is_idle();
    if idle != s.idle_at_once {
        return Err(format!("idle={idle} after accepting an item, expected {} ({t:?}, {item:?})", s.idle_at_once));
    }
    if look.size {
        sizes(t, &s, d, 0, true)?;
    }
    let ih = fx(item);
    let mut out: Vec<u8> = vec![];
    if idle {
        // nothing to emit: encoding must have no effect
        let mut b = [SENTINEL; 3];
        let n = d.e().encode(&mut b, Eos::new(true)).map_err(|e| format!("idle encoder failed with {:?} ({t:?})", e.kind()))?;
        ch.step();
        if n != 0 || b != [SENTINEL; 3] || !d.e().is_idle() {
            return Err(format!("idle encoder wrote {n} bytes ({t:?})"));
        }
        return Ok(EOut::Done(out));
    }
    let others: Vec<(V, Ks)> = if look.busy {
        let mut v = vec![item.clone()];
        v.push(eterm::items_n(t, 1).swap_remove(0));
        // items that take no bytes must be refused, too
        v.extend(eterm::items(t).into_iter().filter(|x| eterm::espec(t, x).bytes.is_empty()).take(2));
        // (known: `pre_encode` keeps an inner encoder that failed in the middle of an item)
        v.retain(|x| !(eterm::any(t, &|y| matches!(y, E::Pre(_))) && eterm::partial_start(t, x)));
        v.into_iter().map(|x| { let ks = k(ErrorKind::EncoderFull).or(eterm::espec(t, &x).start.unwrap_or(Ks(0))); (x, ks) }).collect()
    } else {
        vec![]
    };
    let mapped = eterm::any(t, &|y| matches!(y, E::MapErr(..)));
    loop {
        if look.busy {
            let req = d.e().requiring_bytes();
            let exact = d.exact();
            for (x, ok) in &others {
                match d.e().start_encoding(x.clone()) {
                    Ok(()) => return Err(format!("busy encoder accepted another item ({t:?}, {item:?})")),
                    Err(e) => {
                        if !ok.has(*e.kind()) && !mapped {
                            return Err(format!("busy encoder refused an item with {:?} ({t:?}, {item:?})", e.kind()));
                        }
                    }
                }
                ch.step();
            }
            if d.e().is_idle() || d.e().requiring_bytes() != req || d.exact() != exact {
                return Err(format!("refusing an item disturbed the busy encoder ({t:?}, {item:?})"));
            }
        }
        let done = out.len();
        let cap_left = match mode {
            EMode::Never => usize::MAX,
            EMode::At(c) | EMode::Known(c) | EMode::Late(c) => c - done,
        };
        let hint = if s.tail.is_some() { cap_left.min(8) } else { (s.bytes.len() - done.min(s.bytes.len())) + 1 };
        let hint = match s.fail {
            Some((n, _)) => hint.max((n as usize).saturating_sub(done) + 1),
            None => hint,
        };
        let n = if cap_left == 0 { 0 } else { cut(ch, hint.max(1)).min(cap_left) };
        let (eos, ended) = match mode {
            EMode::Never => (Eos::new(false), false),
            EMode::At(_) => (Eos::new(n == cap_left), n == cap_left),
            EMode::Known(_) => (finite((cap_left - n) as u64), n == cap_left),
            EMode::Late(_) => (Eos::new(cap_left == 0), cap_left == 0),
        };
        let mut buf = vec![SENTINEL; n];
        let r = d.e().encode(&mut buf, eos);
        ch.step();
        let idle = d.e().is_idle();
        ch.log(|| format!("encode({n} bytes{}) -> {} idle={idle}", if ended { ", eos" } else { "" }, res(&r)));
        ch.state(&(done, n, ended, r.as_ref().ok(), idle, ih));
        let w = eterm::want(&s, ek, done, n, ended);
        match (&w, &r) {
            (Want::Err(ks), Err(e)) => {
                if !ks.has(*e.kind()) {
                    return Err(format!("encode failed with {:?}, expected {ks:?} ({t:?}, {item:?}, {done} emitted, buffer {n}, eos={ended})", e.kind()));
                }
                return Ok(EOut::Fail(out, k(*e.kind())));
            }
            (Want::Err(ks), Ok(m)) => {
                return Err(format!("encode returned {m} bytes, must fail with {ks:?} ({t:?}, {item:?}, {done} emitted, buffer {n}, eos={ended})"))
            }
            (Want::Ok { .. }, Err(e)) => {
                return Err(format!("encode failed with {:?} ({t:?}, {item:?}, {done} emitted, buffer {n}, eos={ended})", e.kind()))
            }
            (Want::Ok { out: b, idle: wi }, Ok(m)) => {
                if *m != b.len() {
                    return Err(format!("encode wrote {m} bytes, expected {} ({t:?}, {item:?}, {done} emitted, buffer {n}, eos={ended})", b.len()));
                }
                if buf[..*m] != b[..] {
                    return Err(format!("encode wrote {}, expected {} ({t:?}, {item:?}, {done} emitted)", hex(&buf[..*m]), hex(b)));
                }
                if buf[*m..].iter().any(|x| *x != SENTINEL) {
                    return Err(format!("encode touched the buffer beyond the {m} bytes it reported ({t:?}, {item:?})"));
                }
                if idle != *wi {
                    return Err(format!("idle={idle}, expected {wi} ({t:?}, {item:?}, {done}+{m} emitted, buffer {n}, eos={ended})"));
                }
                out.extend(&buf[..*m]);
            }
        }
        if look.size {
            let l = out.len();
            sizes(t, &s, d, l, true)?;
        }
        if idle {
            return Ok(EOut::Done(out));
        }
        if ended || out.len() > 1 << 22 {
            return Ok(EOut::Open(out));
        }
        if mode == EMode::Never && s.tail.is_some() && out.len() >= s.bytes.len() + 6 {
            return Ok(EOut::Open(out));
        }
    }
}
/// Buffer sizes for `drain`: every size up to `hint`, with a limited number of empty ones.  For outputs
/// of more than 5 (7) bytes at most three (two) buffers are chosen freely, the others are the biggest.
pub fn all_sizes(mut empties: usize, max: usize) -> impl FnMut(&mut Ch, usize) -> usize {
    let mut free = None;
    move |ch, hint| {
        let h = hint.min(max);
        let f = free.get_or_insert(if h > 8 { 2 } else if h > 6 { 3 } else { usize::MAX });
        if *f == 0 {
            return h;
        }
        *f -= 1;
        let k = ch.pick(h + usize::from(empties > 0));
        if k == h {
            empties -= 1;
            0
        } else {
            // biggest first
            h - k
        }
    }
}
/// Always the biggest useful buffer.
pub fn biggest() -> impl FnMut(&mut Ch, usize) -> usize {
    |_, hint| hint
}
/// Sizes from a list for `n` calls, then the biggest.
pub fn from_sizes(sizes: Vec<usize>, mut n: usize) -> impl FnMut(&mut Ch, usize) -> usize {
    move |ch, hint| {
        if n == 0 {
            return hint;
        }
        n -= 1;
        let k = ch.pick(sizes.len() + 1);
        if k == 0 {
            hint
        } else {
            sizes[k - 1]
        }
    }
}
/// The same size every time.
pub fn always(n: usize) -> impl FnMut(&mut Ch, usize) -> usize {
    move |_, hint| if n == 0 { hint } else { n }
}
