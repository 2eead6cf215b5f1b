//! Properties of encoders: C02, C05, C06, C08, C15 and the encoder halves of C09 and C14.
use super::dec::{cut, final_out};
use super::scale;
use super::value;
use crate::core::*;
use crate::drive::*;
use crate::dterm::{self, D};
use crate::eterm::{self, bx, E};
use crate::fix;
use crate::val::*;
use bytecodec::io::IoEncodeExt;
use bytecodec::{ByteCount, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};

pub fn lbl(p: &str, t: &E) -> String {
    let mut s = format!("{p} {t:?}");
    for (a, b) in [("ErrorKindW", ""), ("signed: false, ", ""), ("float: false, ", "")] {
        s = s.replace(a, b);
    }
    s
}
fn short(t: &E) -> String {
    lbl("", t).chars().take(60).collect()
}
fn need(t: &E, item: &V) -> usize {
    eterm::espec(t, item).bytes.len()
}
pub fn plain(t: &E) -> Box<dyn Enc> {
    Box::new(Plain(eterm::build(t)))
}
fn variant(t: &E, sized: bool) -> Option<Box<dyn Enc>> {
    if sized {
        Some(Box::new(Sized_(eterm::build_sized(t)?)))
    } else {
        Some(plain(t))
    }
}
/// Modes under which the item fits (or the end is never announced).
fn pick_mode(ch: &mut Ch, need: usize) -> EMode {
    match ch.pick(7) {
        0 => EMode::Never,
        1 => EMode::At(need),
        2 => EMode::At(need + 2),
        3 => EMode::Known(need),
        4 => EMode::Known(need + 3),
        5 => EMode::Late(need),
        _ => EMode::Late(need + 1),
    }
}
/// Large items at ladder size `n`.
pub fn eladder(n: usize) -> Vec<(E, V)> {
    let pos: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let text: String = (0..n).map(|i| if i % 5 == 4 { 'é' } else { 'a' }).collect();
    let b = || V::B(pos.clone());
    let s = || V::S(text.clone());
    let some = |v: V| V::O(Some(Box::new(v)));
    let m = n as u64;
    let mut v = vec![
        (E::Bytes, b()),
        (E::Utf8, s()),
        (E::Pre(bx(E::Bytes)), b()),
        (E::Length(m, bx(E::Bytes)), b()),
        (E::Length(m + 1, bx(E::Bytes)), b()),
        (E::Length(m, bx(E::Pad)), V::N(7)),
        (E::Max(m, bx(E::Bytes)), b()),
        (E::Max(m + 1, bx(E::Bytes)), b()),
        (E::Slice(bx(E::Bytes)), b()),
        (E::Optional(bx(E::Bytes)), some(b())),
        (E::Tup(vec![E::Bytes, E::Fix(fix::U16BE)]), V::T(vec![b(), V::N(0x0102)])),
        (E::Tup(vec![E::Fix(fix::U8), E::Bytes, E::Utf8]), V::T(vec![V::N(9), b(), s()])),
        (E::Last(bx(E::Bytes)), V::T(vec![some(V::B(vec![1, 2])), b()])),
        (E::Last(bx(E::Bytes)), V::T(vec![some(b()), V::B(vec![1, 2])])),
        (E::Repeat(bx(E::Bytes)), V::L(vec![b(), V::B(vec![]), V::B(vec![5]), b()])),
        (E::Json, V::S("x".repeat(n))),
        (E::Line, V::B(pos.iter().map(|b| b | 4).collect())),
        (E::Pre(bx(E::Line)), V::B(pos.iter().map(|b| b | 4).collect())),
        (E::Pre(bx(E::Json)), V::S("x".repeat(n))),
        (E::MapErr(dterm::ErrorKindW(ErrorKind::Other), bx(E::Bytes)), b()),
    ];
    if n > 0 {
        v.push((E::Length(m - 1, bx(E::Bytes)), b()));
        v.push((E::Max(m - 1, bx(E::Bytes)), b()));
        v.push((E::Pre(bx(E::Repeat(bx(E::Bytes)))), V::L(vec![b(), b()])));
    }
    if n <= 5000 || [65535, 65536, 65537].contains(&n) {
        v.push((E::Repeat(bx(E::Fix(fix::U8))), V::L((0..n).map(|i| V::N(i as u64 & 255)).collect())));
        v.push((E::Repeat(bx(E::Bytes)), V::L((0..n).map(|i| V::B(vec![i as u8; i % 3])).collect())));
        v.push((E::Pre(bx(E::Repeat(bx(E::Fix(fix::U24LE))))), V::L((0..n / 3).map(|i| V::N(i as u64)).collect())));
    }
    v
}

pub fn c02(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term of the encoder language up to the tier's depth x items x 7 ways of announcing the end x every sequence of buffer sizes with 1 (quick) / 2 (thorough) empty buffers; written bytes, count, idleness and the untouched rest of the buffer after every call; size ladder up to 70000 bytes".into());
    let mut us = vec![];
    b.push("11 encoders that pass bytes on, items of 2^17..2^21 (2^24) bytes, give or take one, into several patterns of buffers".into());
    for n in value::huge(th) {
        for kind in 0..value::ENCODERS.len() {
            us.push(unit(format!("huge {n} {}", value::ENCODERS[kind]), move |ch| value::encoding(ch, kind, n)));
        }
    }
    for t in eterm::terms(th) {
        let items = eterm::items(&t);
        us.push(unit(lbl("buffers", &t), move |ch| {
            let item = &items[ch.pick(items.len())];
            let n = need(&t, item);
            let mode = pick_mode(ch, n);
            let mut e = plain(&t);
            ch.log(|| format!("{t:?} <- {item:?} mode {mode:?}"));
            let r = if n > 7 {
                drain(ch, &t, &mut *e, item, mode, &mut from_sizes(vec![1, 2, 0], if th { 5 } else { 3 }), ELook::default())?
            } else {
                let em = if n <= 4 || th { 1 + usize::from(th) } else { 0 };
                drain(ch, &t, &mut *e, item, mode, &mut all_sizes(em, n + 1), ELook::default())?
            };
            ch.outcome(&format!("{r:?}"));
            ch.valid();
            Ok(())
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, item)) in eladder(n).into_iter().enumerate() {
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let m = need(&t, &item);
                let mode = pick_mode(ch, m);
                let mut e = plain(&t);
                if ch.pick_bool() {
                    let k = *ch.of(&[1usize, 3, 64, 255, 256, 1000, 1024, 4096]);
                    if m / k > 300 {
                        return ch.skip();
                    }
                    drain(ch, &t, &mut *e, &item, mode, &mut always(k), ELook::default())?;
                } else {
                    let c = scale::cuts(m);
                    drain(ch, &t, &mut *e, &item, mode, &mut from_sizes(c, if m > 1000 { 1 } else { 2 }), ELook::default())?;
                }
                ch.valid();
                Ok(())
            }));
        }
    }
    us
}

pub fn c05(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term x every item of its item set: encode_into_bytes, encode_all and manual calls with every uniform buffer size against the prescribed bytes; size ladder".into());
    let mut us = vec![];
    b.push("an item of 4 GiB and 5 bytes under 9 encoders, from the first to the last byte".into());
    for k in 0..super::big::GIANTS.len() {
        us.push(unit(format!("giant {}", super::big::GIANTS[k]), move |ch| super::big::emitted(ch, k)));
    }
    for t in eterm::terms(th) {
        let items = eterm::items(&t);
        us.push(unit(lbl("emit", &t), move |ch| {
            let item = &items[ch.pick(items.len())];
            emit(ch, &t, item)
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, item)) in eladder(n).into_iter().enumerate() {
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| emit(ch, &t, &item)));
        }
    }
    // every fixed-width encoder inside every combinator
    for f in fix::FIXES {
        for t in eterm::unary(&E::Fix(*f)) {
            let items = eterm::items(&t);
            us.push(unit(lbl("emit fix", &t), move |ch| {
                let item = &items[ch.pick(items.len())];
                emit(ch, &t, item)
            }));
        }
    }
    b.push("the same 11 encoders with items of 2^17..2^21 (2^24) bytes, give or take one".into());
    for n in value::huge(th) {
        for kind in 0..value::ENCODERS.len() {
            us.push(unit(format!("huge {n} {}", value::ENCODERS[kind]), move |ch| value::encoding(ch, kind, n)));
        }
    }
    b.push("11 encoders that pass bytes on x the same lengths and contents as for C04: encode_into_bytes, encode_all, write buffers, calls in three patterns".into());
    for n in value::lens(th) {
        for kind in 0..value::ENCODERS.len() {
            us.push(unit(format!("contents {n} {}", value::ENCODERS[kind]), move |ch| value::encoding(ch, kind, n)));
        }
    }
    us
}
fn emit(ch: &mut Ch, t: &E, item: &V) -> Case {
    let s = eterm::espec(t, item);
    let bad = s.start.or(s.fail.map(|f| f.1));
    let judge = |how: &str, r: Result<Vec<u8>, bytecodec::Error>, extra: Ks| -> Case {
        match (&r, bad) {
            (Ok(v), None) if *v == s.bytes => Ok(()),
            (Err(e), Some(k)) if k.or(extra).has(*e.kind()) => Ok(()),
            _ => Err(format!(
                "{how}: {}, prescribed {} ({t:?}, {})",
                r.as_ref().map(|v| hex(v)).unwrap_or_else(|e| format!("{:?}", e.kind())),
                bad.map_or_else(|| hex(&s.bytes), |k| format!("{k:?}")),
                cut(&format!("{item:?}"))
            )),
        }
    };
    match ch.pick(4) {
        0 if s.tail.is_none() => {
            let mut e = eterm::build(t);
            let r = e.encode_into_bytes(item.clone());
            ch.step();
            let ok = r.is_ok();
            judge("encode_into_bytes", r, eterm::eos_kinds(t).or(EOS))?;
            if ok && !e.is_idle() {
                return Err(format!("encoder busy after encode_into_bytes ({t:?})"));
            }
        }
        1 if s.tail.is_none() => {
            let Some(mut e) = eterm::build_sized(t) else { return ch.skip() };
            let r = e.encode_into_bytes(item.clone());
            ch.step();
            judge("encode_into_bytes (sized)", r, eterm::eos_kinds(t).or(EOS))?;
        }
        2 if s.tail.is_none() => {
            let mut e = eterm::build(t);
            let mut out = vec![];
            let r = e.start_encoding(item.clone()).and_then(|()| e.encode_all(&mut out));
            ch.step();
            judge("encode_all", r.map(|()| out), Ks(0))?;
        }
        0 => {
            // an item without an end is refused where its requirement says so
            let mut probe = eterm::build(t);
            if probe.start_encoding(item.clone()).is_ok() && probe.requiring_bytes() != ByteCount::Infinite {
                return ch.skip();
            }
            let r = eterm::build(t).encode_into_bytes(item.clone());
            ch.step();
            if let Ok(v) = r {
                return Err(format!("encode_into_bytes made {} of an item without an end ({t:?})", hex(&v)));
            }
        }
        3 => {
            let mut e = plain(t);
            let k = *ch.of(&[0usize, 1, 2, 3]);
            if k > 0 && s.bytes.len() / k > 3000 {
                return ch.skip();
            }
            let mode = pick_mode(ch, s.bytes.len());
            let r = drain(ch, t, &mut *e, item, mode, &mut always(k), ELook::default())?;
            ch.outcome(&cut(&format!("{r:?}")));
        }
        _ => return ch.skip(),
    }
    ch.valid();
    Ok(())
}

pub fn c08(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term, as plain and as sized encoder, x items x 7 ways of announcing the end x every sequence of buffer sizes: announced sizes before the item, after start and after every call; a second item through the same encoder; size ladder".into());
    let mut us = vec![];
    b.push("items of around 2 and 4 GiB under 9 encoders: announced sizes before and after a few calls".into());
    for k in 0..super::big::GIANTS.len() {
        us.push(unit(format!("giant {}", super::big::GIANTS[k]), move |ch| super::big::announced(ch, k)));
    }
    let look = ELook { size: true, busy: false };
    for t in eterm::terms(th) {
        for sized in [false, true] {
            if sized && eterm::build_sized(&t).is_none() {
                continue;
            }
            let t = t.clone();
            let items = eterm::items(&t);
            us.push(unit(lbl(if sized { "sized" } else { "plain" }, &t), move |ch| {
                let mut e = variant(&t, sized).unwrap();
                let mut i0 = 0;
                for round in 0..2 {
                    i0 = next_item(ch, i0, round, items.len(), th);
                    let item = &items[i0];
                    let n = need(&t, item);
                    let mode = if round == 0 { pick_mode(ch, n) } else { EMode::Never };
                    ch.log(|| format!("{t:?} <- {item:?} mode {mode:?}"));
                    let r = if round == 1 || n > 7 {
                        let k = if round == 1 { 0 } else { 3 };
                        drain(ch, &t, &mut *e, item, mode, &mut from_sizes(vec![1, 2], k), look)?
                    } else {
                        drain(ch, &t, &mut *e, item, mode, &mut all_sizes(usize::from(n < 3), n + 1), look)?
                    };
                    ch.outcome(&format!("{r:?}"));
                    ch.valid();
                    match r {
                        EOut::Done(_) => {}
                        EOut::Refused(_) if !eterm::partial_start(&t, item) => {}
                        _ => return Ok(()),
                    }
                    sizes(&t, &eterm::ES::default(), &mut *e, 0, false)?;
                }
                Ok(())
            }));
        }
    }
    b.push("every sized term inside a slice x items x every sequence of up to 3 budgets of 0 to 3 bytes x buffers of 1, 2 or 64 bytes: announced sizes before and after every refill and every call".into());
    for t in eterm::terms(false) {
        if eterm::build_sized(&t).is_none() {
            continue;
        }
        let items = eterm::items(&t);
        us.push(unit(lbl("sliced", &t), move |ch| sliced_size(ch, &t, &items)));
    }
    for n in scale::ladder(th) {
        for (i, (t, item)) in eladder(n).into_iter().enumerate() {
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let Some(mut e) = variant(&t, ch.pick_bool()) else { return ch.skip() };
                let m = need(&t, &item);
                let mode = pick_mode(ch, m);
                let c = scale::cuts(m);
                drain(ch, &t, &mut *e, &item, mode, &mut from_sizes(c, 1), look)?;
                ch.valid();
                Ok(())
            }));
        }
    }
    us
}

/// The size announced through a slice does not depend on the budget of the slice.
fn sliced_size(ch: &mut Ch, t: &E, items: &[V]) -> Case {
    let item = &items[ch.pick(items.len())];
    let s = eterm::espec(t, item);
    if s.start.is_some() || s.fail.is_some() || s.tail.is_some() || s.idle_at_once {
        return ch.skip();
    }
    let mut e = eterm::build_sized(t).unwrap().slice();
    if ch.pick_bool() {
        e.set_consumable_bytes(ch.pick(4) as u64);
    }
    e.start_encoding(item.clone()).map_err(|x| format!("valid item refused with {:?} ({t:?}, {item:?})", x.kind()))?;
    let k = *ch.of(&[64usize, 1, 2]);
    let mut out: Vec<u8> = vec![];
    let check = |ch: &mut Ch, e: &bytecodec::combinator::Slice<eterm::BSE>, out: &[u8], at: &str| -> Case {
        ch.step();
        let (x, r) = (e.exact_requiring_bytes(), e.requiring_bytes());
        let rest = (s.bytes.len() - out.len()) as u64;
        ch.state(&(out.len(), e.consumable_bytes()));
        if x != rest || r != ByteCount::Finite(rest) {
            return Err(format!(
                "{at}: slice with a budget of {} announces {} (exactly {x}), but {rest} bytes are to come ({t:?}, {item:?}, {} emitted)",
                e.consumable_bytes(),
                bc(r),
                out.len()
            ));
        }
        Ok(())
    };
    check(ch, &e, &out, "after start")?;
    for round in 0..4 {
        e.set_consumable_bytes(if round == 3 { u64::MAX } else { ch.pick(4) as u64 });
        check(ch, &e, &out, "after refill")?;
        loop {
            let mut buf = vec![0u8; k];
            let n = e.encode(&mut buf, Eos::new(false)).map_err(|x| format!("encode failed with {:?} ({t:?}, {item:?})", x.kind()))?;
            if out.len() + n > s.bytes.len() {
                return Err(format!("{} bytes emitted instead of {} ({t:?}, {item:?})", out.len() + n, s.bytes.len()));
            }
            out.extend(&buf[..n]);
            check(ch, &e, &out, "after encode")?;
            if n < k || e.is_idle() {
                break;
            }
        }
        if e.is_idle() {
            break;
        }
    }
    if out != s.bytes {
        return Err(format!("{} emitted instead of {} ({t:?}, {item:?})", hex(&out), hex(&s.bytes)));
    }
    ch.valid();
    Ok(())
}

pub fn c09(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every encoder term x items x every output capacity smaller than the item x 3 ways of announcing the end x every sequence of buffer sizes".into());
    let mut us = vec![];
    for t in eterm::terms(th) {
        let items = eterm::items(&t);
        us.push(unit(lbl("output ends", &t), move |ch| {
            let item = &items[ch.pick(items.len())];
            let s = eterm::espec(&t, item);
            let n = s.bytes.len();
            if n == 0 || s.start.is_some() {
                return ch.skip();
            }
            let c = ch.pick(n);
            let mode = [EMode::At(c), EMode::Late(c), EMode::Known(c)][ch.pick(3)];
            let mut e = plain(&t);
            ch.log(|| format!("{t:?} <- {item:?} mode {mode:?}"));
            let r = if c > 7 {
                drain(ch, &t, &mut *e, item, mode, &mut from_sizes(vec![1, 2], 3), ELook::default())?
            } else {
                drain(ch, &t, &mut *e, item, mode, &mut all_sizes(usize::from(c < 4), n + 1), ELook::default())?
            };
            ch.outcome(&format!("{r:?}"));
            ch.valid();
            match r {
                EOut::Fail(..) => Ok(()),
                r => Err(format!("output ended after {c} of {n} bytes, but: {r:?} ({t:?}, {item:?})")),
            }
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, item)) in eladder(n).into_iter().enumerate() {
            us.push(unit(format!("eladder {n}/{i} {}", short(&t)), move |ch| {
                let m = need(&t, &item);
                if m == 0 {
                    return ch.skip();
                }
                let mut c = scale::cuts(m);
                c.push(0);
                let cap = *ch.of(&c);
                let mode = [EMode::At(cap), EMode::Late(cap), EMode::Known(cap)][ch.pick(3)];
                let mut e = plain(&t);
                drain(ch, &t, &mut *e, &item, mode, &mut biggest(), ELook::default())?;
                ch.valid();
                Ok(())
            }));
        }
    }
    us
}

pub fn c14(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("encoders: every term x sequences of 3 items (valid and refused) through one encoder, each with its own end announcement; 300 items in a row; settings changed between items, also to every 2^k and its neighbours".into());
    let mut us = vec![];
    for t in eterm::terms(th) {
        let items = eterm::items(&t);
        us.push(unit(lbl("reuse enc", &t), move |ch| {
            let few: Vec<V> = items.iter().take(if th { 6 } else { 4 }).chain(items.last()).cloned().collect();
            let sized = ch.pick_bool();
            let Some(mut e) = variant(&t, sized) else { return ch.skip() };
            for _ in 0..3 {
                let item = &few[ch.pick(few.len())];
                let n = need(&t, item);
                let s = eterm::espec(&t, item);
                let mode = if s.tail.is_some() {
                    EMode::At(n + 1)
                } else {
                    [EMode::Never, EMode::At(n)][ch.pick(2)]
                };
                let k = [0usize, 1][ch.pick(2)];
                ch.log(|| format!("{t:?} <- {item:?} mode {mode:?}"));
                let r = drain(ch, &t, &mut *e, item, mode, &mut always(k), ELook { size: true, busy: false })?;
                ch.valid();
                match r {
                    EOut::Done(_) => {}
                    EOut::Refused(_) if !eterm::partial_start(&t, item) => {}
                    _ => return Ok(()),
                }
            }
            Ok(())
        }));
    }
    for n in [2usize, 64, 127, 128, 129, 255, 256, 257, 300, 1025, 4097] {
        us.push(unit(format!("many enc {n}"), move |ch| {
            let ts: Vec<E> = eterm::leaves().into_iter().chain(eterm::few_leaves().iter().flat_map(eterm::unary)).collect();
            let t = &ts[ch.pick(ts.len())];
            let items: Vec<V> = eterm::items(t);
            let mut e = plain(t);
            let k = *ch.of(&[0usize, 1]);
            for i in 0..n {
                let item = &items[i % items.len()];
                let s = eterm::espec(t, item);
                let mode = if s.tail.is_some() { EMode::At(s.bytes.len() + 1) } else { EMode::Never };
                match drain(ch, t, &mut *e, item, mode, &mut always(k), ELook { size: true, busy: false })? {
                    EOut::Done(_) => {}
                    EOut::Refused(_) if !eterm::partial_start(t, item) => {}
                    _ => return Ok(()),
                }
            }
            ch.valid();
            Ok(())
        }));
    }
    us.push(unit("settings length enc", |ch| {
        let ns = [0u64, 1, 2, 3, 300];
        let mut cur = *ch.of(&ns);
        let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new().length(cur);
        for i in 0..3 {
            if ch.pick_bool() {
                let n = *ch.of(&ns);
                e.set_expected_bytes(n).map_err(|e| format!("set_expected_bytes between items: {:?}", e.kind()))?;
                cur = n;
            }
            if e.expected_bytes() != cur {
                return Err(format!("expected_bytes {} after setting {cur}", e.expected_bytes()));
            }
            let n = cur as usize;
            let item: Vec<u8> = (0..n).map(|x| (x as u8).wrapping_add(i)).collect();
            e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
            let k = *ch.of(&[1usize, 2, 1000]);
            let mut out = vec![];
            while !e.is_idle() {
                if !out.is_empty() && out.len() < n {
                    if e.set_expected_bytes(9).is_ok() {
                        return Err("length changed within an item".into());
                    }
                    if e.remaining_bytes() != (n - out.len()) as u64 || e.expected_bytes() != n as u64 {
                        return Err(format!("remaining_bytes {} after {} of {n}", e.remaining_bytes(), out.len()));
                    }
                }
                let mut b = vec![0; k];
                let m = e.encode(&mut b, Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
                ch.step();
                out.extend(&b[..m]);
                if m < k && !e.is_idle() {
                    return Err("stuck".into());
                }
            }
            if out != item {
                return Err(format!("item {i}: {} instead of {}", hex(&out), hex(&item)));
            }
        }
        ch.valid();
        Ok(())
    }));
    us.push(unit("settings wide enc", |ch| {
        let mut marks: Vec<u64> = (6..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).collect();
        marks.extend([0, 1, 2, 5, 300, 70_000, u64::MAX - 1, u64::MAX]);
        let n = *ch.of(&marks);
        let small = n <= 70_000;
        let item: Vec<u8> = (0..if small { n } else { 9 }).map(|i| (i % 251) as u8 ^ (i >> 8) as u8).collect();
        let first = ch.pick(3).min(item.len());
        let bad = |m: &str, v: u64| -> Case { Err(format!("{m}: {v} with the setting {n} after {first} bytes")) };
        ch.log(|| format!("setting {n}, {first} bytes first"));
        let mut b = vec![0xEE; item.len() + 2];
        ch.steps(3);
        ch.valid();
        match ch.pick(3) {
            0 => {
                let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new().length(1);
                e.set_expected_bytes(n).map_err(|e| format!("set_expected_bytes({n}): {:?}", e.kind()))?;
                e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
                if e.exact_requiring_bytes() != n || e.expected_bytes() != n {
                    return bad("exact_requiring_bytes", e.exact_requiring_bytes());
                }
                let m = e.encode(&mut b[..first], Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
                if m != first || !e.is_idle() && e.exact_requiring_bytes() != n - first as u64 {
                    return bad("exact_requiring_bytes", e.exact_requiring_bytes());
                }
                match e.encode(&mut b[first..], Eos::new(false)) {
                    Ok(m) if small && m == item.len() - first && b[..item.len()] == item[..] && e.is_idle() => {}
                    Err(x) if !small && *x.kind() == ErrorKind::InvalidInput => {}
                    r => return Err(format!("length {n}: {}", res(&r))),
                }
            }
            1 => {
                let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new().max_bytes(0);
                e.set_max_bytes(n).map_err(|e| format!("set_max_bytes({n}): {:?}", e.kind()))?;
                let get = bytecodec::combinator::MaxBytes::max_bytes(&e);
                if get != n {
                    return bad("max_bytes", get);
                }
                let over = small && ch.pick_bool();
                let mut item = item;
                if over {
                    item.push(1);
                }
                e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
                let m = e.encode(&mut b[..first], Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
                if m != first || !e.is_idle() && e.consumed_bytes() != first as u64 {
                    return bad("consumed_bytes", e.consumed_bytes());
                }
                match e.encode(&mut b[first..], Eos::new(false)) {
                    Ok(m) if !over && m == item.len() - first && b[..item.len()] == item[..] && e.is_idle() => {}
                    Err(x) if over && *x.kind() == ErrorKind::InvalidInput => {}
                    r => return Err(format!("max_bytes {n}, item of {} bytes: {}", item.len(), res(&r))),
                }
            }
            _ => {
                let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new().slice();
                let mut item = item;
                item.push(1);
                e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
                e.set_consumable_bytes(n);
                if e.consumable_bytes() != n || e.is_suspended() != (n == 0) {
                    return bad("consumable_bytes", e.consumable_bytes());
                }
                let m = e.encode(&mut b[..first], Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
                if m != first || e.consumable_bytes() != n - first as u64 {
                    return bad("consumable_bytes", e.consumable_bytes());
                }
                let want = item.len().min(n as usize);
                let m = e.encode(&mut b[first..], Eos::new(false)).map_err(|e| format!("encode: {:?}", e.kind()))?;
                if first + m != want || b[..want] != item[..want] || e.consumable_bytes() != n - want as u64 {
                    return bad("encoded", m as u64);
                }
            }
        }
        Ok(())
    }));
    us.push(unit("settings max enc", |ch| {
        let ns = [0u64, 1, 2, 3, 300];
        let mut cur = *ch.of(&ns);
        let mut e = bytecodec::bytes::BytesEncoder::<Vec<u8>>::new().max_bytes(cur);
        for _ in 0..3 {
            if ch.pick_bool() {
                let n = *ch.of(&ns);
                e.set_max_bytes(n).map_err(|e| format!("set_max_bytes: {:?}", e.kind()))?;
                cur = n;
            }
            if bytecodec::combinator::MaxBytes::max_bytes(&e) != cur {
                return Err(format!("max_bytes {} after setting {cur}", bytecodec::combinator::MaxBytes::max_bytes(&e)));
            }
            let n = cur as usize;
            let len = *ch.of(&[n, n.saturating_sub(1), n + 1, 0]);
            let item: Vec<u8> = (0..len).map(|x| x as u8).collect();
            e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
            let k = *ch.of(&[1usize, 2, 1000]);
            let mut out: Vec<u8> = vec![];
            let mut failed = false;
            while !e.is_idle() {
                let mut b = vec![0; k];
                match e.encode(&mut b, Eos::new(false)) {
                    Ok(m) => out.extend(&b[..m]),
                    Err(_) => {
                        failed = true;
                        break;
                    }
                }
                ch.step();
            }
            if failed != (len > n) || !failed && out != item {
                return Err(format!("{len} bytes under the limit {n}: failed={failed}, {} written", out.len()));
            }
            if failed {
                return Ok(());
            }
        }
        ch.valid();
        Ok(())
    }));
    us
}

/// The index of the item of a round: any in the first, one of two (quick) in the second.
fn next_item(ch: &mut Ch, i: usize, round: usize, n: usize, th: bool) -> usize {
    if round == 0 || th {
        ch.pick(n)
    } else {
        (i + ch.pick(n.min(2))) % n
    }
}
pub fn c15(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every term (plain and sized) x items x every sequence of buffer sizes with two further items offered before every call; every sequence of 3 items with refused ones in any position; every fixed-width encoder x boundary values".into());
    let mut us = vec![];
    for t in eterm::terms(th) {
        let items = eterm::items(&t);
        us.push(unit(lbl("busy", &t), move |ch| {
            let Some(mut e) = variant(&t, ch.pick_bool()) else { return ch.skip() };
            let mut i0 = 0;
            for round in 0..2 {
                i0 = next_item(ch, i0, round, items.len(), th);
                let item = &items[i0];
                let n = need(&t, item);
                let mode = if round == 0 { [EMode::Never, EMode::At(n), EMode::At(n + 2), EMode::Late(n)][ch.pick(4)] } else { EMode::At(n + 1) };
                ch.log(|| format!("{t:?} <- {item:?} mode {mode:?}"));
                let look = ELook { busy: true, size: true };
                let r = if round == 1 || n > 6 {
                    drain(ch, &t, &mut *e, item, mode, &mut from_sizes(vec![1, 0], 1), look)?
                } else {
                    drain(ch, &t, &mut *e, item, mode, &mut all_sizes(usize::from(n < 3), n + 1), look)?
                };
                ch.valid();
                match r {
                    EOut::Done(_) => {}
                    EOut::Refused(_) if !eterm::partial_start(&t, item) => {
                        // refused: still idle, nothing to emit
                        sizes(&t, &eterm::ES::default(), &mut *e, 0, false)?;
                        let mut buf = [0x55u8; 4];
                        match e.e().encode(&mut buf, Eos::new(true)) {
                            Ok(0) if buf == [0x55; 4] => {}
                            r => return Err(format!("refused item left something behind: {} ({t:?}, {item:?})", res(&r))),
                        }
                    }
                    _ => return Ok(()),
                }
            }
            Ok(())
        }));
    }
    for t in eterm::terms(th) {
        let items = eterm::items(&t);
        us.push(unit(lbl("refuse", &t), move |ch| {
            if items.iter().all(|i| eterm::espec(&t, i).start.is_none()) {
                return ch.skip();
            }
            let Some(mut e) = variant(&t, ch.pick_bool()) else { return ch.skip() };
            for _ in 0..3 {
                let item = &items[ch.pick(items.len())];
                let n = need(&t, item);
                let look = ELook { busy: false, size: true };
                match drain(ch, &t, &mut *e, item, EMode::At(n + 1), &mut biggest(), look)? {
                    EOut::Done(_) => {}
                    EOut::Refused(_) if !eterm::partial_start(&t, item) => {}
                    _ => return Ok(()),
                }
                ch.valid();
            }
            Ok(())
        }));
    }
    for f in fix::FIXES {
        let f = *f;
        us.push(unit(format!("refuse {}", f.name), move |ch| {
            let t = E::Fix(f);
            let mut vals: Vec<u64> = vec![0, 1, 2, 255, 256];
            for s in 1..64 {
                vals.extend([1u64 << s, (1u64 << s) - 1]);
            }
            vals.push(u64::MAX);
            let mut e = plain(&t);
            // values outside of the item type are truncated by the harness, not by the encoder
            let ty_bits = match f.width {
                1 => 8,
                2 => 16,
                3 | 4 => 32,
                _ => 64,
            };
            let trunc = |x: u64| {
                let x = if ty_bits == 64 { x } else { x & ((1 << ty_bits) - 1) };
                if f.signed && ty_bits < 64 && x >> (ty_bits - 1) == 1 { x | (u64::MAX << ty_bits) } else { x }
            };
            for _ in 0..2 {
                let x = trunc(vals[ch.pick(vals.len())]);
                let look = ELook { busy: true, size: true };
                drain(ch, &t, &mut *e, &V::N(x), EMode::Never, &mut always(1), look)?;
            }
            ch.valid();
            Ok(())
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, item)) in eladder(n).into_iter().enumerate() {
            if n > 5000 && matches!(item, V::L(_)) {
                continue;
            }
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let mut e = plain(&t);
                let m = need(&t, &item);
                let c = scale::cuts(m);
                drain(ch, &t, &mut *e, &item, EMode::Never, &mut from_sizes(c, 1), ELook { busy: true, size: false })?;
                ch.valid();
                Ok(())
            }));
        }
    }
    us
}

// ---------------------------------------------------------------- C06

/// The decoder that reads back what the encoder writes.
pub fn dual(t: &E) -> Option<D> {
    use dterm::bx;
    Some(match t {
        E::Fix(f) => D::Fix(*f),
        E::Bytes => D::Rest,
        E::Utf8 => D::Utf8,
        E::Pad => D::Pad(None),
        E::Null => D::Null,
        E::Json => D::Json,
        E::Line => D::Line,
        E::MapFrom(e) => D::Map(bx(dual(e)?)),
        E::TryMapFrom(e) => D::TryMap(bx(dual(e)?)),
        E::MapErr(k, e) => D::MapErr(*k, bx(dual(e)?)),
        E::Optional(e) => D::Omit(false, bx(dual(e)?)),
        E::Repeat(e) => D::Collect(bx(dual(e)?)),
        E::Length(n, e) => D::Length(*n, bx(dual(e)?)),
        E::Max(n, e) => {
            let d = dual(e)?;
            if dterm::until_eos(&d) {
                D::Max(*n, bx(d))
            } else {
                D::Max(1000 + *n, bx(d))
            }
        }
        E::Tup(es) => {
            let mut v = vec![];
            for e in es {
                v.push(dual(e)?);
            }
            D::Tup(v)
        }
        E::Pre(e) => dual(e)?,
        E::Slice(e) => D::Slice(bx(dual(e)?)),
        E::Boxed(e) => D::Boxed(bx(dual(e)?)),
        E::Last(_) => return None,
    })
}
/// The item the dual decoder yields for an encoded item; `None` if the pair cannot represent it.
fn proj(t: &E, v: &V) -> Option<V> {
    Some(match (t, v) {
        (E::Pad, _) => V::Unit,
        (E::Null, _) => V::Unit,
        (E::Json, V::S(s)) => V::S(serde_json::Value::String(s.clone()).to_string()),
        (E::MapFrom(e) | E::TryMapFrom(e), V::T(p)) => V::T(vec![p[0].clone(), proj(e, &p[1])?]),
        (E::Optional(e), V::O(Some(x))) => V::O(Some(Box::new(proj(e, x)?))),
        (E::Optional(_), _) => return None,
        (E::Repeat(e), V::L(l)) => {
            let mut o = vec![];
            for x in l {
                if need(e, x) == 0 {
                    return None;
                }
                o.push(proj(e, x)?);
            }
            V::L(o)
        }
        (E::Tup(es), V::T(p)) => {
            let mut o = vec![];
            for (e, x) in es.iter().zip(p) {
                o.push(proj(e, x)?);
            }
            V::T(o)
        }
        (E::MapErr(_, e) | E::Length(_, e) | E::Max(_, e) | E::Pre(e) | E::Slice(e) | E::Boxed(e), _) => proj(e, v)?,
        _ => v.clone(),
    })
}
/// Terms whose greedy parts stand only where the end of stream follows.
fn sane(d: &D) -> bool {
    !dterm::any(d, &|x| match x {
        D::Tup(v) => v[..v.len() - 1].iter().any(open_ended),
        D::Collect(i) => open_ended(i),
        _ => false,
    })
}
fn open_ended(d: &D) -> bool {
    match d {
        D::Length(..) => false,
        D::Rest | D::Utf8 | D::Pad(_) | D::Json | D::Collect(_) => true,
        D::Map(d) | D::TryMap(d) | D::MapErr(_, d) | D::Omit(false, d) | D::Max(_, d) | D::Slice(d) | D::Peek(d)
        | D::Maybe(d) | D::Boxed(d) | D::Utf8With(d) => open_ended(d),
        D::Tup(v) => v.iter().any(open_ended),
        _ => false,
    }
}

pub fn c06(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("every encoder term with a dual decoder x sequences of up to 3 items x buffer sizes on the encoding side x chunk sizes on the decoding side; every fixed-width pair x boundary values of every bit position; length- and count-prefixed framing; size ladder".into());
    let mut us = vec![];
    b.push("13 decoders that pass bytes on, items of 2^17..2^21 (2^24) bytes, give or take one, in one or two pieces or through buffers".into());
    for n in value::huge(th) {
        for kind in 0..value::DECODERS.len() {
            us.push(unit(format!("huge decoding {n} {}", value::DECODERS[kind]), move |ch| value::decoding(ch, kind, n)));
        }
    }
    b.push("11 encoders that pass bytes on, items of 2^17..2^21 (2^24) bytes, give or take one, into several patterns of buffers".into());
    for n in value::huge(th) {
        for kind in 0..value::ENCODERS.len() {
            us.push(unit(format!("huge encoding {n} {}", value::ENCODERS[kind]), move |ch| value::encoding(ch, kind, n)));
        }
    }
    let mut ts = eterm::terms(th);
    for f in fix::FIXES {
        ts.push(E::Fix(*f));
        ts.push(E::Tup(vec![E::Fix(*f), E::Fix(fix::U8), E::Fix(*f)]));
        ts.push(E::Repeat(bx(E::Fix(*f))));
    }
    let mut seen = std::collections::HashSet::new();
    ts.retain(|t| seen.insert(t.clone()));
    for t in ts {
        let Some(d) = dual(&t) else { continue };
        if !sane(&d) || !dterm::well_formed(&d) {
            continue;
        }
        us.push(unit(lbl("pair", &t), move |ch| pair(ch, &t, &d, th)));
    }
    for f in fix::FIXES {
        let f = *f;
        us.push(unit(format!("values {}", f.name), move |ch| {
            let bits = f.width as u32 * 8;
            let s = ch.pick(bits as usize * 4);
            let (i, j) = ((s / 4) as u32, s % 4);
            let x = match j {
                0 => 1u64 << i,
                1 => (1u64 << i).wrapping_sub(1),
                2 => !(1u64 << i),
                _ => 0x0102_0304_0506_0708u64.rotate_left(i),
            };
            let x = if bits == 64 { x } else { x & ((1 << bits) - 1) };
            let x = if f.signed && bits < 64 && x >> (bits - 1) == 1 { x | (u64::MAX << bits) } else { x };
            let t = E::Fix(f);
            let out = encode_with(ch, &t, &mut *plain(&t), &V::N(x), 1)?;
            let kd = *ch.of(&[usize::MAX, 1]);
            decode_back(ch, &D::Fix(f), &mut *dterm::build(&D::Fix(f)), &out, &V::N(x), kd, false)?;
            ch.valid();
            Ok(())
        }));
    }
    for n in scale::ladder(th) {
        for (i, (t, item)) in eladder(n).into_iter().enumerate() {
            let Some(d) = dual(&t) else { continue };
            let s = eterm::espec(&t, &item);
            if !sane(&d) || s.start.is_some() || s.fail.is_some() || s.tail.is_some() || !dterm::well_formed(&d) {
                continue;
            }
            let Some(want) = proj(&t, &item) else { continue };
            us.push(unit(format!("ladder {n}/{i} {}", short(&t)), move |ch| {
                let k = *ch.of(&[0usize, 255, 1024, 1000]);
                let out = encode_with(ch, &t, &mut *plain(&t), &item, k)?;
                let kd = *ch.of(&[usize::MAX, 256, 1023, 4096]);
                decode_back(ch, &d, &mut *dterm::build(&d), &out, &want, kd, true)?;
                ch.valid();
                Ok(())
            }));
        }
        // length prefix, count prefix
        if n < 65536 {
            us.push(unit(format!("prefixed {n}"), move |ch| {
                let counted = ch.pick_bool();
                if counted && n > 5000 {
                    return ch.skip();
                }
                let data: Vec<u8> = (0..n).map(|i| (i * 3) as u8).collect();
                let (t, item, d, want) = if counted {
                    let l = V::L(data.iter().map(|b| V::N(u64::from(*b))).collect());
                    (
                        E::Tup(vec![E::Fix(fix::U16BE), E::Repeat(bx(E::Fix(fix::U8)))]),
                        V::T(vec![V::N(n as u64), l.clone()]),
                        D::AndThen(dterm::bx(D::Fix(fix::U16BE)), dterm::Next::Count(dterm::bx(D::Fix(fix::U8)))),
                        l,
                    )
                } else {
                    (
                        E::Tup(vec![E::Fix(fix::U16BE), E::Bytes]),
                        V::T(vec![V::N(n as u64), V::B(data.clone())]),
                        D::AndThen(dterm::bx(D::Fix(fix::U16BE)), dterm::Next::Len(dterm::bx(D::Rest))),
                        V::B(data),
                    )
                };
                let want = if counted { want } else { want };
                let k = *ch.of(&[0usize, 1, 255, 1024]);
                if k == 1 && n > 2000 {
                    return ch.skip();
                }
                let mut e = plain(&t);
                let mut d2 = dterm::build(&d);
                let mut stream = vec![];
                for _ in 0..2 {
                    stream.extend(encode_with(ch, &t, &mut *e, &item, k)?);
                }
                // and_then's number is the whole 16 bit value
                let kd = *ch.of(&[usize::MAX, 1, 256, 1023]);
                let mut pos = 0;
                for _ in 0..2 {
                    pos += decode_back(ch, &d, &mut *d2, &stream[pos..], &want, kd, false)?;
                }
                if pos != stream.len() {
                    return Err(format!("{pos} of {} bytes consumed", stream.len()));
                }
                ch.valid();
                Ok(())
            }));
        }
    }
    us
}
/// Encodes one item, with the end announced only if the item needs it.
fn encode_with(ch: &mut Ch, t: &E, e: &mut dyn Enc, item: &V, k: usize) -> Result<Vec<u8>, String> {
    let s = eterm::espec(t, item);
    let mode = if s.tail.is_some() { EMode::At(s.bytes.len() + 2) } else { EMode::Never };
    match drain(ch, t, e, item, mode, &mut always(k), ELook::default())? {
        EOut::Done(v) => Ok(v),
        r => Err(format!("encoding gave {} ({t:?}, {})", cut(&format!("{r:?}")), cut(&format!("{item:?}")))),
    }
}
/// Decodes one item from the front of `inp`; with `whole`, the stream ends behind it.
fn decode_back(ch: &mut Ch, t: &D, d: &mut dyn bytecodec::Decode<Item = V>, inp: &[u8], want: &V, k: usize, whole: bool) -> Result<usize, String> {
    let mode = if whole { Mode::WithLast } else { Mode::Open };
    let r = feed(ch, t, d, inp, mode, &mut Cutter::new(Chunks::Every(k)), Look::default())?;
    match r {
        Out::Item { used, val: Ok(v) } if v == *want => {
            if whole && used != inp.len() {
                return Err(format!("{used} of {} encoded bytes consumed ({t:?})", inp.len()));
            }
            Ok(used)
        }
        r => Err(format!("encoded item came back as {}, expected {} ({t:?}, bytes {})", cut(&format!("{r:?}")), cut(&format!("{want:?}")), hex(inp))),
    }
}
fn pair(ch: &mut Ch, t: &E, d: &D, _th: bool) -> Case {
    let items: Vec<V> = eterm::items(t)
        .into_iter()
        .filter(|i| {
            let s = eterm::espec(t, i);
            s.start.is_none() && s.fail.is_none() && !s.doomed && proj(t, i).is_some()
        })
        .filter(|i| {
            // the pair must be able to represent the item at all (limits)
            let s = eterm::espec(t, i);
            let mut b = s.bytes.clone();
            if let Some(x) = s.tail {
                b.extend([x; 2]);
            }
            !matches!(final_out(d, &b, Mode::WithLast), Out::Fail { .. } | Out::Item { val: Err(_), .. }) || !limited(d)
        })
        .collect();
    if items.is_empty() {
        return ch.skip();
    }
    let greedy = open_ended(d);
    let n = 1 + ch.pick(3);
    if n > 1 && items.len() > 4 && n == 3 {
        // long item lists: the first items only
    }
    let mut e = plain(t);
    let mut dd = dterm::build(d);
    let ke = *ch.of(&[0usize, 1, 2]);
    let kd = *ch.of(&[usize::MAX, 1, 2]);
    let mut stream = vec![];
    let mut wants = vec![];
    for _ in 0..n {
        let m = if n == 3 { items.len().min(4) } else { items.len() };
        let item = &items[ch.pick(m)];
        let out = encode_with(ch, t, &mut *e, item, ke)?;
        let want = proj(t, item).unwrap();
        ch.log(|| format!("{item:?} -> {}", hex(&out)));
        if greedy {
            decode_back(ch, d, &mut *dd, &out, &want, kd, true)?;
        } else {
            wants.push((want, out.len()));
            stream.extend(out);
        }
    }
    let mut pos = 0;
    for (w, len) in wants {
        let u = decode_back(ch, d, &mut *dd, &stream[pos..], &w, kd, false)?;
        if u != len {
            return Err(format!("{u} bytes consumed, {len} encoded ({t:?})"));
        }
        pos += u;
    }
    ch.valid();
    ch.outcome(&stream);
    Ok(())
}
fn limited(d: &D) -> bool {
    dterm::any(d, &|x| matches!(x, D::Length(..) | D::Max(..) | D::TryMap(_)))
}
