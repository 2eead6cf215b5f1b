//! C12: slices as parts of other codecs.  The budget of every slice of a term is taken from one purse
//! that is refilled between calls, so parts are suspended and resumed in the middle of a composition.
use super::dec::{final_out, lbl, same};
use crate::core::*;
use crate::drive::*;
use crate::dterm::{self, D};
use crate::eterm::{self, E};
use crate::val::*;
use bytecodec::combinator::Slice;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, Result};
use std::cell::Cell;

thread_local! {
    static PURSE: Cell<Option<u64>> = const { Cell::new(None) };
}
/// While it lives, slices are built with the purse as their budget.
struct Open;
impl Open {
    fn new() -> Self {
        PURSE.with(|p| p.set(Some(0)));
        Open
    }
}
impl Drop for Open {
    fn drop(&mut self) {
        PURSE.with(|p| p.set(None));
    }
}
pub fn on() -> bool {
    purse().is_some()
}
fn purse() -> Option<u64> {
    PURSE.with(|p| p.get())
}
fn fill(n: u64) {
    PURSE.with(|p| p.set(Some(n)));
}
fn left() -> u64 {
    purse().expect("HARNESS: no purse")
}

pub struct Gate<T>(pub Slice<T>);
impl<D: Decode> Decode for Gate<D> {
    type Item = D::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.set_consumable_bytes(left());
        let r = self.0.decode(buf, eos);
        fill(self.0.consumable_bytes());
        r
    }
    fn finish_decoding(&mut self) -> Result<D::Item> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<C: Encode> Encode for Gate<C> {
    type Item = C::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.set_consumable_bytes(left());
        let r = self.0.encode(buf, eos);
        fill(self.0.consumable_bytes());
        r
    }
    fn start_encoding(&mut self, item: C::Item) -> Result<()> {
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}

fn dterms(th: bool) -> Vec<D> {
    let leaves = if th { dterm::leaves() } else { dterm::few_leaves() };
    let gated: Vec<D> = leaves.iter().map(|d| D::Slice(Box::new(d.clone()))).collect();
    let mut v = gated.clone();
    let d2: Vec<D> = gated.iter().flat_map(dterm::unary).collect();
    v.extend(d2.iter().cloned());
    v.extend(dterm::pairs(&gated, &leaves));
    v.extend(dterm::pairs(&leaves, &gated));
    v.extend(dterm::pairs(&gated, &gated));
    for l in &leaves {
        for t in dterm::unary(l) {
            v.push(D::Slice(Box::new(t)));
        }
    }
    let few: Vec<D> = dterm::few_leaves().iter().map(|d| D::Slice(Box::new(d.clone()))).collect();
    for d in few.iter().flat_map(dterm::unary) {
        v.extend(dterm::unary(&d));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| dterm::well_formed(t) && dterm::any(t, &|x| matches!(x, D::Slice(_))) && seen.insert(t.clone()));
    v
}
/// `pre_encode` encodes everything at once and cannot wait for a refill.
fn waits(t: &E) -> bool {
    eterm::any(t, &|x| matches!(x, E::Pre(e) if eterm::any(e, &|y| matches!(y, E::Slice(_)))))
}
fn eterms(th: bool, pre: bool) -> Vec<E> {
    let leaves = if th { eterm::leaves() } else { eterm::few_leaves() };
    let gated: Vec<E> = leaves.iter().map(|d| E::Slice(Box::new(d.clone()))).collect();
    let mut v = gated.clone();
    v.extend(gated.iter().flat_map(eterm::unary));
    v.extend(eterm::pairs(&gated, &leaves));
    v.extend(eterm::pairs(&leaves, &gated));
    v.extend(eterm::pairs(&gated, &gated));
    for l in &leaves {
        for t in eterm::unary(l) {
            v.push(E::Slice(Box::new(t)));
        }
    }
    let few: Vec<E> = eterm::few_leaves().iter().map(|d| E::Slice(Box::new(d.clone()))).collect();
    for d in few.iter().flat_map(eterm::unary) {
        v.extend(eterm::unary(&d));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| eterm::well_formed(t) && (pre || !waits(t)) && eterm::any(t, &|x| matches!(x, E::Slice(_))) && seen.insert(t.clone()));
    v
}

pub fn units(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push(format!(
        "slices as parts of compositions (every term of depth 2 and many of depth 3 around or with a slice): streams of up to {} bytes / small items x chunks and buffers of 1, 2 or all bytes x 4 ways of announcing the end x budgets of 0, 1, 2 or unlimited bytes before each of the first {} calls",
        if th { 5 } else { 4 },
        if th { 4 } else { 3 }
    ));
    let mut us = vec![];
    for t in dterms(th) {
        us.push(unit(lbl("part decode", &t), move |ch| decode(ch, &t, th)));
    }
    for t in eterms(th, false) {
        us.push(unit(super::enc::lbl("part encode", &t), move |ch| encode(ch, &t, th)));
    }
    us.extend(buffers(th, b, true, true));
    b.push("the same compositions, given a budget of 0 to 6 bytes or none to decode_exact, encode_all and encode_into_bytes: they return, with the item if the budget suffices".into());
    for t in dterms(th) {
        us.push(unit(lbl("part decode_exact", &t), move |ch| exact(ch, &t)));
    }
    for t in eterms(th, true) {
        us.push(unit(super::enc::lbl("part encode_all", &t), move |ch| all(ch, &t)));
    }
    us
}
/// Also part of C16 and C17.
pub fn buffers(th: bool, b: &mut Vec<String>, read: bool, write: bool) -> Vec<Unit> {
    b.push("compositions with suspended and resumed slices through read/write buffers of 1, 2, 3 or 5 bytes, budgets of 0, 1, 2 or unlimited bytes before each of the first 3 (4) calls, filling/flushing every time or only when empty/full".into());
    let mut us = vec![];
    if read {
        for t in dterms(th) {
            us.push(unit(lbl("part read buffer", &t), move |ch| from_buffer(ch, &t, th)));
        }
    }
    if write {
        for t in eterms(th, false) {
            us.push(unit(super::enc::lbl("part write buffer", &t), move |ch| to_buffer(ch, &t, th)));
        }
    }
    us
}
fn stream(ch: &mut Ch, t: &D) -> Vec<u8> {
    let (alpha, max) = dterm::inputs(t, false);
    let alpha: Vec<u8> = alpha.into_iter().take(3).collect();
    pick_input(ch, &alpha, max.min(if alpha.is_empty() { 5 } else { 4 }))
}
fn from_buffer(ch: &mut Ch, t: &D, th: bool) -> Case {
    let inp = stream(ch, t);
    let _open = Open::new();
    let mut d = dterm::build(t);
    let mut buf = ReadBuf::new(vec![0xEE; [5, 1, 2, 3][ch.pick(4)]]);
    let eager = ch.pick_bool();
    let mut free = if th { 4 } else { 3 };
    let mut rd = &inp[..];
    let mut used = 0;
    let ih = fx(&inp);
    let mut calls = 0;
    let out = loop {
        if eager || buf.is_empty() {
            buf.fill(&mut rd).map_err(|e| format!("fill: {:?}", e.kind()))?;
        }
        refill(ch, &mut free);
        let (before, len, ended) = (left(), buf.len(), buf.stream_state().is_eos());
        if len + used + rd.len() != inp.len() {
            return Err(format!("{len} bytes in the buffer, {used} used, {} not read, of {} ({t:?})", rd.len(), inp.len()));
        }
        let r = d.decode_from_read_buf(&mut buf);
        ch.step();
        let idle = d.is_idle();
        ch.log(|| format!("budget {before}: decode_from_read_buf, {len} bytes, eos={ended} -> {} idle={idle}, {} bytes left", res(&r), buf.len()));
        ch.state(&(used, len, before, left(), idle, ih));
        if buf.len() > len {
            return Err(format!("decoding from a buffer of {len} bytes leaves {} ({t:?})", buf.len()));
        }
        used += len - buf.len();
        if let Err(e) = r {
            break Out::Fail { used, kind: k(*e.kind()) };
        }
        if idle {
            break Out::Item { used, val: take(&mut *d) };
        }
        if !buf.is_empty() && left() > 0 {
            return Err(format!("unfinished decoder left {} bytes in the buffer with a budget of {} ({t:?}, input {})", buf.len(), left(), hex(&inp)));
        }
        if ended && len == 0 {
            break Out::Pending { used };
        }
        calls += 1;
        if calls > 64 {
            return Err(format!("the decoder does not progress ({t:?}, input {})", hex(&inp)));
        }
    };
    ch.outcome(&format!("{out:?}"));
    let f = final_out(t, &inp, Mode::Late);
    if !same(&out, &f) {
        return Err(format!("suspended and resumed: {out:?}, expected {f:?} ({t:?}, input {})", hex(&inp)));
    }
    ch.valid();
    Ok(())
}
/// An accepted item that is going to be encoded in full.
fn started(ch: &mut Ch, t: &E) -> std::result::Result<Option<(V, Vec<u8>)>, String> {
    let items = eterm::items(t);
    let item = ch.of(&items).clone();
    let s = eterm::espec(t, &item);
    Ok(if s.start.is_some() || s.fail.is_some() || s.tail.is_some() || s.bytes.len() > 8 { None } else { Some((item, s.bytes)) })
}
fn to_buffer(ch: &mut Ch, t: &E, th: bool) -> Case {
    let Some((item, bytes)) = started(ch, t)? else { return Ok(()) };
    let _open = Open::new();
    let mut e = eterm::build(t);
    e.start_encoding(item.clone()).map_err(|e| format!("start_encoding: {:?} ({t:?}, {item:?})", e.kind()))?;
    let mut buf = WriteBuf::new(vec![0xEE; [5, 1, 2, 3][ch.pick(4)]]);
    let eager = ch.pick_bool();
    let mut free = if th { 4 } else { 3 };
    let mut out: Vec<u8> = vec![];
    let ih = fx(&item);
    let mut calls = 0;
    while !e.is_idle() {
        refill(ch, &mut free);
        let before = left();
        let len = buf.len();
        let r = e.encode_to_write_buf(&mut buf);
        ch.step();
        ch.log(|| format!("budget {before}: encode_to_write_buf -> {}, {} bytes", res(&r), buf.len()));
        ch.state(&(out.len(), len, buf.len(), before, left(), ih));
        if let Err(e) = r {
            return Err(format!("encode_to_write_buf failed with {:?} ({t:?}, {item:?})", e.kind()));
        }
        if !e.is_idle() && !buf.is_full() && left() > 0 {
            return Err(format!("unfinished encoder left {} bytes of the buffer with a budget of {} ({t:?}, {item:?})", buf.room(), left()));
        }
        if eager || buf.is_full() || e.is_idle() {
            buf.flush(&mut out).map_err(|e| format!("flush: {:?}", e.kind()))?;
        }
        calls += 1;
        if calls > 64 {
            return Err(format!("the encoder does not progress ({t:?}, {item:?})"));
        }
    }
    if out != bytes || !buf.is_empty() {
        return Err(format!("suspended and resumed: {} written, expected {} ({t:?}, {item:?})", hex(&out), hex(&bytes)));
    }
    ch.outcome(&out);
    ch.valid();
    Ok(())
}
const BUDGETS: [u64; 8] = [u64::MAX, 0, 1, 2, 3, 4, 5, 6];
fn exact(ch: &mut Ch, t: &D) -> Case {
    let inp = stream(ch, t);
    let budget = BUDGETS[ch.pick(8)];
    let _open = Open::new();
    let mut d = dterm::build(t);
    fill(budget);
    let r = d.decode_exact(&inp[..]);
    ch.step();
    ch.log(|| format!("{t:?} on {}, budget {budget}: decode_exact -> {}, {} left", hex(&inp), res(&r), left()));
    ch.state(&(fx(&inp), budget, left()));
    let (want, used) = super::dec::exact_out(t, &inp);
    match (&r, &want) {
        (Ok(v), Ok(w)) if v == w => {}
        (Ok(_), _) => return Err(format!("decode_exact -> {}, expected {want:?} ({t:?}, input {}, budget {budget})", res(&r), hex(&inp))),
        (Err(_), Ok(_)) if left() > 0 || used.is_some_and(|u| u as u64 <= budget) => {
            return Err(format!("decode_exact -> {}, expected {want:?} ({t:?}, input {}, budget {budget}, {} left)", res(&r), hex(&inp), left()))
        }
        _ => {}
    }
    ch.valid();
    Ok(())
}
fn all(ch: &mut Ch, t: &E) -> Case {
    let Some((item, bytes)) = started(ch, t)? else { return Ok(()) };
    let budget = BUDGETS[ch.pick(8)];
    let whole = ch.pick_bool();
    let _open = Open::new();
    let mut e = eterm::build(t);
    fill(budget);
    let mut out: Vec<u8> = vec![];
    let r = if whole {
        e.encode_into_bytes(item.clone()).map(|b| out = b)
    } else {
        e.start_encoding(item.clone()).and_then(|()| e.encode_all(&mut out))
    };
    ch.step();
    ch.log(|| format!("{t:?}, {item:?}, budget {budget}: {} -> {}, {} left", if whole { "encode_into_bytes" } else { "encode_all" }, res(&r), left()));
    ch.state(&(fx(&item), budget, left(), out.len()));
    // bytes encoded in advance may pass two slices, one after the other
    let cost = bytes.len() as u64 * if waits(t) { 2 } else { 1 };
    let ok = match &r {
        Ok(()) => out == bytes,
        Err(_) => left() == 0 && cost > budget && bytes.starts_with(&out),
    };
    if !ok {
        return Err(format!("{} -> {}, {} written, expected {} ({t:?}, {item:?}, budget {budget}, {} left)", if whole { "encode_into_bytes" } else { "encode_all" }, res(&r), hex(&out), hex(&bytes), left()));
    }
    ch.valid();
    Ok(())
}
/// The budget before the next call.
fn refill(ch: &mut Ch, free: &mut usize) {
    if *free == 0 {
        fill(u64::MAX);
        return;
    }
    *free -= 1;
    match ch.pick(4) {
        0 => fill(u64::MAX),
        1 => fill(1),
        2 => fill(2),
        _ => fill(0),
    }
}

fn decode(ch: &mut Ch, t: &D, th: bool) -> Case {
    let (alpha, max) = dterm::inputs(t, false);
    let alpha: Vec<u8> = if th { alpha } else { alpha.into_iter().take(3).collect() };
    let mode = MODES[ch.pick(4)];
    let inp = pick_input(ch, &alpha, max.min(if alpha.is_empty() { 5 } else { 4 }).min(if th { 5 } else { 4 }));
    ch.log(|| format!("{t:?} on {} mode {mode:?}", hex(&inp)));
    let _open = Open::new();
    let mut d = dterm::build(t);
    let cap = [usize::MAX, 1, 2][ch.pick(3)];
    let mut free = if th { 4 } else { 3 };
    // Two items, if there are two and the decoder can be used again.
    let mut rest = &inp[..];
    for round in 0..2 {
        let out = decode_one(ch, t, &mut *d, rest, mode, cap, &mut free)?;
        ch.outcome(&format!("{out:?}"));
        let f = final_out(t, rest, mode);
        if !same(&out, &f) {
            return Err(format!("suspended and resumed, item {round}: {out:?}, expected {f:?} ({t:?}, input {}, {mode:?})", hex(rest)));
        }
        match out {
            Out::Item { used, val: Ok(_) } if used < rest.len() && used > 0 && dterm::reusable(t) => rest = &rest[used..],
            _ => break,
        }
    }
    ch.valid();
    Ok(())
}
fn decode_one(ch: &mut Ch, t: &D, d: &mut dyn Decode<Item = V>, inp: &[u8], mode: Mode, cap: usize, free: &mut usize) -> std::result::Result<Out, String> {
    let len = inp.len();
    let mut off = 0;
    let mut announced = false;
    let ih = fx(inp);
    Ok(loop {
        refill(ch, free);
        let before = left();
        let rest = len - off;
        let n = rest.min(cap);
        let last = n == rest;
        let eos = match mode {
            Mode::Open => Eos::new(false),
            Mode::WithLast => Eos::new(last),
            Mode::Late => {
                announced = rest == 0;
                Eos::new(announced)
            }
            Mode::Known => finite((rest - n) as u64),
        };
        let r = d.decode(&inp[off..off + n], eos);
        ch.step();
        let after = left();
        let idle = d.is_idle();
        ch.log(|| format!("budget {before}: decode({n} bytes{}) -> {} idle={idle}, {after} left", if eos.is_reached() { ", eos" } else { "" }, res(&r)));
        ch.state(&(off, n, before, after, idle, ih));
        let s = match r {
            Err(e) => break Out::Fail { used: off, kind: k(*e.kind()) },
            Ok(s) => s,
        };
        if s > n {
            return Err(format!("decode reported {s} consumed bytes out of {n} offered ({t:?})"));
        }
        if after > before || before - after > s as u64 {
            return Err(format!("{s} bytes consumed, but the budget went from {before} to {after} ({t:?})"));
        }
        if matches!(t, D::Slice(_)) && before - after != s as u64 {
            return Err(format!("{s} bytes consumed, but the budget went from {before} to {after} ({t:?})"));
        }
        off += s;
        if idle {
            break Out::Item { used: off, val: take(d) };
        }
        if s < n {
            if after > 0 {
                return Err(format!("unfinished decoder left {} of {n} offered bytes with a budget of {after} ({t:?}, input {})", n - s, hex(inp)));
            }
            continue;
        }
        if match mode {
            Mode::Late => announced,
            _ => last,
        } {
            break Out::Pending { used: off };
        }
    })
}

fn encode(ch: &mut Ch, t: &E, th: bool) -> Case {
    let items = eterm::items(t);
    let item = ch.of(&items).clone();
    let s = eterm::espec(t, &item);
    let _open = Open::new();
    let mut e = eterm::build(t);
    // Failing items and outputs to the end of the stream are the business of other units.
    let simple = s.start.is_none() && s.fail.is_none() && s.tail.is_none() && s.bytes.len() <= 8;
    let (mode, cap) = if simple { (ch.pick(3), [usize::MAX, 1, 2][ch.pick(3)]) } else { (0, usize::MAX) };
    let mut free = if th { 4 } else { 3 };
    // The same item twice.
    for _ in 0..2 {
        let r = e.start_encoding(item.clone());
        ch.step();
        match (&r, s.start) {
            (Err(e), Some(ks)) if ks.has(*e.kind()) => return Ok(()),
            (Ok(()), None) => {}
            _ => return Err(format!("start_encoding -> {}, expected {:?} ({t:?}, {item:?})", res(&r), s.start)),
        }
        if !simple {
            return Ok(());
        }
        let total = s.bytes.len();
        let mut out: Vec<u8> = vec![];
        let ih = fx(&item);
        let mut calls = 0;
        while !e.is_idle() {
            refill(ch, &mut free);
            let before = left();
            let rest = total - out.len();
            // exactly as much space as is needed, or two bytes more
            let space = if mode == 0 { rest + 2 } else { rest };
            let n = space.min(cap);
            let eos = match mode {
                0 => Eos::new(false),
                1 => Eos::new(n == space),
                _ => finite((space - n) as u64),
            };
            let mut buf = vec![0xEE; n];
            let r = e.encode(&mut buf, eos);
            ch.step();
            let after = left();
            let idle = e.is_idle();
            ch.log(|| format!("budget {before}: encode({n} bytes{}) -> {} idle={idle}, {after} left", if eos.is_reached() { ", eos" } else { "" }, res(&r)));
            ch.state(&(out.len(), n, before, after, idle, ih));
            let m = match r {
                Ok(m) => m,
                Err(e) => return Err(format!("encode failed with {:?} ({t:?}, {item:?}, {} emitted, buffer {n}, budget {before})", e.kind(), out.len())),
            };
            if m > n || buf[m..].iter().any(|b| *b != 0xEE) {
                return Err(format!("encode reported {m} bytes, buffer {} ({t:?}, {item:?})", hex(&buf)));
            }
            if after > before || before - after > m as u64 {
                return Err(format!("{m} bytes written, but the budget went from {before} to {after} ({t:?}, {item:?})"));
            }
            if matches!(t, E::Slice(_)) && before - after != m as u64 {
                return Err(format!("{m} bytes written, but the budget went from {before} to {after} ({t:?}, {item:?})"));
            }
            out.extend(&buf[..m]);
            if out.len() > total || out[..] != s.bytes[..out.len()] {
                return Err(format!("suspended and resumed: {} written, expected {} ({t:?}, {item:?})", hex(&out), hex(&s.bytes)));
            }
            if !idle && m < n && after > 0 {
                return Err(format!("unfinished encoder left {} of {n} bytes with a budget of {after} ({t:?}, {item:?})", n - m));
            }
            calls += 1;
            if calls > 64 {
                return Err(format!("the encoder does not progress ({t:?}, {item:?})"));
            }
        }
        if out != s.bytes {
            return Err(format!("suspended and resumed: {} written, expected {} ({t:?}, {item:?})", hex(&out), hex(&s.bytes)));
        }
        ch.outcome(&out);
    }
    ch.valid();
    Ok(())
}
