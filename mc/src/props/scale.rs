//! Size ladders: the same questions at sizes around every power of two and internal buffer size.
use crate::dterm::{bx, Next, D};
use crate::fix;

/// Every small size and everything around the thresholds code tends to have.
pub fn ladder(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 300 } else { 72 }).collect();
    for p in [96usize, 100, 127, 128, 200, 255, 256, 300, 511, 512, 1000, 1023, 1024, 1280, 1536, 2047, 2048, 3000, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536] {
        for d in [0i64, -1, 1, 2] {
            v.push((p as i64 + d) as usize);
        }
    }
    v.push(70_000);
    if thorough {
        v.extend([131_071, 131_072, 131_073, 1 << 20]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// Terms of size `n` and a stream for them.
pub fn dterms(n: usize) -> Vec<(D, Vec<u8>)> {
    let pos: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let with = |suffix: usize| {
        let mut p = pos.clone();
        p.extend((0..suffix).map(|i| 200 + i as u8));
        p
    };
    let text: Vec<u8> = {
        let mut s = String::new();
        while s.len() < n {
            if s.len() + 3 <= n && s.len() % 7 == 3 {
                s.push('€');
            } else if s.len() + 2 <= n && s.len() % 3 == 1 {
                s.push('é');
            } else {
                s.push('a');
            }
        }
        s.into_bytes()
    };
    let mut bad = text.clone();
    if n > 0 {
        bad[n - 1] = 0xFF;
    }
    let mut pad = vec![7u8; n];
    let mut v = vec![
        (D::Rest, pos.clone()),
        (D::Utf8, text.clone()),
        (D::Utf8, bad),
        (D::Pad(Some(7)), pad.clone()),
        (D::Pad(None), pos.clone()),
        (D::Once(n), with(3)),
        (D::Once(n), pos.clone()),
        (D::Once(n + 1), pos.clone()),
        (D::Length(n as u64, bx(D::Rest)), with(2)),
        (D::Length(n as u64, bx(D::Utf8)), { let mut t = text.clone(); t.push(1); t }),
        (D::Length(n as u64 + 1, bx(D::Rest)), pos.clone()),
        (D::Length(n as u64, bx(D::Once(n + 1))), with(2)),
        (D::Max(n as u64, bx(D::Rest)), pos.clone()),
        (D::Max(n as u64 + 1, bx(D::Rest)), pos.clone()),
        (D::Slice(bx(D::Rest)), pos.clone()),
        (D::Peek(bx(D::Rest)), pos.clone()),
        (D::Maybe(bx(D::Rest)), pos.clone()),
        (D::Omit(false, bx(D::Once(n))), with(1)),
        (D::Map(bx(D::Once(n))), with(1)),
        (D::Tup(vec![D::Once(n), D::Fix(fix::U8)]), with(3)),
        (D::Tup(vec![D::Fix(fix::U16BE), D::Once(n), D::Fix(fix::U8)]), with(4)),
        (D::Tup(vec![D::Fix(fix::U8), D::Rest]), with(1)),
        (D::Boxed(bx(D::Utf8With(bx(D::Once(n))))), { let mut t = text.clone(); t.push(1); t }),
    ];
    let mut line: Vec<u8> = pos.iter().map(|b| b | 5).collect();
    v.push((D::Line, line.clone()));
    line.extend([2, 2, 9]);
    v.push((D::Line, line.clone()));
    v.push((D::Run, line.clone()));
    v.push((D::Tup(vec![D::Line, D::Fix(fix::U8)]), line));
    if n > 0 {
        v.push((D::Max(n as u64 - 1, bx(D::Rest)), pos.clone()));
        pad[n - 1] = 8;
        v.push((D::Pad(Some(7)), pad));
    }
    if n < 65536 {
        let mut p = vec![(n >> 8) as u8, n as u8];
        p.extend(&pos);
        p.push(1);
        v.push((D::AndThen(bx(D::Fix(fix::U16BE)), Next::Len(bx(D::Rest))), p.clone()));
        if n <= 5000 {
            v.push((D::AndThen(bx(D::Fix(fix::U16BE)), Next::Count(bx(D::Fix(fix::U8)))), p));
        }
    }
    if n <= 5000 || [65535, 65536, 65537].contains(&n) {
        v.push((D::CollectN(n, bx(D::Fix(fix::U8))), with(2)));
        v.push((D::CollectN(n + 1, bx(D::Fix(fix::U8))), pos.clone()));
        v.push((D::Collect(bx(D::Fix(fix::U8))), pos.clone()));
        v.push((D::Collect(bx(D::Fix(fix::U16BE))), pos.clone()));
        v.push((D::CollectN(n / 3, bx(D::Fix(fix::U24LE))), pos.clone()));
        v.push((D::CollectN(n, bx(D::Null)), vec![1]));
    }
    if n >= 2 {
        let mut j = vec![b'x'; n];
        j[0] = b'"';
        j[n - 1] = b'"';
        v.push((D::Json, j.clone()));
        j[n - 1] = b'x';
        v.push((D::Json, j));
    }
    if [1, 2, 3, 4, 5, 7, 8, 16, 255, 256, 257, 1023, 1024, 1025, 2048, 65535, 65536, 65537].contains(&n) {
        v.push((D::Arr(n), with(2)));
    }
    v
}
pub fn cuts(n: usize) -> Vec<usize> {
    let mut v = vec![1, 2, 3, 8, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, n / 2, n.saturating_sub(1), n.saturating_sub(2)];
    v.retain(|&x| x > 0 && x < n);
    v.sort_unstable();
    v.dedup();
    v
}
