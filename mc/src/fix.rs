//! The fixed-width number codecs, by name, and an independent model of their representation.
use crate::dterm::BD;
use crate::eterm::{BE, BSE};
use crate::val::V;
use bytecodec::fixnum::*;
use bytecodec::{DecodeExt, EncodeExt};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Fix {
    pub idx: usize,
    pub name: &'static str,
    pub width: usize,
    pub signed: bool,
    pub float: bool,
    pub little: bool,
}

pub trait Num: Sized + Copy {
    fn to_raw(self) -> u64;
    fn from_raw(n: u64) -> Self;
}
macro_rules! num {
    ($($t:ty),*) => { $(impl Num for $t {
        fn to_raw(self) -> u64 { self as i128 as u64 }
        fn from_raw(n: u64) -> Self { n as $t }
    })* };
}
num!(u8, i8, u16, i16, u32, i32, u64, i64);
impl Num for f32 {
    fn to_raw(self) -> u64 {
        u64::from(self.to_bits())
    }
    fn from_raw(n: u64) -> Self {
        f32::from_bits(n as u32)
    }
}
impl Num for f64 {
    fn to_raw(self) -> u64 {
        self.to_bits()
    }
    fn from_raw(n: u64) -> Self {
        f64::from_bits(n)
    }
}

macro_rules! fixes {
    ($(($i:expr, $name:expr, $d:ident, $e:ident, $t:ty, $w:expr, $s:expr, $f:expr, $l:expr);)*) => {
        pub const FIXES: &[Fix] = &[$(Fix { idx: $i, name: $name, width: $w, signed: $s, float: $f, little: $l }),*];
        pub fn decoder(f: Fix) -> BD {
            match f.idx {
                $($i => Box::new($d::new().map(|n| V::N(n.to_raw()))),)*
                _ => unreachable!(),
            }
        }
        pub fn encoder(f: Fix) -> BE {
            match f.idx {
                $($i => Box::new($e::new().map_from(|v: V| <$t as Num>::from_raw(as_n(&v)))),)*
                _ => unreachable!(),
            }
        }
        pub fn sized_encoder(f: Fix) -> BSE {
            match f.idx {
                $($i => Box::new($e::new().map_from(|v: V| <$t as Num>::from_raw(as_n(&v)))),)*
                _ => unreachable!(),
            }
        }
        /// Calls the given visitor with concrete codec types.
        pub fn visit<X: FixVisitor>(f: Fix, x: &mut X) {
            match f.idx {
                $($i => x.visit::<$t, $d, $e>(f),)*
                _ => unreachable!(),
            }
        }
    };
}
pub trait FixVisitor {
    fn visit<T, D, E>(&mut self, f: Fix)
    where
        T: Num,
        D: bytecodec::Decode<Item = T> + Default,
        E: bytecodec::SizedEncode<Item = T> + Default;
}
fn as_n(v: &V) -> u64 {
    match v {
        V::N(n) => *n,
        _ => panic!("HARNESS: number expected, got {v:?}"),
    }
}
fixes! {
    (0, "U8", U8Decoder, U8Encoder, u8, 1, false, false, false);
    (1, "I8", I8Decoder, I8Encoder, i8, 1, true, false, false);
    (2, "U16be", U16beDecoder, U16beEncoder, u16, 2, false, false, false);
    (3, "U16le", U16leDecoder, U16leEncoder, u16, 2, false, false, true);
    (4, "I16be", I16beDecoder, I16beEncoder, i16, 2, true, false, false);
    (5, "I16le", I16leDecoder, I16leEncoder, i16, 2, true, false, true);
    (6, "U24be", U24beDecoder, U24beEncoder, u32, 3, false, false, false);
    (7, "U24le", U24leDecoder, U24leEncoder, u32, 3, false, false, true);
    (8, "U32be", U32beDecoder, U32beEncoder, u32, 4, false, false, false);
    (9, "U32le", U32leDecoder, U32leEncoder, u32, 4, false, false, true);
    (10, "I32be", I32beDecoder, I32beEncoder, i32, 4, true, false, false);
    (11, "I32le", I32leDecoder, I32leEncoder, i32, 4, true, false, true);
    (12, "U40be", U40beDecoder, U40beEncoder, u64, 5, false, false, false);
    (13, "U40le", U40leDecoder, U40leEncoder, u64, 5, false, false, true);
    (14, "U48be", U48beDecoder, U48beEncoder, u64, 6, false, false, false);
    (15, "U48le", U48leDecoder, U48leEncoder, u64, 6, false, false, true);
    (16, "U56be", U56beDecoder, U56beEncoder, u64, 7, false, false, false);
    (17, "U56le", U56leDecoder, U56leEncoder, u64, 7, false, false, true);
    (18, "U64be", U64beDecoder, U64beEncoder, u64, 8, false, false, false);
    (19, "U64le", U64leDecoder, U64leEncoder, u64, 8, false, false, true);
    (20, "I64be", I64beDecoder, I64beEncoder, i64, 8, true, false, false);
    (21, "I64le", I64leDecoder, I64leEncoder, i64, 8, true, false, true);
    (22, "F32be", F32beDecoder, F32beEncoder, f32, 4, false, true, false);
    (23, "F32le", F32leDecoder, F32leEncoder, f32, 4, false, true, true);
    (24, "F64be", F64beDecoder, F64beEncoder, f64, 8, false, true, false);
    (25, "F64le", F64leDecoder, F64leEncoder, f64, 8, false, true, true);
}
pub const U8: Fix = FIXES[0];
pub const U16BE: Fix = FIXES[2];
pub const U24LE: Fix = FIXES[7];
pub const U32BE: Fix = FIXES[8];

/// Model: the raw value (sign extended) read from exactly `width` bytes.
pub fn model_read(f: Fix, b: &[u8]) -> u64 {
    assert_eq!(b.len(), f.width);
    let mut n = 0u64;
    for i in 0..f.width {
        let x = if f.little { b[f.width - 1 - i] } else { b[i] };
        n = (n << 8) | u64::from(x);
    }
    if f.signed && f.width < 8 && n >> (f.width * 8 - 1) == 1 {
        n |= u64::MAX << (f.width * 8);
    }
    n
}
/// Model: the bytes of a raw value; `None` if it does not fit.
pub fn model_write(f: Fix, n: u64) -> Option<Vec<u8>> {
    if !f.signed && f.width < 8 && n >> (f.width * 8) != 0 {
        return None;
    }
    let mut v: Vec<u8> = (0..f.width).map(|i| (n >> (8 * i)) as u8).collect();
    if !f.little {
        v.reverse();
    }
    Some(v)
}
