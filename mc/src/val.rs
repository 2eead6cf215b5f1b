//! Universal item type and helpers shared by the decoder and encoder term languages.
use bytecodec::{Error, ErrorKind};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum V {
    Unit,
    N(u64),
    B(Vec<u8>),
    S(String),
    L(Vec<V>),
    T(Vec<V>),
    O(Option<Box<V>>),
}
impl V {
    /// The first number found in the value, if any (used by value dependent terms).
    pub fn num(&self) -> u64 {
        match self {
            V::Unit => 0,
            V::N(n) => *n,
            V::B(b) => b.first().map_or(0, |b| u64::from(*b)),
            V::S(s) => s.as_bytes().first().map_or(0, |b| u64::from(*b)),
            V::L(v) | V::T(v) => v.first().map_or(0, V::num),
            V::O(o) => o.as_ref().map_or(0, |v| v.num()),
        }
    }
}

/// A set of error kinds.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Ks(pub u8);
impl std::fmt::Debug for Ks {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut v = vec![];
        for k in KINDS {
            if self.has(k) {
                v.push(format!("{k:?}"));
            }
        }
        write!(f, "{}", v.join("|"))
    }
}
pub const KINDS: [ErrorKind; 7] = [
    ErrorKind::InvalidInput,
    ErrorKind::InconsistentState,
    ErrorKind::UnexpectedEos,
    ErrorKind::EncoderFull,
    ErrorKind::DecoderTerminated,
    ErrorKind::IncompleteDecoding,
    ErrorKind::Other,
];
pub const fn kbit(k: ErrorKind) -> u8 {
    match k {
        ErrorKind::InvalidInput => 1,
        ErrorKind::InconsistentState => 2,
        ErrorKind::UnexpectedEos => 4,
        ErrorKind::EncoderFull => 8,
        ErrorKind::DecoderTerminated => 16,
        ErrorKind::IncompleteDecoding => 32,
        ErrorKind::Other => 64,
    }
}
pub const fn k(k: ErrorKind) -> Ks {
    Ks(kbit(k))
}
pub const EOS: Ks = k(ErrorKind::UnexpectedEos);
pub const INV: Ks = k(ErrorKind::InvalidInput);
pub const ANY: Ks = Ks(127);
impl Ks {
    pub fn has(self, x: ErrorKind) -> bool {
        self.0 & kbit(x) != 0
    }
    pub fn or(self, o: Ks) -> Ks {
        Ks(self.0 | o.0)
    }
}

/// A fresh error of the given kind.
pub fn err(k: ErrorKind) -> Error {
    use trackable::error::ErrorKindExt;
    k.cause("raised by the harness").into()
}

pub fn kind(e: &Error) -> ErrorKind {
    *e.kind()
}
/// Renders a result for messages.
pub fn res<T: std::fmt::Debug>(r: &bytecodec::Result<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({:?})", e.kind()),
    }
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 24 {
        format!("{:02x?}..({} bytes)", &b[..24], b.len())
    } else {
        format!("{b:02x?}")
    }
}
