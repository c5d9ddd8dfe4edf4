//! Stand-in for `alloy-sol-types`: `sol!` for structs of static types, with the Solidity ABI
//! (each leaf is one 32-byte big-endian word; decoding does not validate padding, as in alloy).
pub use alloy_primitives as private_primitives;
use alloy_primitives::B256;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    Overrun,
    Other(String),
}
impl Error {
    pub fn custom(s: impl Into<std::borrow::Cow<'static, str>>) -> Self {
        Error::Other(s.into().into_owned())
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

/// A static Solidity value: a fixed number of words.
pub trait Word: Sized {
    const WORDS: usize;
    fn enc(&self, out: &mut Vec<u8>);
    fn dec(words: &[u8]) -> Self;
}
macro_rules! uint {
    ($($t:ty, $n:expr);*) => {$(
        impl Word for $t {
            const WORDS: usize = 1;
            fn enc(&self, out: &mut Vec<u8>) {
                out.extend_from_slice(&[0u8; 32 - $n]);
                out.extend_from_slice(&self.to_be_bytes());
            }
            fn dec(w: &[u8]) -> Self { <$t>::from_be_bytes(w[32 - $n..32].try_into().unwrap()) }
        }
    )*};
}
uint!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16);
impl Word for B256 {
    const WORDS: usize = 1;
    fn enc(&self, out: &mut Vec<u8>) { out.extend_from_slice(self.as_slice()) }
    fn dec(w: &[u8]) -> Self { B256::from_slice(&w[..32]) }
}
impl Word for bool {
    const WORDS: usize = 1;
    fn enc(&self, out: &mut Vec<u8>) { (*self as u8).enc(out) }
    fn dec(w: &[u8]) -> Self { w[31] != 0 }
}
pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    fn abi_encode(v: &Self::RustType) -> Vec<u8>;
    fn abi_encoded_size(v: &Self::RustType) -> usize;
    fn abi_decode(data: &[u8]) -> Result<Self::RustType>;
    fn abi_decode_validate(data: &[u8]) -> Result<Self::RustType>;
}
impl<T: Word> SolType for T {
    type RustType = T;
    const ENCODED_SIZE: Option<usize> = Some(T::WORDS * 32);
    fn abi_encode(v: &T) -> Vec<u8> {
        let mut o = Vec::new();
        v.enc(&mut o);
        o
    }
    fn abi_encoded_size(_: &T) -> usize { T::WORDS * 32 }
    fn abi_decode(data: &[u8]) -> Result<T> {
        if data.len() < T::WORDS * 32 {
            return Err(Error::Overrun);
        }
        Ok(T::dec(data))
    }
    fn abi_decode_validate(data: &[u8]) -> Result<T> {
        let v = <T as SolType>::abi_decode(data)?;
        if <T as SolType>::abi_encode(&v)[..] != data[..T::WORDS * 32] {
            return Err(Error::Other("dirty bits".into()));
        }
        Ok(v)
    }
}
pub trait SolValue: Word {
    fn abi_encode(&self) -> Vec<u8> { <Self as SolType>::abi_encode(self) }
    fn abi_encoded_size(&self) -> usize { Self::WORDS * 32 }
    fn abi_decode(data: &[u8]) -> Result<Self> { <Self as SolType>::abi_decode(data) }
    fn abi_decode_validate(data: &[u8]) -> Result<Self> { <Self as SolType>::abi_decode_validate(data) }
}
impl<T: Word> SolValue for T {}
pub trait SolStruct: Word {}

#[macro_export]
macro_rules! __sol_ty {
    (uint8) => { u8 };
    (uint16) => { u16 };
    (uint32) => { u32 };
    (uint64) => { u64 };
    (uint128) => { u128 };
    (bool) => { bool };
    (bytes32) => { $crate::private_primitives::B256 };
    ($other:ident) => { $other };
}
#[macro_export]
macro_rules! sol {
    ($($(#[$m:meta])* struct $name:ident { $($(#[$fm:meta])* $ty:ident $field:ident;)* })*) => {$(
        #[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
        $(#[$m])*
        pub struct $name { $($(#[$fm])* pub $field: $crate::__sol_ty!($ty)),* }
        impl $crate::Word for $name {
            const WORDS: usize = 0 $(+ <$crate::__sol_ty!($ty) as $crate::Word>::WORDS)*;
            fn enc(&self, out: &mut Vec<u8>) { $($crate::Word::enc(&self.$field, out);)* }
            #[allow(unused_assignments)]
            fn dec(words: &[u8]) -> Self {
                let mut at = 0usize;
                $(
                    let $field = <$crate::__sol_ty!($ty) as $crate::Word>::dec(&words[at * 32..]);
                    at += <$crate::__sol_ty!($ty) as $crate::Word>::WORDS;
                )*
                Self { $($field),* }
            }
        }
        impl $crate::SolStruct for $name {}
    )*};
}
