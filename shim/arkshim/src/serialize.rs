//! Canonical (de)serialisation traits of ark-serialize 0.2.
pub use std::io::{Read, Write};
use std::fmt;

#[derive(Debug)]
pub enum SerializationError {
    NotEnoughSpace,
    InvalidData,
    UnexpectedFlags,
    IoError(std::io::Error),
}
impl fmt::Display for SerializationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SerializationError::NotEnoughSpace => write!(f, "the last byte does not have enough space to encode the extra info bits"),
            SerializationError::InvalidData => write!(f, "the input buffer contained invalid data"),
            SerializationError::UnexpectedFlags => write!(f, "the call expects empty flags"),
            SerializationError::IoError(e) => write!(f, "I/O error: {:?}", e),
        }
    }
}
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError { fn from(e: std::io::Error) -> Self { SerializationError::IoError(e) } }

pub trait Flags: Default + Clone + Copy + Sized {
    const BIT_SIZE: usize;
    fn u8_bitmask(&self) -> u8;
    fn from_u8(value: u8) -> Option<Self>;
    fn from_u8_remove_flags(value: &mut u8) -> Option<Self> {
        let flags = Self::from_u8(*value);
        if let Some(f) = flags { *value &= !f.u8_bitmask(); }
        flags
    }
}
#[derive(Default, Clone, Copy, PartialEq, Eq)]
pub struct EmptyFlags;
impl Flags for EmptyFlags {
    const BIT_SIZE: usize = 0;
    fn u8_bitmask(&self) -> u8 { 0 }
    fn from_u8(value: u8) -> Option<Self> { if (value >> 7) == 0 { Some(EmptyFlags) } else { None } }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SWFlags { Infinity, PositiveY, NegativeY }
impl SWFlags {
    pub fn infinity() -> Self { SWFlags::Infinity }
    pub fn from_y_sign(is_positive: bool) -> Self { if is_positive { SWFlags::PositiveY } else { SWFlags::NegativeY } }
    pub fn is_infinity(&self) -> bool { matches!(self, SWFlags::Infinity) }
    pub fn is_positive(&self) -> Option<bool> {
        match self { SWFlags::Infinity => None, SWFlags::PositiveY => Some(true), SWFlags::NegativeY => Some(false) }
    }
}
impl Default for SWFlags { fn default() -> Self { SWFlags::NegativeY } }
impl Flags for SWFlags {
    const BIT_SIZE: usize = 2;
    fn u8_bitmask(&self) -> u8 { match self { SWFlags::Infinity => 1 << 6, SWFlags::PositiveY => 1 << 7, _ => 0 } }
    fn from_u8(value: u8) -> Option<Self> {
        let s = (value >> 7) & 1 == 1;
        let i = (value >> 6) & 1 == 1;
        match (s, i) {
            (true, true) => None,
            (false, true) => Some(SWFlags::Infinity),
            (true, false) => Some(SWFlags::PositiveY),
            (false, false) => Some(SWFlags::NegativeY),
        }
    }
}

pub trait CanonicalSerialize {
    fn serialize<W: Write>(&self, writer: W) -> Result<(), SerializationError>;
    fn serialized_size(&self) -> usize;
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize(writer) }
    fn serialize_unchecked<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize_uncompressed(writer) }
    fn uncompressed_size(&self) -> usize { self.serialized_size() }
}
pub trait CanonicalSerializeWithFlags: CanonicalSerialize {
    fn serialize_with_flags<W: Write, F: Flags>(&self, writer: W, flags: F) -> Result<(), SerializationError>;
    fn serialized_size_with_flags<F: Flags>(&self) -> usize;
}
pub trait CanonicalDeserialize: Sized {
    fn deserialize<R: Read>(reader: R) -> Result<Self, SerializationError>;
    fn deserialize_uncompressed<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize(reader) }
    fn deserialize_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_uncompressed(reader) }
}
pub trait CanonicalDeserializeWithFlags: Sized {
    fn deserialize_with_flags<R: Read, F: Flags>(reader: R) -> Result<(Self, F), SerializationError>;
}
pub use arkshim_derive::{CanonicalDeserialize, CanonicalSerialize};

pub const fn buffer_bit_byte_size(bits: usize) -> (usize, usize) { let b = buffer_byte_size(bits); (b * 8, b) }
pub const fn buffer_byte_size(bits: usize) -> usize { (bits + 7) / 8 }

macro_rules! ints { ($($t:ty),*) => {$(
    impl CanonicalSerialize for $t {
        fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { Ok(w.write_all(&self.to_le_bytes())?) }
        fn serialized_size(&self) -> usize { std::mem::size_of::<$t>() }
    }
    impl CanonicalDeserialize for $t {
        fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
            let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b))
        }
    }
)*}}
ints!(u8, u16, u32, u64);
impl CanonicalSerialize for usize {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { (*self as u64).serialize(w) }
    fn serialized_size(&self) -> usize { 8 }
}
impl CanonicalDeserialize for usize {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(u64::deserialize(r)? as usize) }
}
impl CanonicalSerialize for bool {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { Ok(w.write_all(&[*self as u8])?) }
    fn serialized_size(&self) -> usize { 1 }
}
impl CanonicalDeserialize for bool {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let mut b = [0u8; 1]; r.read_exact(&mut b)?;
        match b[0] { 0 => Ok(false), 1 => Ok(true), _ => Err(SerializationError::InvalidData) }
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        (self.len() as u64).serialize(&mut w)?;
        for x in self { x.serialize(&mut w)?; }
        Ok(())
    }
    fn serialized_size(&self) -> usize { 8 + self.iter().map(|x| x.serialized_size()).sum::<usize>() }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        (self.len() as u64).serialize(&mut w)?;
        for x in self { x.serialize_uncompressed(&mut w)?; }
        Ok(())
    }
    fn uncompressed_size(&self) -> usize { 8 + self.iter().map(|x| x.uncompressed_size()).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_slice().serialize(w) }
    fn serialized_size(&self) -> usize { self.as_slice().serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_slice().serialize_uncompressed(w) }
    fn uncompressed_size(&self) -> usize { self.as_slice().uncompressed_size() }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = u64::deserialize(&mut r)?; let mut v = vec![];
        for _ in 0..n { v.push(T::deserialize(&mut r)?); }
        Ok(v)
    }
    fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = u64::deserialize(&mut r)?; let mut v = vec![];
        for _ in 0..n { v.push(T::deserialize_uncompressed(&mut r)?); }
        Ok(v)
    }
    fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = u64::deserialize(&mut r)?; let mut v = vec![];
        for _ in 0..n { v.push(T::deserialize_unchecked(&mut r)?); }
        Ok(v)
    }
}
macro_rules! tuples { ($($n:ident $i:tt),*) => {
    impl<$($n: CanonicalSerialize),*> CanonicalSerialize for ($($n,)*) {
        fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$i.serialize(&mut w)?;)* Ok(()) }
        fn serialized_size(&self) -> usize { 0 $(+ self.$i.serialized_size())* }
        fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$i.serialize_uncompressed(&mut w)?;)* Ok(()) }
        fn uncompressed_size(&self) -> usize { 0 $(+ self.$i.uncompressed_size())* }
    }
    impl<$($n: CanonicalDeserialize),*> CanonicalDeserialize for ($($n,)*) {
        fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(($($n::deserialize(&mut r)?,)*)) }
        fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(($($n::deserialize_uncompressed(&mut r)?,)*)) }
        fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> { Ok(($($n::deserialize_unchecked(&mut r)?,)*)) }
    }
}}
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
impl<T: CanonicalSerialize> CanonicalSerialize for Option<T> {
    fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { self.is_some().serialize(&mut w)?; self.iter().try_for_each(|x| x.serialize(&mut w)) }
    fn serialized_size(&self) -> usize { 1 + self.as_ref().map_or(0, |x| x.serialized_size()) }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { self.is_some().serialize(&mut w)?; self.iter().try_for_each(|x| x.serialize_uncompressed(&mut w)) }
    fn uncompressed_size(&self) -> usize { 1 + self.as_ref().map_or(0, |x| x.uncompressed_size()) }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Option<T> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { if bool::deserialize(&mut r)? { T::deserialize(r).map(Some) } else { Ok(None) } }
    fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> { if bool::deserialize(&mut r)? { T::deserialize_uncompressed(r).map(Some) } else { Ok(None) } }
    fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> { if bool::deserialize(&mut r)? { T::deserialize_unchecked(r).map(Some) } else { Ok(None) } }
}
impl CanonicalSerialize for String {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.as_bytes().serialize(w) }
    fn serialized_size(&self) -> usize { self.as_bytes().serialized_size() }
}
impl CanonicalDeserialize for String {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { String::from_utf8(Vec::<u8>::deserialize(r)?).map_err(|_| SerializationError::InvalidData) }
}
impl<T> CanonicalSerialize for std::marker::PhantomData<T> {
    fn serialize<W: Write>(&self, _: W) -> Result<(), SerializationError> { Ok(()) }
    fn serialized_size(&self) -> usize { 0 }
}
impl<T> CanonicalDeserialize for std::marker::PhantomData<T> { fn deserialize<R: Read>(_: R) -> Result<Self, SerializationError> { Ok(std::marker::PhantomData) } }
impl<T: CanonicalSerialize + ?Sized> CanonicalSerialize for &T {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { (**self).serialize(w) }
    fn serialized_size(&self) -> usize { (**self).serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { (**self).serialize_uncompressed(w) }
    fn uncompressed_size(&self) -> usize { (**self).uncompressed_size() }
}
