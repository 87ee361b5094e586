//! Stand-in for ark-serialize: same traits, same wire conventions
//! (u64 little-endian lengths, fields in declaration order).
pub use ark_serialize_derive::{CanonicalDeserialize, CanonicalSerialize};
pub use std::io::{Read, Write};
use std::fmt;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Compress { Yes, No }
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Validate { Yes, No }

#[derive(Debug)]
pub enum SerializationError {
    NotEnoughSpace,
    InvalidData,
    UnexpectedFlags,
    IoError(std::io::Error),
}
impl fmt::Display for SerializationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SerializationError::NotEnoughSpace => write!(f, "the last byte does not have enough space to encode the extra info bits"),
            SerializationError::InvalidData => write!(f, "the input buffer contained invalid data"),
            SerializationError::UnexpectedFlags => write!(f, "the call expects empty flags"),
            SerializationError::IoError(e) => write!(f, "I/O error: {:?}", e),
        }
    }
}
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError {
    fn from(e: std::io::Error) -> Self { SerializationError::IoError(e) }
}

pub trait Valid: Sync + Sized {
    fn check(&self) -> Result<(), SerializationError>;
    fn batch_check<'a>(batch: impl Iterator<Item = &'a Self> + Send) -> Result<(), SerializationError> where Self: 'a {
        for x in batch { x.check()?; }
        Ok(())
    }
}

pub trait CanonicalSerialize {
    fn serialize_with_mode<W: Write>(&self, writer: W, compress: Compress) -> Result<(), SerializationError>;
    fn serialized_size(&self, compress: Compress) -> usize;
    fn serialize_compressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize_with_mode(writer, Compress::Yes) }
    fn compressed_size(&self) -> usize { self.serialized_size(Compress::Yes) }
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> Result<(), SerializationError> { self.serialize_with_mode(writer, Compress::No) }
    fn uncompressed_size(&self) -> usize { self.serialized_size(Compress::No) }
}

pub trait CanonicalDeserialize: Valid {
    fn deserialize_with_mode<R: Read>(reader: R, compress: Compress, validate: Validate) -> Result<Self, SerializationError>;
    fn deserialize_compressed<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::Yes, Validate::Yes) }
    fn deserialize_compressed_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::Yes, Validate::No) }
    fn deserialize_uncompressed<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::No, Validate::Yes) }
    fn deserialize_uncompressed_unchecked<R: Read>(reader: R) -> Result<Self, SerializationError> { Self::deserialize_with_mode(reader, Compress::No, Validate::No) }
}

macro_rules! ints { ($($t:ty),*) => { $(
    impl CanonicalSerialize for $t {
        fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { Ok(w.write_all(&self.to_le_bytes())?) }
        fn serialized_size(&self, _: Compress) -> usize { std::mem::size_of::<$t>() }
    }
    impl Valid for $t { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
    impl CanonicalDeserialize for $t {
        fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            r.read_exact(&mut b)?;
            Ok(<$t>::from_le_bytes(b))
        }
    })* } }
ints!(u8, u16, u32, u64, i64, u128);

impl CanonicalSerialize for usize {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { Ok(w.write_all(&(*self as u64).to_le_bytes())?) }
    fn serialized_size(&self, _: Compress) -> usize { 8 }
}
impl Valid for usize { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalDeserialize for usize {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(u64::deserialize_with_mode(r, c, v)? as usize) }
}
impl CanonicalSerialize for bool {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { (*self as u8).serialize_with_mode(w, c) }
    fn serialized_size(&self, _: Compress) -> usize { 1 }
}
impl Valid for bool { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalDeserialize for bool {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        match u8::deserialize_with_mode(r, c, v)? { 0 => Ok(false), 1 => Ok(true), _ => Err(SerializationError::InvalidData) }
    }
}
fn ser_seq<'a, T: CanonicalSerialize + 'a, W: Write>(it: impl ExactSizeIterator<Item = &'a T>, mut w: W, c: Compress) -> Result<(), SerializationError> {
    (it.len() as u64).serialize_with_mode(&mut w, c)?;
    for x in it { x.serialize_with_mode(&mut w, c)?; }
    Ok(())
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { ser_seq(self.iter(), w, c) }
    fn serialized_size(&self, c: Compress) -> usize { 8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { ser_seq(self.iter(), w, c) }
    fn serialized_size(&self, c: Compress) -> usize { 8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for &[T] {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { ser_seq(self.iter(), w, c) }
    fn serialized_size(&self, c: Compress) -> usize { 8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>() }
}
impl<T: CanonicalSerialize> CanonicalSerialize for &T {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { (**self).serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { (**self).serialized_size(c) }
}
impl<T: Valid> Valid for Vec<T> {
    fn check(&self) -> Result<(), SerializationError> { for x in self { x.check()?; } Ok(()) }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let n = u64::deserialize_with_mode(&mut r, c, v)?;
        let mut out = Vec::new();
        for _ in 0..n { out.push(T::deserialize_with_mode(&mut r, c, v)?); }
        Ok(out)
    }
}
impl<T: CanonicalSerialize, const N: usize> CanonicalSerialize for [T; N] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> { for x in self { x.serialize_with_mode(&mut w, c)?; } Ok(()) }
    fn serialized_size(&self, c: Compress) -> usize { self.iter().map(|x| x.serialized_size(c)).sum() }
}
impl<T: Valid, const N: usize> Valid for [T; N] {
    fn check(&self) -> Result<(), SerializationError> { for x in self { x.check()?; } Ok(()) }
}
impl<T: CanonicalDeserialize, const N: usize> CanonicalDeserialize for [T; N] {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let mut out = Vec::with_capacity(N);
        for _ in 0..N { out.push(T::deserialize_with_mode(&mut r, c, v)?); }
        out.try_into().map_err(|_| SerializationError::InvalidData)
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Option<T> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        self.is_some().serialize_with_mode(&mut w, c)?;
        if let Some(x) = self { x.serialize_with_mode(&mut w, c)?; }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize { 1 + self.as_ref().map_or(0, |x| x.serialized_size(c)) }
}
impl<T: Valid> Valid for Option<T> { fn check(&self) -> Result<(), SerializationError> { if let Some(x) = self { x.check()?; } Ok(()) } }
impl<T: CanonicalDeserialize> CanonicalDeserialize for Option<T> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        if bool::deserialize_with_mode(&mut r, c, v)? { Ok(Some(T::deserialize_with_mode(&mut r, c, v)?)) } else { Ok(None) }
    }
}
impl CanonicalSerialize for String {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.as_bytes().serialize_with_mode(w, c) }
    fn serialized_size(&self, _: Compress) -> usize { 8 + self.len() }
}
macro_rules! tup { ($($n:ident $i:tt),*) => {
    impl<$($n: CanonicalSerialize),*> CanonicalSerialize for ($($n,)*) {
        fn serialize_with_mode<W_: Write>(&self, mut w: W_, c: Compress) -> Result<(), SerializationError> { $(self.$i.serialize_with_mode(&mut w, c)?;)* Ok(()) }
        fn serialized_size(&self, c: Compress) -> usize { 0 $(+ self.$i.serialized_size(c))* }
    }
    impl<$($n: Valid),*> Valid for ($($n,)*) { fn check(&self) -> Result<(), SerializationError> { $(self.$i.check()?;)* Ok(()) } }
    impl<$($n: CanonicalDeserialize),*> CanonicalDeserialize for ($($n,)*) {
        fn deserialize_with_mode<R_: Read>(mut r: R_, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(($($n::deserialize_with_mode(&mut r, c, v)?,)*)) }
    } } }
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);

pub trait CanonicalSerializeHashExt: CanonicalSerialize {}
impl<T: CanonicalSerialize> CanonicalSerializeHashExt for T {}
#[macro_export]
macro_rules! serialize_to_vec { ($($x:expr),*) => { { let mut buf = Vec::new(); $( $crate::CanonicalSerialize::serialize_compressed(&$x, &mut buf).unwrap(); )* Ok::<_, $crate::SerializationError>(buf) } } }
