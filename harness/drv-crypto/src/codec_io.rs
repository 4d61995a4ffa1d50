//! Encodings through the serialization traits.
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use drvutil::guard;

pub trait Io: Sized {
    fn put(&self, compressed: bool) -> Vec<u8>;
    /// None: it panicked
    fn take(b: &[u8], compressed: bool) -> Option<Option<Self>>;
}
impl<T: CanonicalSerialize + CanonicalDeserialize> Io for T {
    fn put(&self, compressed: bool) -> Vec<u8> {
        let mut b = vec![];
        if compressed {
            self.serialize(&mut b).unwrap()
        } else {
            self.serialize_uncompressed(&mut b).unwrap()
        }
        b
    }
    fn take(b: &[u8], compressed: bool) -> Option<Option<T>> {
        guard(|| if compressed { T::deserialize(b).ok() } else { T::deserialize_uncompressed(b).ok() })
    }
}
