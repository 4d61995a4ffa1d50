//! Encodings through the C interface.
use crate::alloc::call;
use crate::session::{taken, unset};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{PrivateKey, PublicKey, Signature};
use bls_snark_sys::serialization::*;
use std::os::raw::c_int;

pub trait Io: Sized {
    fn put(&self, compressed: bool) -> Vec<u8>;
    /// None: the answer and what was written do not go together
    fn take(b: &[u8], compressed: bool) -> Option<Option<Self>>;
}
type Put<T> = extern "C" fn(*const T, *mut *mut u8, *mut c_int) -> bool;
type Take<T> = extern "C" fn(*const u8, c_int, *mut *mut T) -> bool;
fn put<T>(f: Put<T>, t: &T) -> Vec<u8> {
    let (mut p, mut n) = (unset(), -7);
    let r = call(|| f(t, &mut p, &mut n));
    assert!(r && p != unset());
    let v = taken(p, n);
    assert!(unsafe { free_vec(p, n) });
    v
}
fn take<T>(f: Take<T>, destroy: unsafe extern "C" fn(*mut T) -> bool, copy: impl Fn(&T) -> T, b: &[u8]) -> Option<Option<T>> {
    let mut p = unset();
    let r = call(|| f(b.as_ptr(), b.len() as c_int, &mut p));
    match (r, p == unset()) {
        (true, false) => {
            let t = copy(unsafe { &*p });
            assert!(unsafe { destroy(p) });
            Some(Some(t))
        }
        (false, true) => Some(None),
        _ => None,
    }
}
macro_rules! io { ($t:ty, $put:ident, $raw:expr, $take:ident, $more:expr, $destroy:ident) => {
    impl Io for $t {
        fn put(&self, compressed: bool) -> Vec<u8> {
            let raw: Option<Put<$t>> = $raw;
            match raw {
                Some(f) if !compressed => put(f, self),
                _ => put($put, self),
            }
        }
        fn take(b: &[u8], compressed: bool) -> Option<Option<$t>> {
            if !compressed {
                // no call for that
                return Some(<$t>::deserialize_uncompressed(b).ok());
            }
            let copy = |t: &$t| {
                let mut v = vec![];
                t.serialize(&mut v).unwrap();
                <$t>::deserialize(&v[..]).unwrap()
            };
            let a = take($take, $destroy, copy, b)?;
            let more: Option<Take<$t>> = $more;
            if let Some(f) = more {
                // first into the cache, then out of it
                for _ in 0..2 {
                    let c = take(f, $destroy, copy, b)?;
                    if a.is_some() != c.is_some() || a.as_ref().map(|x| x.put(true)) != c.as_ref().map(|x| x.put(true)) {
                        return None;
                    }
                }
            }
            Some(a)
        }
    }
}}
io!(PrivateKey, serialize_private_key, None, deserialize_private_key, None, destroy_private_key);
io!(PublicKey, serialize_public_key, Some(serialize_public_key_uncompressed), deserialize_public_key, Some(deserialize_public_key_cached), destroy_public_key);
io!(Signature, serialize_signature, Some(serialize_signature_uncompressed), deserialize_signature, None, destroy_signature);
