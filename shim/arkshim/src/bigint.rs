//! Fixed-size big integers (little-endian 64-bit limbs).
use crate::serialize::SerializationError;
use crate::ff::{FromBytes, ToBytes};
use rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt;
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct BigInt<const N: usize>(pub [u64; N]);
pub type BigInteger256 = BigInt<4>;
pub type BigInteger384 = BigInt<6>;
pub type BigInteger768 = BigInt<12>;

impl<const N: usize> Default for BigInt<N> {
    fn default() -> Self { BigInt([0; N]) }
}
impl<const N: usize> BigInt<N> {
    pub const fn new(v: [u64; N]) -> Self { BigInt(v) }
}
impl<const N: usize> fmt::Debug for BigInt<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
}
impl<const N: usize> fmt::Display for BigInt<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for i in self.0.iter().rev() { write!(f, "{:016X}", *i)?; }
        Ok(())
    }
}
impl<const N: usize> Ord for BigInt<N> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        for i in (0..N).rev() {
            if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
        }
        std::cmp::Ordering::Equal
    }
}
impl<const N: usize> PartialOrd for BigInt<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl<const N: usize> From<u64> for BigInt<N> {
    fn from(v: u64) -> Self { let mut r = [0; N]; r[0] = v; BigInt(r) }
}
impl<const N: usize> AsRef<[u64]> for BigInt<N> { fn as_ref(&self) -> &[u64] { &self.0 } }
impl<const N: usize> AsMut<[u64]> for BigInt<N> { fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
impl<const N: usize> Distribution<BigInt<N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> BigInt<N> {
        let mut r = [0u64; N];
        for x in r.iter_mut() { *x = rng.gen(); }
        BigInt(r)
    }
}
impl<const N: usize> ToBytes for BigInt<N> {
    fn write<W: Write>(&self, mut w: W) -> std::io::Result<()> {
        for l in self.0.iter() { w.write_all(&l.to_le_bytes())?; }
        Ok(())
    }
}
impl<const N: usize> FromBytes for BigInt<N> {
    fn read<R: Read>(mut r: R) -> std::io::Result<Self> {
        let mut o = [0u64; N];
        for l in o.iter_mut() { let mut b = [0u8; 8]; r.read_exact(&mut b)?; *l = u64::from_le_bytes(b); }
        Ok(BigInt(o))
    }
}
impl<const N: usize> crate::serialize::CanonicalSerialize for BigInt<N> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { Ok(self.write(w)?) }
    fn serialized_size(&self) -> usize { 8 * N }
}
impl<const N: usize> crate::serialize::CanonicalDeserialize for BigInt<N> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(Self::read(r)?) }
}

pub trait BigInteger:
    ToBytes + FromBytes + Copy + Clone + fmt::Debug + Default + fmt::Display + Eq + Ord + Send + Sync
    + AsMut<[u64]> + AsRef<[u64]> + From<u64> + 'static
{
    const NUM_LIMBS: usize;
    fn add_nocarry(&mut self, other: &Self) -> bool;
    fn sub_noborrow(&mut self, other: &Self) -> bool;
    fn mul2(&mut self);
    fn muln(&mut self, amt: u32);
    fn div2(&mut self);
    fn divn(&mut self, amt: u32);
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool;
    fn is_zero(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
    fn from_bits_be(bits: &[bool]) -> Self;
    fn from_bits_le(bits: &[bool]) -> Self;
    /// big-endian bits, leading zeros included
    fn to_bits_be(&self) -> Vec<bool>;
    fn to_bits_le(&self) -> Vec<bool>;
    fn to_bits(&self) -> Vec<bool> { self.to_bits_be() }
    fn from_bits(bits: &[bool]) -> Self { Self::from_bits_be(bits) }
    fn to_bytes_be(&self) -> Vec<u8>;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn write_le<W: Write>(&self, w: &mut W) -> std::io::Result<()> { self.write(w) }
    fn read_le<R: Read>(&mut self, r: &mut R) -> std::io::Result<()> { *self = Self::read(r)?; Ok(()) }
}
impl<const N: usize> BigInteger for BigInt<N> {
    const NUM_LIMBS: usize = N;
    fn add_nocarry(&mut self, o: &Self) -> bool {
        let mut c = 0u128;
        for i in 0..N { let t = self.0[i] as u128 + o.0[i] as u128 + c; self.0[i] = t as u64; c = t >> 64; }
        c != 0
    }
    fn sub_noborrow(&mut self, o: &Self) -> bool {
        let mut b = false;
        for i in 0..N {
            let (t, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (t, b2) = t.overflowing_sub(b as u64);
            self.0[i] = t; b = b1 | b2;
        }
        b
    }
    fn mul2(&mut self) { self.muln(1) }
    fn muln(&mut self, amt: u32) {
        for _ in 0..amt {
            let mut c = 0;
            for i in 0..N { let n = self.0[i] >> 63; self.0[i] = (self.0[i] << 1) | c; c = n; }
        }
    }
    fn div2(&mut self) { self.divn(1) }
    fn divn(&mut self, amt: u32) {
        for _ in 0..amt {
            let mut c = 0;
            for i in (0..N).rev() { let n = self.0[i] << 63; self.0[i] = (self.0[i] >> 1) | c; c = n; }
        }
    }
    fn is_odd(&self) -> bool { self.0[0] & 1 == 1 }
    fn is_even(&self) -> bool { !self.is_odd() }
    fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
    fn num_bits(&self) -> u32 {
        for i in (0..N).rev() { if self.0[i] != 0 { return 64 * i as u32 + 64 - self.0[i].leading_zeros(); } }
        0
    }
    fn get_bit(&self, i: usize) -> bool { i < 64 * N && (self.0[i / 64] >> (i % 64)) & 1 == 1 }
    fn from_bits_be(bits: &[bool]) -> Self {
        let v: Vec<bool> = bits.iter().rev().cloned().collect();
        Self::from_bits_le(&v)
    }
    fn from_bits_le(bits: &[bool]) -> Self {
        let mut r = [0u64; N];
        for (i, b) in bits.iter().enumerate() { if *b && i < 64 * N { r[i / 64] |= 1 << (i % 64); } }
        BigInt(r)
    }
    fn to_bits_be(&self) -> Vec<bool> { (0..64 * N).rev().map(|i| self.get_bit(i)).collect() }
    fn to_bits_le(&self) -> Vec<bool> { (0..64 * N).map(|i| self.get_bit(i)).collect() }
    fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
    fn to_bytes_le(&self) -> Vec<u8> { self.0.iter().flat_map(|l| l.to_le_bytes().to_vec()).collect() }
}

#[derive(Debug, Clone)]
pub struct BitIteratorBE<S: AsRef<[u64]>> { s: S, n: usize }
impl<S: AsRef<[u64]>> BitIteratorBE<S> {
    pub fn new(s: S) -> Self { let n = s.as_ref().len() * 64; BitIteratorBE { s, n } }
    pub fn without_leading_zeros(s: S) -> impl Iterator<Item = bool> { Self::new(s).skip_while(|b| !b) }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorBE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == 0 { None } else { self.n -= 1; Some((self.s.as_ref()[self.n / 64] >> (self.n % 64)) & 1 == 1) }
    }
}
#[derive(Debug, Clone)]
pub struct BitIteratorLE<S: AsRef<[u64]>> { s: S, n: usize, max: usize }
impl<S: AsRef<[u64]>> BitIteratorLE<S> {
    pub fn new(s: S) -> Self { let max = s.as_ref().len() * 64; BitIteratorLE { s, n: 0, max } }
    pub fn without_trailing_zeros(s: S) -> impl Iterator<Item = bool> {
        let mut first = 0;
        for (i, b) in BitIteratorLE::new(s.as_ref()).enumerate() { if b { first = i + 1; } }
        BitIteratorLE { s, n: 0, max: first }
    }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorLE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == self.max { None } else { let i = self.n; self.n += 1; Some((self.s.as_ref()[i / 64] >> (i % 64)) & 1 == 1) }
    }
}
