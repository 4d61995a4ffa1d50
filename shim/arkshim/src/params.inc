#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FqParameters;
impl FftParameters for FqParameters { type BigInt = BigInt<6>; const TWO_ADICITY: u32 = 46; }
impl FpParameters for FqParameters {
    const MODULUS: BigInt<6> = BigInt([0x8508c00000000001, 0x170b5d4430000000, 0x1ef3622fba094800, 0x1a22d9f300f5138f, 0xc63b05c06ca1493b, 0x1ae3a4617c510ea]);
    const MODULUS_BITS: u32 = 377;
    const CAPACITY: u32 = 376;
    const REPR_SHAVE_BITS: u32 = 7;
    const R: BigInt<6> = BigInt([0x2cdffffffffff68, 0x51409f837fffffb1, 0x9f7db3a98a7d3ff2, 0x7b4e97b76e7c6305, 0x4cf495bf803c84e8, 0x8d6661e2fdf49a]);
    const R2: BigInt<6> = BigInt([0xb786686c9400cd22, 0x329fcaab00431b1, 0x22a5f11162d6b46d, 0xbfdf7d03827dc3ac, 0x837e92f041790bf9, 0x6dfccb1e914b88]);
    const INV: u64 = 0x8508bfffffffffff;
    const T: BigInt<6> = BigInt([0x7510c00000021423, 0x88bee82520005c2d, 0x67cc03d44e3c7bcd, 0x1701b28524ec688b, 0xe9185f1443ab18ec, 0x6b8]);
    const T_MINUS_ONE_DIV_TWO: BigInt<6> = BigInt([0xba88600000010a11, 0xc45f741290002e16, 0xb3e601ea271e3de6, 0xb80d94292763445, 0x748c2f8a21d58c76, 0x35c]);
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<6> = BigInt([0x4284600000000000, 0xb85aea218000000, 0x8f79b117dd04a400, 0x8d116cf9807a89c7, 0x631d82e03650a49d, 0xd71d230be28875]);
    const QNR: u64 = 5;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FrParameters;
impl FftParameters for FrParameters { type BigInt = BigInt<4>; const TWO_ADICITY: u32 = 47; }
impl FpParameters for FrParameters {
    const MODULUS: BigInt<4> = BigInt([0xa11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556]);
    const MODULUS_BITS: u32 = 253;
    const CAPACITY: u32 = 252;
    const REPR_SHAVE_BITS: u32 = 3;
    const R: BigInt<4> = BigInt([0x7d1c7ffffffffff3, 0x7257f50f6ffffff2, 0x16d81575512c0fee, 0xd4bda322bbb9a9d]);
    const R2: BigInt<4> = BigInt([0x25d577bab861857b, 0xcc2c27b58860591f, 0xa7cc008fe5dc8593, 0x11fdae7eff1c939]);
    const INV: u64 = 0xa117fffffffffff;
    const T: BigInt<4> = BigInt([0xedfda00000021423, 0x9a3cb86f6002b354, 0xcabd34594aacc168, 0x2556]);
    const T_MINUS_ONE_DIV_TWO: BigInt<4> = BigInt([0x76fed00000010a11, 0x4d1e5c37b00159aa, 0x655e9a2ca55660b4, 0x12ab]);
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<4> = BigInt([0x8508c00000000000, 0xacd53b7f68000000, 0x305a268f2e1bd800, 0x955b2af4d1652ab]);
    const QNR: u64 = 11;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EdFrParameters;
impl FftParameters for EdFrParameters { type BigInt = BigInt<6>; const TWO_ADICITY: u32 = 2; }
impl FpParameters for EdFrParameters {
    const MODULUS: BigInt<6> = BigInt([0x4103486497d95295, 0x34066d10f5d89381, 0xe1d75fe7d6eeb842, 0x63445b3e601ea271, 0x58c760b80d942927, 0x35c748c2f8a21d]);
    const MODULUS_BITS: u32 = 374;
    const CAPACITY: u32 = 373;
    const REPR_SHAVE_BITS: u32 = 10;
    const R: BigInt<6> = BigInt([0xae61916588051716, 0x796d154e4f923308, 0x7d49b2f364375504, 0xb4c5e13aae3f1e2b, 0x9b65d44f65143299, 0x21d7d05d0cb05f]);
    const R2: BigInt<6> = BigInt([0xef7d4dfca8468daf, 0xdf610b6e9b666362, 0x308d5bde02bb0543, 0x4a07e63e4b536ba, 0xf9fe0baa103341b, 0x5a2aeb59d968d]);
    const INV: u64 = 0xe16737ccb3e41743;
    const T: BigInt<6> = BigInt([0x5040d21925f654a5, 0x8d019b443d7624e0, 0x7875d7f9f5bbae10, 0xd8d116cf9807a89c, 0x5631d82e03650a49, 0xd71d230be2887]);
    const T_MINUS_ONE_DIV_TWO: BigInt<6> = BigInt([0x2820690c92fb2a52, 0x4680cda21ebb1270, 0x3c3aebfcfaddd708, 0xec688b67cc03d44e, 0xab18ec1701b28524, 0x6b8e9185f1443]);
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<6> = BigInt([0xa081a4324beca94a, 0x1a0336887aec49c0, 0xf0ebaff3eb775c21, 0xb1a22d9f300f5138, 0xac63b05c06ca1493, 0x1ae3a4617c510e]);
    const QNR: u64 = 2;
}
// True True True
