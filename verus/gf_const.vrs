// ---- constants, conversions, sampling, encoding
//@const src/math/galois/mod.rs | ORDER | fn order<const W: u8>() -> (r: u32) requires 1 <= W <= 29 ensures r == nwm1_s(W as int) + 1
    proof { tables(W as int); powers(W); }
//@end
//@const src/math/galois/mod.rs | NUM_BYTES | fn num_bytes<const W: u8>() -> (r: usize) requires 1 <= W <= 29 ensures 8 * r >= W, 8 * r < W + 8
//@end
//@const src/math/galois/mod.rs | ZERO | fn zero_const<const W: u8>() -> (r: GF<W>) ensures r == GF::<W>(0)
//@rewrite \bSelf\( ==> GF::<W>( # constant outside its impl
//@end
//@const src/math/galois/mod.rs | ONE | fn one_const<const W: u8>() -> (r: GF<W>) ensures r == GF::<W>(1)
//@rewrite \bSelf\( ==> GF::<W>( # constant outside its impl
//@end
pub assume_specification [u32::pow](b: u32, e: u32) -> (r: u32)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= u32::MAX
    ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
spec fn p2(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * p2((k - 1) as nat) } }
proof fn p2_is(k: nat) ensures p2(k) == vstd::arithmetic::power::pow(2, k) decreases k {
    reveal(vstd::arithmetic::power::pow);
    if k > 0 { p2_is((k - 1) as nat); }
}
proof fn powers(w: u8)
    requires 1 <= w <= 29
    ensures vstd::arithmetic::power::pow(2, w as nat) == nw_s(w as int)
{
    reveal(nw_s);
    p2_is(w as nat);
    assert(p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32 && p2(6) == 64 && p2(7) == 128 && p2(8) == 256 && p2(9) == 512 && p2(10) == 1024 && p2(11) == 2048 && p2(12) == 4096 && p2(13) == 8192 && p2(14) == 16384 && p2(15) == 32768 && p2(16) == 65536 && p2(17) == 131072 && p2(18) == 262144 && p2(19) == 524288 && p2(20) == 1048576 && p2(21) == 2097152 && p2(22) == 4194304 && p2(23) == 8388608 && p2(24) == 16777216 && p2(25) == 33554432 && p2(26) == 67108864 && p2(27) == 134217728 && p2(28) == 268435456 && p2(29) == 536870912) by (compute);
}
