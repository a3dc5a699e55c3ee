//! The contract that units frame and route assume of the vint64 crate, for every number.
#[cfg(kani)]
#[kani::proof]
fn vint() {
    let n: u64 = kani::any();
    let e = vint64::encode(n);
    let b: &[u8] = e.as_ref();
    assert!(1 <= b.len() && b.len() <= 9);
    assert!(vint64::encoded_len(n) == b.len());
    assert!(vint64::decoded_len(b[0]) == b.len());
    let mut s = b;
    assert!(matches!(vint64::decode(&mut s), Ok(m) if m == n));
}
