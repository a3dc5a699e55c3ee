// Arrays filled by a closure.
//@std simple_fn
#[verifier::external_body]
pub fn volume1(s: usize) -> (r: usize) ensures r == s { unimplemented!() }
#[verifier::external_body]
pub fn volume2(s: (usize, usize)) -> (r: usize) ensures r == s.0 * s.1 { unimplemented!() }
#[verifier::external_body]
pub fn volume3(s: (usize, usize, usize)) -> (r: usize) ensures r == s.0 * s.1 * s.2 { unimplemented!() }
