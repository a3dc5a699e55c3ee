// GF::init (C02): src/math/galois/mod.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include gf_elem.vrs
pub struct Held;
#[verifier::external_body]
 fn galois_create_log_tables(w: i32, held: &Held) -> (r: i32)
        requires 1 <= w <= 29
        ensures r == 0 ==> set_up(w as int), r == 0 || r == -1 { unimplemented!() }

#[verifier::external_body]
fn take_lock() -> Held { unimplemented!() }
impl<const W: u8> GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> GF<W>$ | init
//@rewrite static \w+: (?:std::sync::)?Mutex<\(\)> = (?:std::sync::)?Mutex::new\(\(\)\); ==> <nothing> # one lock for the process; taking it is `take_lock`
//@rewrite let (_\w+) = \w+\.lock\(\)\.\w+(?:\([^;]*\))?; ==> let \1 = take_lock(); # as above
//@rewrite (?:bindings::)?galois_create_log_tables\(([^;{}]*?)\)\s*\} ==> galois_create_log_tables(\1, &_guard) } # the tables may only be written with the lock held
//@contract
    requires 1 <= W <= 29
    ensures res.is_ok() ==> usable::<W>()
//@end
}
}
