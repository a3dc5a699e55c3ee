// The field tables (C01, C02): extern/galois/galois.c, all widths 1..=29.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@note The tables are `static` in galois.c and start as NULL; galois_create_log_tables is the only function that writes them (the others under contract do not).
//@note malloc returns NULL or a fresh block of the size asked for; exit is proved not to be reached.
//@note W is below 30, as the documentation of GF requires.
//@ctable extern/galois/galois.c | prim_poly
//@ctable extern/galois/galois.c | nw
//@ctable extern/galois/galois.c | nwm1
//@cptrs galois_log_tables galois_ilog_tables
//@include field.vrs
//@include primitive.vrs

pub open spec fn ready(g: Galois, w: int) -> bool {
    let (l, i, n) = (g.galois_log_tables@[w], g.galois_ilog_tables@[w], nwm1_s(w) as int);
    &&& !l.null && l.off == 0 && l.data.len() == n + 1
    &&& !i.null && i.off == n && i.data.len() >= 3 * n
    &&& primitive(w)
    &&& forall|x: i32| 1 <= x <= n ==> #[trigger] l.data[x as int] == Some(lg(w, x) as i32)
    &&& forall|j: int| 0 <= j < 3 * n ==> #[trigger] i.data[j] == Some(pw(w, j))
}
// Every table is either absent or complete.
pub open spec fn inv(g: Galois) -> bool {
    &&& g.galois_log_tables@.len() == 33 && g.galois_ilog_tables@.len() == 33
    &&& forall|w: int| #![trigger g.galois_log_tables@[w]] 1 <= w <= 29 && !g.galois_log_tables@[w].null ==> ready(g, w)
}

// Only width w changed.
spec fn same(a: Galois, b: Galois, w: int) -> bool {
    &&& b.galois_log_tables@.len() == 33 && b.galois_ilog_tables@.len() == 33
    &&& forall|k: int| #![trigger b.galois_log_tables@[k]] 0 <= k < 33 && k != w ==> b.galois_log_tables@[k] == a.galois_log_tables@[k]
    &&& forall|k: int| #![trigger b.galois_ilog_tables@[k]] 0 <= k < 33 && k != w ==> b.galois_ilog_tables@[k] == a.galois_ilog_tables@[k]
}
spec fn made(g: Galois, w: int) -> bool {
    let (l, i, n) = (g.galois_log_tables@[w], g.galois_ilog_tables@[w], nwm1_s(w) as int);
    !l.null && l.off == 0 && l.data.len() == n + 1 && !i.null && i.off == 0 && i.data.len() >= 3 * n
}
spec fn log_entry(w: int, x: int, e: Option<i32>, j: int) -> bool {
    e.is_some() && (e->0 == nwm1_s(w) || (0 <= e->0 < j && pw(w, e->0 as int) == x))
}

//@fn extern/galois/galois.c | - | galois_create_log_tables
//@contract
    requires 1 <= w <= 29, inv(*old(g)),
    ensures inv(*final(g)), res == 0 ==> ready(*final(g), w as int), res == 0 || res == -1,
        forall|k: int| #![trigger ready(*final(g), k)] 1 <= k <= 29 && ready(*old(g), k) ==> ready(*final(g), k),
//@entry
    proof { tables(w as int); }
    let ghost n = nwm1_s(w as int) as int;
    let ghost g0 = *g;
//@loop 0
    invariant 1 <= w <= 29, 1 <= n < 0x2000_0000, 0 <= j <= n + 1, n == nwm1_s(w as int), nw_s(w as int) == n + 1, same(g0, *g, w as int),
        made(*g, w as int),
        forall|x: int| 0 <= x < j ==> #[trigger] g.galois_log_tables@[w as int].data[x] == Some(n as i32),
    decreases n + 1 - j
//@loop 1
    invariant 1 <= w <= 29, 1 <= n < 0x2000_0000, 0 <= j <= n, n == nwm1_s(w as int), nw_s(w as int) == n + 1, same(g0, *g, w as int),
        made(*g, w as int), b == pw(w as int, j as int), 1 <= b <= n,
        distinct(w as int, j as int),
        forall|x: int| 0 <= x <= n ==> log_entry(w as int, x, #[trigger] g.galois_log_tables@[w as int].data[x], j as int),
        forall|i: int| 0 <= i < j ==> #[trigger] g.galois_log_tables@[w as int].data[pw(w as int, i) as int] == Some(i as i32),
        forall|i: int| 0 <= i < j ==> #[trigger] g.galois_ilog_tables@[w as int].data[i] == Some(pw(w as int, i)),
    decreases n - j
//@loopstart 1
    proof { pw_range(w as int, j + 1); prim(w as int); assert(log_entry(w as int, b as int, g.galois_log_tables@[w as int].data[b as int], j as int)); }
//@preloop 2
    proof {
        assert forall|x: i32| 1 <= x <= n implies #[trigger] g.galois_log_tables@[w as int].data[x as int] == Some(lg(w as int, x) as i32) by {
            onto(w as int, x);
        }
    }
//@loopstart 2
    proof { period(w as int, j as int); period(w as int, j + n); }
//@loop 2
    invariant 1 <= w <= 29, 1 <= n < 0x2000_0000, 0 <= j <= n, n == nwm1_s(w as int), nw_s(w as int) == n + 1, same(g0, *g, w as int),
        made(*g, w as int), primitive(w as int),
        forall|x: i32| 1 <= x <= n ==> #[trigger] g.galois_log_tables@[w as int].data[x as int] == Some(lg(w as int, x) as i32),
        forall|i: int| 0 <= i < n ==> #[trigger] g.galois_ilog_tables@[w as int].data[i] == Some(pw(w as int, i)),
        forall|i: int| n <= i < n + j ==> #[trigger] g.galois_ilog_tables@[w as int].data[i] == Some(pw(w as int, i)),
        forall|i: int| 2 * n <= i < 2 * n + j ==> #[trigger] g.galois_ilog_tables@[w as int].data[i] == Some(pw(w as int, i)),
    decreases n - j
//@end

//@fn extern/galois/galois.c | - | galois_logtable_multiply
//@contract
    requires 1 <= w <= 29, ready(*old(g), w as int), el(w as int, x), el(w as int, y)
    ensures res == fmul(w as int, x, y), *final(g) == *old(g)
//@entry
    proof { tables(w as int); if x != 0 { onto(w as int, x); } if y != 0 { onto(w as int, y); } }
    proof { if x != 0 && y != 0 { period(w as int, lg(w as int, x) + lg(w as int, y)); } }
//@end
//@fn extern/galois/galois.c | - | galois_logtable_divide
//@contract
    requires 1 <= w <= 29, ready(*old(g), w as int), el(w as int, x), el(w as int, y), y != 0
    ensures res == fmul(w as int, x, finv(w as int, y)), *final(g) == *old(g)
//@entry
    proof { quotient(w as int, x, y); }
//@end
// x / y is a power found one turn further on.
proof fn quotient(w: int, x: i32, y: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x), el(w, y), y != 0
    ensures x != 0 ==> fmul(w, x, finv(w, y)) == pw(w, nwm1_s(w) + (lg(w, x) - lg(w, y))), x != 0 ==> is_lg(w, x, lg(w, x)), is_lg(w, y, lg(w, y)),
        nwm1_s(w) >= 1, nwm1_s(w) <= 0x2000_0000,
{
    tables(w);
    onto(w, y);
    if x != 0 {
        onto(w, x);
        let (a, b, n) = (lg(w, x), lg(w, y), nwm1_s(w) as int);
        pw_range(w, n - b);
        reduce(w, n - b);
        reduce(w, a + (n - b) % n);
        reduce(w, n + (a - b));
        vstd::arithmetic::div_mod::lemma_add_mod_noop(a, n - b, n);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(a, (n - b) % n, n);
        vstd::arithmetic::div_mod::lemma_mod_twice(n - b, n);
    }
}
// What the Rust side assumes of these functions (gf_elem.vrs, gfinit.vrs), copied from there and proved of the functions above.
//@note The tables of the process live in C's static memory. For Rust, `set_up(w)` stands for: complete tables of width w were there once; they stay, since every function under contract keeps complete tables and no other function writes them.
mod rust {
    use super::*;
    use vstd::prelude::*;
    verus! {
    pub uninterp spec fn set_up(w: int) -> bool;
    #[verifier::external_body]
    pub fn tables_with(Ghost(w): Ghost<int>) -> (g: Galois) requires set_up(w) ensures ready(g, w) { unimplemented!() }
    #[verifier::external_body]
    pub fn tables_now() -> (g: Galois) ensures inv(g) { unimplemented!() }
    #[verifier::external_body]
    pub fn tables_left(g: Galois) requires inv(g) ensures forall|w: int| 1 <= w <= 29 && #[trigger] ready(g, w) ==> set_up(w) { unimplemented!() }
    //@axiom gf_elem.vrs | set_up_means | -
        prim(w);
    //@end
    pub struct Held;
    //@stub gfinit.vrs | - | galois_create_log_tables
        let mut g = tables_now();
        let r = super::galois_create_log_tables(&mut g, w);
        let ghost gg = g;
        tables_left(g);
        proof { if r == 0 { assert(ready(gg, w as int)); } }
        r
    //@end
    mod bindings {
        use super::*;
        use vstd::prelude::*;
        verus! {
        //@stub gf_elem.vrs | - | galois_logtable_multiply
            let mut g = tables_with(Ghost(w as int));
            super::super::galois_logtable_multiply(&mut g, x, y, w)
        //@end
        //@stub gf_elem.vrs | - | galois_logtable_divide
            let mut g = tables_with(Ghost(w as int));
            super::super::galois_logtable_divide(&mut g, x, y, w)
        //@end
        }
    }
    }
}
}
