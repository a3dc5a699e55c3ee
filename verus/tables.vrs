// Garbled tables (C27): garble_and, garble_xor and garble_inv in src/protocol/garble.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include vd.vrs
//@include hashmap.vrs
//@include tasks.vrs
//@include nda_ops.vrs
//@include tab.vrs
//@include mult_stub.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
#[verifier::external_body]
pub struct Transforms<const W: u8> { x: u8 }
#[verifier::external_body]
pub struct LPNMatrix<const W: u8> { x: u8 }
//@item src/protocol/garble.rs | pub struct GarbleContext<
//@note LPNMatrix::get returns the gate's matrix with the shape proved in unit nonces (C28).
impl<const W: u8> LPNMatrix<W> {
    pub uninterp spec fn of(&self, gid: int) -> Array3<GF<W>>;
    #[verifier::external_body]
    pub fn get(&self, gid: usize) -> (r: Array3<GF<W>>) ensures r == self.of(gid as int) { unimplemented!() }
}

// A key with the bit it stands for behind it.
pub open spec fn key<const W: u8>(keys: Array2<GF<W>>, b: int) -> Seq<GF<W>> { Seq::new(keys.cols() + 1, |j: int| if j < keys.cols() { keys.at(b, j) } else if b == 1 { one::<W>() } else { zero::<W>() }) }
// One row of a table: input keys through the matrix, plus the encoded plaintext, plus the errors.
pub open spec fn cipher<const W: u8>(mat: Array3<GF<W>>, r: int, keys: Seq<GF<W>>, enc: Array2<GF<W>>, pt: Seq<GF<W>>, err: Seq<GF<W>>, m: int) -> Seq<GF<W>> {
    Seq::new(m as nat, |i: int| add(unerred(mat, r, keys, enc, pt, i), cell(err, m, r, i)))
}
pub open spec fn unerred<const W: u8>(mat: Array3<GF<W>>, r: int, keys: Seq<GF<W>>, enc: Array2<GF<W>>, pt: Seq<GF<W>>, i: int) -> GF<W> { add(dot(mat.line(r, i), keys), dot(pt, enc.row_s(i))) }
pub open spec fn pre<const W: u8>(mat: Array3<GF<W>>, r: int, keys: Seq<GF<W>>, enc: Array2<GF<W>>, pt: Seq<GF<W>>, m: int) -> Seq<GF<W>> { Seq::new(m as nat, |i: int| unerred(mat, r, keys, enc, pt, i)) }
// Keys of the two input wires for row r = 2 i + j.
pub open spec fn both<const W: u8>(keys: Array3<GF<W>>, r: int) -> Seq<GF<W>> { paddv(keys.line(0, r / 2), keys.line(1, r % 2)) }
// Plaintexts from the products p of (selection bit) and (difference of the keys).
pub open spec fn and_pt<const W: u8>(p: Seq<GF<W>>, k0: Seq<GF<W>>, k1: Seq<GF<W>>, r: int) -> Seq<GF<W>> {
    Seq::new(k0.len(), |j: int| if r < 3 { add(cell(p, k0.len() as int, r, j), k0[j]) } else { and_last(p, k0, k1, j) })
}
pub open spec fn and_last<const W: u8>(p: Seq<GF<W>>, k0: Seq<GF<W>>, k1: Seq<GF<W>>, j: int) -> GF<W> {
    let k = k0.len() as int;
    add(add(add(cell(p, k, 0, j), cell(p, k, 1, j)), cell(p, k, 2, j)), k1[j])
}
pub open spec fn xor_pt<const W: u8>(p: Seq<GF<W>>, k0: Seq<GF<W>>, k1: Seq<GF<W>>, r: int) -> Seq<GF<W>> { if r == 0 || r == 3 { paddv(p, k0) } else { paddv(p, k1) } }
pub open spec fn inv_pt<const W: u8>(p: Seq<GF<W>>, k0: Seq<GF<W>>, k1: Seq<GF<W>>, r: int) -> Seq<GF<W>> { if r == 0 { paddv(p, k0) } else { paddv(p, k1) } }

//@spec garble_main.vrs | ready_for
// What the first product (of the masks) and the second (of selection bits and key differences) are.
pub open spec fn and_mask<const W: u8>(net: Network, id: Seq<u8>, m: int, masks: [GF<W>; 2], rs: Seq<GF<W>>, zs: Seq<GF<W>>) -> GF<W> { mult_of(net, child(id, m, 0), None, pmul(seq![masks@[0]], seq![masks@[1]]), seq![rs.last()], seq![zs.last()])[0] }
pub open spec fn and_sel<const W: u8>(s: GF<W>, masks: [GF<W>; 2], k: int) -> Seq<GF<W>> { reps(s, k) + reps(add(s, masks@[0]), k) + reps(add(s, masks@[1]), k) }
pub open spec fn thrice<T>(d: Seq<T>) -> Seq<T> { d + d + d }
proof fn thrice_cells<const W: u8>(sel: Seq<GF<W>>, d: Seq<GF<W>>)
    ensures forall|x: Seq<GF<W>>, a: Seq<GF<W>>| x =~= sel && a.len() == 3 * d.len() && (forall|i: int, j: int| 0 <= i < 3 && 0 <= j < d.len() ==> #[trigger] cell(a, d.len() as int, i, j) == d[j]) ==> #[trigger] pmul(x, a) == pmul(sel, thrice(d))
{
    assert forall|x: Seq<GF<W>>, a: Seq<GF<W>>| x =~= sel && a.len() == 3 * d.len() && (forall|i: int, j: int| 0 <= i < 3 && 0 <= j < d.len() ==> #[trigger] cell(a, d.len() as int, i, j) == d[j]) implies #[trigger] pmul(x, a) == pmul(sel, thrice(d)) by {
        let m = d.len() as int;
        assert forall|x: int| 0 <= x < 3 * m implies a[x] == #[trigger] thrice(d)[x] by {
            if x < m { assert(cell(a, m, 0, x) == d[x]); } else if x < 2 * m { assert(cell(a, m, 1, x - m) == d[x - m]); } else { assert(cell(a, m, 2, x - 2 * m) == d[x - 2 * m]); }
        }
        assert(a =~= thrice(d));
    }
}
proof fn cancels<const W: u8>() ensures forall|a: GF<W>, b: GF<W>| #[trigger] add(add(a, b), b) == a {
    assert forall|a: GF<W>, b: GF<W>| #[trigger] add(add(a, b), b) == a by { l_cancel(a, b); }
}
proof fn few<const W: u8>()
    ensures
        forall|s: Seq<GF<W>>| s.len() == 2 ==> #[trigger] sumv(s) == add(s[0], s[1]),
        forall|s: Seq<GF<W>>| s.len() == 3 ==> #[trigger] sumv(s) == add(add(s[0], s[1]), s[2]),
{
    assert forall|s: Seq<GF<W>>| s.len() == 2 || s.len() == 3 implies #[trigger] sumv(s) == (if s.len() == 2 { add(s[0], s[1]) } else { add(add(s[0], s[1]), s[2]) }) by {
        reveal_with_fuel(sumv, 5);
        l_zero_add(s[0]);
        assert(s.drop_last().drop_last().len() == s.len() - 2);
    }
}

//@fn src/protocol/garble.rs | - | garble_and
//@rewrite \bcore::mult\( ==> core_mod::mult( # a module of the repository, not the library's core
//@contract
    requires
        ready_for(*context, gid as int), inp_keys.dims() == (2int, 2int, context.mpc.lpn_key_len as int), out_keys.rows() == 2, out_keys.cols() == context.mpc.lpn_key_len,
        randoms@.len() == 3 * (context.mpc.lpn_key_len + 1) + 1, zeros@.len() == randoms@.len(), errors@.len() == 4 * context.mpc.lpn_mssg_len,
    ensures
        exists|m: int| #[trigger] announced(m, 1) && ({
            let (k, k0, k1) = (context.mpc.lpn_key_len + 1, key(out_keys, 0), key(out_keys, 1));
            let s = add(and_mask(net, id@, m, inp_masks, randoms@, zeros@), out_mask);
            let p = mult_of(net, id@, None, pmul(and_sel(s, inp_masks, k), thrice(paddv(k1, k0))), randoms@.drop_last(), zeros@.drop_last());
            table(res, *context, gid as int, 4, |r: int| both(inp_keys, r), |r: int| and_pt(p, k0, k1, r), errors@)
        })
//@entry
    let ghost (kk, mm) = (context.mpc.lpn_key_len + 1, context.mpc.lpn_mssg_len as int);
    let ghost (k0, k1) = (key(out_keys, 0), key(out_keys, 1));
    proof { algebra::<W>(); sums::<W>(); cancels::<W>(); few::<W>(); swaps::<W>(); }
//@after ProtocolIDBuilder::new
    let ghost m = id_gen.of().1;
    let ghost s = add(and_mask(net, id@, m, inp_masks, randoms@, zeros@), out_mask);
    let ghost p = mult_of(net, id@, None, pmul(and_sel(s, inp_masks, kk), thrice(paddv(k1, k0))), randoms@.drop_last(), zeros@.drop_last());
    let ghost rows = Seq::new(4, |r: int| pre(context.lpn_mat.of(gid as int), r, both(inp_keys, r), context.lpn_enc, and_pt(p, k0, k1, r), mm));
    proof { assert(announced(m, 1)); thrice_cells(and_sel(s, inp_masks, kk), paddv(k1, k0)); cat_cells(rows, mm); }
//@before selected.dot
    proof { assert forall|r: int| 0 <= r < 4 implies #[trigger] selected.row_s(r) == and_pt(p, k0, k1, r) by { assert(selected.row_s(r) =~= and_pt(p, k0, k1, r)); } }
//@closure 0
    |row_idx: usize| -> (o: Vec<GF<W>>) requires row_idx < 4 ensures o@ =~= rows[row_idx as int]
//@end
//@fn src/protocol/garble.rs | - | garble_xor
//@rewrite \bcore::mult\( ==> core_mod::mult( # a module of the repository, not the library's core
//@contract
    requires
        ready_for(*context, gid as int), inp_keys.dims() == (2int, 2int, context.mpc.lpn_key_len as int), out_keys.rows() == 2, out_keys.cols() == context.mpc.lpn_key_len,
        randoms@.len() == context.mpc.lpn_key_len + 1, zeros@.len() == randoms@.len(), errors@.len() == 4 * context.mpc.lpn_mssg_len,
    ensures ({
        let (k, k0, k1) = (context.mpc.lpn_key_len + 1, key(out_keys, 0), key(out_keys, 1));
        let p = mult_of(net, id@, None, pmul(reps(add(add(inp_masks@[0], inp_masks@[1]), out_mask), k), paddv(k1, k0)), randoms@, zeros@);
        table(res, *context, gid as int, 4, |r: int| both(inp_keys, r), |r: int| xor_pt(p, k0, k1, r), errors@)
    })
//@entry
    let ghost (kk, mm) = (context.mpc.lpn_key_len + 1, context.mpc.lpn_mssg_len as int);
    let ghost (k0, k1) = (key(out_keys, 0), key(out_keys, 1));
    let ghost s = add(add(inp_masks@[0], inp_masks@[1]), out_mask);
    let ghost p = mult_of(net, id@, None, pmul(reps(s, kk), paddv(k1, k0)), randoms@, zeros@);
    let ghost rows = Seq::new(4, |r: int| pre(context.lpn_mat.of(gid as int), r, both(inp_keys, r), context.lpn_enc, xor_pt(p, k0, k1, r), mm));
    proof { algebra::<W>(); sums::<W>(); cancels::<W>(); few::<W>(); swaps::<W>(); products(reps(s, kk), paddv(k1, k0)); cat_cells(rows, mm); }
//@before mssgs.dot
    proof { assert forall|r: int| 0 <= r < 4 implies #[trigger] mssgs.row_s(r) == xor_pt(p, k0, k1, r) by { assert(mssgs.row_s(r) =~= xor_pt(p, k0, k1, r)); } }
//@closure 0
    |row_idx: usize| -> (o: Vec<GF<W>>) requires row_idx < 4 ensures o@ =~= rows[row_idx as int]
//@end
//@fn src/protocol/garble.rs | - | garble_inv
//@rewrite ?(\w+\.sum_axis\(Axis\(0\)\))\s*\+\s*&(selected)\b ==> \1.plus_rows(&\2) # a vector plus a matrix
//@rewrite \bcore::mult\( ==> core_mod::mult( # a module of the repository, not the library's core
//@contract
    requires
        ready_for(*context, gid as int), inp_keys.rows() == 2, inp_keys.cols() == context.mpc.lpn_key_len, out_keys.rows() == 2, out_keys.cols() == context.mpc.lpn_key_len,
        randoms@.len() == context.mpc.lpn_key_len + 1, zeros@.len() == randoms@.len(), errors@.len() == 2 * context.mpc.lpn_mssg_len,
    ensures ({
        let (k, k0, k1) = (context.mpc.lpn_key_len + 1, key(out_keys, 0), key(out_keys, 1));
        let p = mult_of(net, id@, None, pmul(reps(add(add(inp_mask, out_mask), one::<W>()), k), paddv(k1, k0)), randoms@, zeros@);
        table(res, *context, gid as int, 2, |r: int| inp_keys.row_s(r), |r: int| inv_pt(p, k0, k1, r), errors@)
    })
//@entry
    let ghost (kk, mm) = (context.mpc.lpn_key_len + 1, context.mpc.lpn_mssg_len as int);
    let ghost (k0, k1) = (key(out_keys, 0), key(out_keys, 1));
    let ghost s = add(add(inp_mask, out_mask), one::<W>());
    let ghost p = mult_of(net, id@, None, pmul(reps(s, kk), paddv(k1, k0)), randoms@, zeros@);
    let ghost rows = Seq::new(2, |r: int| pre(context.lpn_mat.of(gid as int), r, inp_keys.row_s(r), context.lpn_enc, inv_pt(p, k0, k1, r), mm));
    proof { algebra::<W>(); sums::<W>(); cancels::<W>(); few::<W>(); swaps::<W>(); swapped::<W>(); products(reps(s, kk), paddv(k1, k0)); cat_cells(rows, mm); }
//@before selected.dot
    proof { assert forall|r: int| 0 <= r < 2 implies #[trigger] selected.row_s(r) == inv_pt(p, k0, k1, r) by { assert(selected.row_s(r) =~= inv_pt(p, k0, k1, r)); } }
//@closure 0
    |i: usize| -> (o: Vec<GF<W>>) requires i < 2 ensures o@ =~= rows[i as int]
//@end
// a + b added to p + a leaves p + b
proof fn swapped<const W: u8>()
    ensures forall|a: GF<W>, b: GF<W>, p: GF<W>| #[trigger] add(add(a, b), add(p, a)) == add(p, b)
{
    assert forall|a: GF<W>, b: GF<W>, p: GF<W>| #[trigger] add(add(a, b), add(p, a)) == add(p, b) by {
        a_add_comm(a, b);
        a_add_comm(p, a);
        a_add_assoc(add(b, a), a, p);
        l_cancel(b, a);
        a_add_comm(b, p);
    }
}
proof fn products<const W: u8>(sel: Seq<GF<W>>, d: Seq<GF<W>>) ensures forall|x: Seq<GF<W>>, a: Seq<GF<W>>| x =~= sel && a =~= d ==> #[trigger] pmul(x, a) == pmul(sel, d) { }
pub open spec fn announced(m: int, k: int) -> bool { m >= k }
// The table a party computes: row r hides plaintext pt(r) under the keys ks(r).
spec fn table<const W: u8>(res: Array2<GF<W>>, c: GarbleContext<W>, gid: int, rows: int, ks: spec_fn(int) -> Seq<GF<W>>, pt: spec_fn(int) -> Seq<GF<W>>, err: Seq<GF<W>>) -> bool {
    res.rows() == rows && res.cols() == c.mpc.lpn_mssg_len && forall|r: int, i: int| 0 <= r < rows && 0 <= i < c.mpc.lpn_mssg_len ==> #[trigger] res.at(r, i) == add(unerred(c.lpn_mat.of(gid), r, ks(r), c.lpn_enc, pt(r), i), cell(err, c.mpc.lpn_mssg_len as int, r, i))
}

// What the plaintexts are. In one slot: la, lb and lo are the masks of the two inputs and of the output, k0 and k1 one element of
// the output keys; the products are those of the values (C20). Row r = 2 i + j is for inputs with masked values i and j: its
// plaintext is the element of the key for the masked value v of the output.
pub open spec fn bv<const W: u8>(i: int) -> GF<W> { if i == 1 { one() } else { zero() } }
pub open spec fn pick<const W: u8>(v: GF<W>, k0: GF<W>, k1: GF<W>) -> GF<W> { add(mul(v, add(k1, k0)), k0) }
pub proof fn picked<const W: u8>(k0: GF<W>, k1: GF<W>) ensures pick(zero::<W>(), k0, k1) == k0, pick(one::<W>(), k0, k1) == k1 {
    l_mul_zero(add(k1, k0)); l_zero_add(k0);
    l_one_mul(add(k1, k0)); l_cancel(k1, k0);
}
pub proof fn and_value<const W: u8>(la: GF<W>, lb: GF<W>, lo: GF<W>, k0: GF<W>, k1: GF<W>, i: int, j: int)
    requires 0 <= i < 2, 0 <= j < 2
    ensures ({
        let s = add(mul(la, lb), lo);
        let d = add(k1, k0);
        let p = seq![mul(s, d), mul(add(s, la), d), mul(add(s, lb), d)];
        let r = 2 * i + j;
        and_pt(p, seq![k0], seq![k1], r)[0] == pick(add(mul(add(bv(i), la), add(bv(j), lb)), lo), k0, k1)
    })
{
    let s = add(mul(la, lb), lo);
    let d = add(k1, k0);
    let p = seq![mul(s, d), mul(add(s, la), d), mul(add(s, lb), d)];
    let r = 2 * i + j;
    assert(cell(p, 1, 0, 0) == p[0] && cell(p, 1, 1, 0) == p[1] && cell(p, 1, 2, 0) == p[2]);
    l_zero_add(la); l_zero_add(lb);
    let (o, ab) = (one::<W>(), mul(la, lb));
    if i == 0 && j == 1 {
        // la (1 + lb) = la + la lb
        a_dist(la, o, lb); a_mul_one(la); a_add_comm(la, ab); swap3(ab, la, lo);
        assert(add(mul(la, add(o, lb)), lo) == add(s, la));
    } else if i == 1 && j == 0 {
        l_dist2(o, la, lb); l_one_mul(lb); a_add_comm(lb, ab); swap3(ab, lb, lo);
        assert(add(mul(add(o, la), lb), lo) == add(s, lb));
    } else if i == 1 && j == 1 {
        // (1 + la) (1 + lb) + lo = ((1 + lb) + (la + la lb)) + lo
        l_dist2(o, la, add(o, lb)); l_one_mul(add(o, lb)); a_dist(la, o, lb); a_mul_one(la);
        let v = add(add(add(o, lb), add(la, ab)), lo);
        assert(v == add(mul(add(bv(i), la), add(bv(j), lb)), lo));
        a_add_assoc(add(o, lb), la, ab);
        // v = s + la + lb + 1
        let w = add(add(add(s, la), lb), o);
        assert(v == add(add(add(add(o, lb), la), ab), lo));
        assert(add(add(add(add(o, lb), la), ab), lo) == add(add(add(add(ab, lo), la), lb), o)) by { five(o, lb, la, ab, lo); }
        // p0 + p1 + p2 + k1 = (s + la + lb) d + k1
        let q = add(add(s, la), add(s, lb));
        l_dist2(s, add(s, la), d); l_dist2(add(s, add(s, la)), add(s, lb), d);
        l_cancel(s, la);
        assert(add(add(p[0], p[1]), p[2]) == mul(add(la, add(s, lb)), d));
        a_add_comm(la, add(s, lb)); swap3(s, lb, la);
        assert(add(la, add(s, lb)) == add(add(s, la), lb));
        // w d + k0 = (s + la + lb) d + d + k0
        l_dist2(add(add(s, la), lb), o, d); l_one_mul(d);
        a_add_assoc(mul(add(add(s, la), lb), d), d, k0); l_cancel(k1, k0);
    }
}
proof fn swap3<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>) ensures add(add(a, b), c) == add(add(a, c), b) { a_add_assoc(a, b, c); a_add_comm(b, c); a_add_assoc(a, c, b); }
proof fn five<const W: u8>(o: GF<W>, lb: GF<W>, la: GF<W>, ab: GF<W>, lo: GF<W>) ensures add(add(add(add(o, lb), la), ab), lo) == add(add(add(add(ab, lo), la), lb), o) {
    let (x, y) = (add(o, lb), add(ab, lo));
    a_add_assoc(add(x, la), ab, lo);       // (x + la) + y
    a_add_comm(add(x, la), y);             // y + (x + la)
    a_add_comm(x, la); a_add_assoc(y, la, x);   // (y + la) + x
    a_add_comm(o, lb); a_add_assoc(add(y, la), lb, o);
}
pub proof fn xor_value<const W: u8>(la: GF<W>, lb: GF<W>, lo: GF<W>, k0: GF<W>, k1: GF<W>, i: int, j: int)
    requires 0 <= i < 2, 0 <= j < 2
    ensures ({
        let p = seq![mul(add(add(la, lb), lo), add(k1, k0))];
        xor_pt(p, seq![k0], seq![k1], 2 * i + j)[0] == pick(add(add(add(bv(i), la), add(bv(j), lb)), lo), k0, k1)
    })
{
    let (o, s, d) = (one::<W>(), add(add(la, lb), lo), add(k1, k0));
    l_zero_add(la); l_zero_add(lb); l_zero_add(s);
    if i != j { shifted(s, k0, k1); }
    if i == 1 && j == 1 { 
        // (1 + la) + (1 + lb) = la + lb
        a_add_comm(o, la); a_add_assoc(la, o, add(o, lb)); l_cancel(o, lb);
    } else if i == 1 && j == 0 {
        a_add_assoc(o, la, lb); a_add_assoc(o, add(la, lb), lo); a_add_comm(o, s);
    } else if i == 0 && j == 1 {
        a_add_comm(o, lb); a_add_assoc(la, lb, o); swap3(add(la, lb), o, lo);
    }
}
// The other key: selecting with the complement.
proof fn shifted<const W: u8>(s: GF<W>, k0: GF<W>, k1: GF<W>) ensures add(mul(s, add(k1, k0)), k1) == pick(add(s, one()), k0, k1) {
    let d = add(k1, k0);
    l_dist2(s, one(), d); l_one_mul(d); a_add_assoc(mul(s, d), d, k0); l_cancel(k1, k0);
}
pub proof fn inv_value<const W: u8>(li: GF<W>, lo: GF<W>, k0: GF<W>, k1: GF<W>, i: int)
    requires 0 <= i < 2
    ensures ({
        let p = seq![mul(add(add(li, lo), one()), add(k1, k0))];
        inv_pt(p, seq![k0], seq![k1], i)[0] == pick(add(add(add(bv(i), li), one()), lo), k0, k1)
    })
{
    let (o, s) = (one::<W>(), add(add(li, lo), one()));
    l_zero_add(li);
    swap3(li, o, lo);
    if i == 1 {
        shifted(s, k0, k1);
        // ((1 + li) + 1) + lo = li + lo = s + 1
        a_add_comm(o, li); l_cancel(li, o); l_cancel(add(li, lo), o);
    }
}

// The table as a sharing: sums of products of polynomials with la and lb coefficients, la + lb <= n + 1, are polynomials with n.
pub open spec fn evs<const W: u8>(ps: Seq<Seq<GF<W>>>, x: GF<W>) -> Seq<GF<W>> { Seq::new(ps.len(), |j: int| ev(ps[j], x)) }
proof fn dot_poly<const W: u8>(pa: Seq<Seq<GF<W>>>, pb: Seq<Seq<GF<W>>>, n: int) -> (p: Seq<GF<W>>)
    requires pa.len() == pb.len(), 0 <= n, forall|j: int| 0 <= j < pa.len() ==> (#[trigger] pa[j]).len() >= 1 && pb[j].len() >= 1 && pa[j].len() + pb[j].len() <= n + 1
    ensures p.len() == n, forall|x: GF<W>| #[trigger] ev(p, x) == dot(evs(pa, x), evs(pb, x))
    decreases pa.len()
{
    if pa.len() == 0 {
        let p = zeros::<W>(n as nat);
        assert forall|x: GF<W>| #[trigger] ev(p, x) == dot(evs(pa, x), evs(pb, x)) by { ev_zeros::<W>(n as nat, x); }
        p
    } else {
        let (da, db) = (pa.drop_last(), pb.drop_last());
        assert forall|j: int| 0 <= j < da.len() implies (#[trigger] da[j]).len() >= 1 && db[j].len() >= 1 && da[j].len() + db[j].len() <= n + 1 by { assert(pa[j].len() >= 1); }
        let a = dot_poly(da, db, n);
        assert(pa[pa.len() - 1].len() >= 1);
        let b = mulpoly(pa.last(), pb.last(), n);
        let p = padd(a, b);
        assert forall|x: GF<W>| #[trigger] ev(p, x) == dot(evs(pa, x), evs(pb, x)) by {
            ev_padd(a, b, x);
            assert(evs(pa, x).drop_last() =~= evs(da, x) && evs(pb, x).drop_last() =~= evs(db, x));
        }
        p
    }
}
// One element of a table: the matrix row is shared by pm (l coefficients each), the input keys and plaintext by pk and pp
// (np coefficients), the errors by pe; the element is a sharing with n coefficients of the same combination of the secrets.
pub proof fn hides<const W: u8>(pm: Seq<Seq<GF<W>>>, pk: Seq<Seq<GF<W>>>, pp: Seq<Seq<GF<W>>>, e: Seq<GF<W>>, pe: Seq<GF<W>>, l: int, np: int, n: int) -> (p: Seq<GF<W>>)
    requires
        1 <= l, 1 <= np, l + np <= n + 1, pm.len() == pk.len(), pp.len() == e.len(), pe.len() == np,
        forall|j: int| 0 <= j < pm.len() ==> (#[trigger] pm[j]).len() == l && pk[j].len() == np, forall|j: int| 0 <= j < pp.len() ==> (#[trigger] pp[j]).len() == np,
    ensures p.len() == n, forall|x: GF<W>| #[trigger] ev(p, x) == add(add(dot(evs(pm, x), evs(pk, x)), dot(evs(pp, x), e)), ev(pe, x))
{
    let ce = Seq::new(e.len(), |j: int| seq![e[j]]);
    let (a, b, c) = (dot_poly(pm, pk, n), dot_poly(pp, ce, n), pe + zeros::<W>((n - np) as nat));
    let p = padd(padd(a, b), c);
    assert forall|x: GF<W>| #[trigger] ev(p, x) == add(add(dot(evs(pm, x), evs(pk, x)), dot(evs(pp, x), e)), ev(pe, x)) by {
        ev_padd(a, b, x); ev_padd(padd(a, b), c, x); ev_more(pe, (n - np) as nat, x);
        assert forall|j: int| 0 <= j < e.len() implies #[trigger] ev(ce[j], x) == e[j] by {
            reveal_with_fuel(ev, 3);
            assert(ce[j].drop_first() =~= Seq::empty());
            l_mul_zero(x); a_add_zero(e[j]);
        }
        assert(evs(ce, x) =~= e);
    }
    p
}
// Garbling calls these three where their contracts allow it; the name for the resulting table stands for the contracts above.
//@stub garble_main.vrs | - | garble_and |  | ensures r == table_of[^\n]*
    garble_and(id, gid, inp_masks, inp_keys, out_mask, out_keys, randoms, zeros, errors, context, net).await
//@end
//@stub garble_main.vrs | - | garble_xor |  | ensures r == table_of[^\n]*
    garble_xor(id, gid, inp_masks, inp_keys, out_mask, out_keys, randoms, zeros, errors, context, net).await
//@end
//@stub garble_main.vrs | - | garble_inv |  | ensures r == table_of[^\n]*
    garble_inv(id, gid, inp_mask, inp_keys, out_mask, out_keys, randoms, zeros, errors, context, net).await
//@end
}
