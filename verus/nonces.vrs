// Encryption matrices (C28): LPNMatrix in src/protocol/garble.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@std bump
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include vd.vrs
//@include hashmap.vrs
//@include draws3.vrs
impl<K> HashMap<K, usize> {
    #[verifier::external_body]
    pub fn bump(&mut self, k: K, a: usize, b: usize)
        requires (if old(self)@.dom().contains(k) { old(self)@[k] } else { a }) + b <= usize::MAX
        ensures final(self)@ == old(self)@.insert(k, ((if old(self)@.dom().contains(k) { old(self)@[k] } else { a }) + b) as usize)
    { unimplemented!() }
}
//@include posns.vrs
#[verifier::external_body]
pub struct ChaCha12Rng { x: u8 }
impl Rng for ChaCha12Rng { uninterp spec fn log<const W: u8>(&self) -> Seq<GF<W>>; uninterp spec fn seed(&self) -> Option<Seq<u8>>; }
impl ChaCha12Rng {
    #[verifier::external_body]
    pub fn from_seed(s: [u8; 32]) -> (r: Self) ensures r.seed() == Some(s@), fresh(r) { unimplemented!() }
}
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
impl PackedCircuit {
//@fn src/circuit.rs | ^impl PackedCircuit$ | gates
//@contract
    ensures res@ == self.gates@
//@end
}
//@note SHA-256 has no collisions on the inputs used; ChaCha12 streams of different seeds are unrelated; usize::to_be_bytes is injective with 8 bytes.
pub uninterp spec fn sha(d: Seq<u8>) -> [u8; 32];
#[verifier::external_body]
pub struct Sha256 { x: u8 }
#[verifier::external_body]
pub struct Digest { x: u8 }
impl Digest { pub uninterp spec fn of(&self) -> Seq<u8>; }
impl Sha256 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &Vec<u8>) ensures final(self)@ == old(self)@ + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Digest) ensures r.of() == self@ { unimplemented!() }
}
impl Conv<[u8; 32]> for Digest {
    open spec fn same(&self, r: &[u8; 32]) -> bool { *r == sha(self.of()) }
    #[verifier::external_body]
    fn conv(self) -> (r: [u8; 32]) { unimplemented!() }
}
pub uninterp spec fn be(v: usize) -> Seq<u8>;
pub axiom fn a_be(v: usize, w: usize) ensures be(v).len() == 8, be(v) == be(w) ==> v == w;
#[verifier::external_body]
pub fn be8(v: usize) -> (r: [u8; 8]) ensures r@ == be(v) { unimplemented!() }
impl IntoIt<u8> for [u8; 8] {
    open spec fn items(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<u8>) { unimplemented!() }
}
#[verifier::external_body]
pub fn cmp_max(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { unimplemented!() }

// How often wire k.1 is an input in slot k.0.
pub open spec fn cnt(m: Map<(usize, u32), usize>, k: (usize, u32)) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
pub open spec fn has(w: Seq<u32>, k: (usize, u32)) -> int { if k.0 < w.len() && w[k.0 as int] == k.1 { 1 } else { 0 } }
pub open spec fn wires<const N: usize>(g: PackedGateInfo<N>) -> Seq<Seq<u32>> { Seq::new(N as nat, |i: int| g.inp@[i]@) }
pub open spec fn uses(w: Seq<Seq<u32>>, k: (usize, u32)) -> int decreases w.len() { if w.len() == 0 { 0 } else { uses(w.drop_last(), k) + has(w.last(), k) } }
proof fn uses_bound(w: Seq<Seq<u32>>, k: (usize, u32)) ensures 0 <= uses(w, k) <= w.len() decreases w.len() { if w.len() > 0 { uses_bound(w.drop_last(), k); } }
proof fn used_once(w: Seq<Seq<u32>>, i: int, s: int)
    requires 0 <= i < w.len(), 0 <= s < w[i].len() <= usize::MAX
    ensures uses(w, (s as usize, w[i][s])) >= 1
    decreases w.len()
{
    if i < w.len() - 1 { used_once(w.drop_last(), i, s); } else { uses_bound(w.drop_last(), (s as usize, w[i][s])); }
}
pub open spec fn ins(g: PackedGate) -> Seq<Seq<u32>> { match g { PackedGate::And(i) => wires(i), PackedGate::Xor(i) => wires(i), PackedGate::Inv(i) => wires(i) } }
// after gates 0..=g
pub open spec fn total(gs: Seq<PackedGate>, k: (usize, u32)) -> int decreases gs.len() { if gs.len() == 0 { 0 } else { total(gs.drop_last(), k) + uses(ins(gs.last()), k) } }
// What is hashed for a gate: the earlier uses of the first and of the second inputs, slot by slot, 0 where there is none.
pub open spec fn code_at(w: Seq<Seq<u32>>, m: spec_fn((usize, u32)) -> int, i: int, s: int) -> int { if i < w.len() && s < w[i].len() { m((s as usize, w[i][s])) - 1 } else { 0 } }
pub open spec fn codes(w: Seq<Seq<u32>>, m: spec_fn((usize, u32)) -> int, i: int, l: int) -> Seq<Seq<u8>> { Seq::new(l as nat, |s: int| be(code_at(w, m, i, s) as usize)) }
pub open spec fn hashed(w: Seq<Seq<u32>>, m: spec_fn((usize, u32)) -> int, l: int) -> Seq<u8> { cat(codes(w, m, 0, l)) + cat(codes(w, m, 1, l)) }
spec fn mp(m: HashMap<(usize, u32), usize>) -> Map<(usize, u32), usize> { m@ }
spec fn mq(m: HashMap<[u8; 32], usize>) -> Map<[u8; 32], usize> { m@ }
impl<K, V> IntoIt<(K, V)> for HashMap<K, V> {
    open spec fn items(&self) -> Seq<(K, V)> { entries(self@) }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<(K, V)>) { unimplemented!() }
}

//@item src/protocol/garble.rs | struct LPNMatrix<
//@rewrite ArcArray<PackedShare<W>,\s*Ix3> ==> Array3<PackedShare<W>> # shared arrays as arrays
impl<const W: u8> LPNMatrix<W> {
//@fn src/protocol/garble.rs | ^impl<const W: u8> LPNMatrix<W>$ | update_counts
//@contract
    requires N <= 2, forall|k: (usize, u32)| cnt(mp(*old(counts)), k) + 2 <= usize::MAX
    ensures forall|k: (usize, u32)| #[trigger] cnt(mp(*final(counts)), k) == cnt(mp(*old(counts)), k) + uses(wires(*ginf), k)
//@entry
    let ghost c0 = mp(*counts);
//@loop 0
    invariant
        N <= 2, __s0@.len() == N, forall|k: int| 0 <= k < N ==> #[trigger] __s0@[k] == k,
        forall|k: (usize, u32)| cnt(c0, k) + 2 <= usize::MAX,
        forall|k: (usize, u32)| #[trigger] cnt(mp(*counts), k) == cnt(c0, k) + uses(wires(*ginf).take(__k0 as int), k),
//@loopend 0
    proof {
        let w = wires(*ginf);
        assert(w.take(__k0 as int).drop_last() =~= w.take(__k0 - 1));
        assert forall|k: (usize, u32)| #[trigger] cnt(mp(*counts), k) == cnt(c0, k) + uses(w.take(__k0 as int), k) by { }
    }
//@loopstart 0
    let ghost c1 = mp(*counts);
//@loop 1
    invariant
        i < N <= 2, __s1@.len() == ginf.inp@[i as int]@.len(), forall|s: int| 0 <= s < __s1@.len() ==> #[trigger] __s1@[s] == (s as usize, ginf.inp@[i as int]@[s]),
        forall|k: (usize, u32)| cnt(c0, k) + 2 <= usize::MAX,
        forall|k: (usize, u32)| #[trigger] cnt(c1, k) <= cnt(c0, k) + 1,
        forall|k: (usize, u32)| #[trigger] cnt(mp(*counts), k) == cnt(c1, k) + (if k.0 < __k1 { has(ginf.inp@[i as int]@, k) } else { 0 }),
//@loopstart 1
    proof { let w = __s1@[__k1 as int]; assert(w == (__k1, ginf.inp@[i as int]@[__k1 as int])); assert(cnt(mp(*counts), w) == cnt(c1, w)); assert(cnt(c1, w) <= cnt(c0, w) + 1); }
    let ghost c2 = mp(*counts);
//@loopend 1
    proof {
        let w0 = __s1@[__k1 - 1];
        assert forall|k: (usize, u32)| #[trigger] cnt(mp(*counts), k) == cnt(c1, k) + (if k.0 < __k1 { has(ginf.inp@[i as int]@, k) } else { 0 }) by {
            assert(cnt(c2, k) == cnt(c1, k) + (if k.0 < __k1 - 1 { has(ginf.inp@[i as int]@, k) } else { 0 }));
            assert(cnt(mp(*counts), k) == cnt(c2, k) + if k == w0 { 1int } else { 0 });
        }
    }
//@preloop 1
    proof { assert forall|k: (usize, u32)| #[trigger] cnt(c1, k) <= cnt(c0, k) + 1 by { uses_bound(wires(*ginf).take(i as int), k); } }
//@tail
    proof { assert(wires(*ginf).take(N as int) =~= wires(*ginf)); }
//@end
//@fn src/protocol/garble.rs | ^impl<const W: u8> LPNMatrix<W>$ | hash_inp_wires
//@rewrite ?counts\s*\.get\(&w\)\s*\.unwrap\(\) - 1 ==> *counts.get(&w).unwrap() - 1 # arithmetic on a reference
//@rewrite ?\bv\s*\.to_be_bytes\(\) ==> be8(v) # usize::to_be_bytes as a call of a shim
//@contract
    requires
        N <= 2, forall|i: int| 0 <= i < N ==> (#[trigger] wires(*ginf)[i]).len() <= packing_param,
        forall|i: int, s: int| 0 <= i < N && 0 <= s < wires(*ginf)[i].len() ==> cnt(mp(*counts), (s as usize, #[trigger] wires(*ginf)[i][s])) >= 1,
    ensures res == sha(hashed(wires(*ginf), |k: (usize, u32)| cnt(mp(*counts), k), packing_param as int))
//@entry
    let ghost m = |k: (usize, u32)| cnt(mp(*counts), k);
    let ghost w = wires(*ginf);
    let ghost l = packing_param as int;
//@closure 0
    |w: (usize, u32)| -> (o: usize) requires cnt(mp(*counts), w) >= 1 ensures o == cnt(mp(*counts), w) - 1
//@closure 1
    |v: usize| -> (o: [u8; 8]) ensures o@ == be(v)
//@loop 0
    invariant
        N <= 2, __s0@.len() == 2, forall|k: int| 0 <= k < 2 ==> #[trigger] __s0@[k] == k, l == packing_param, w == wires(*ginf), m == (|k: (usize, u32)| cnt(mp(*counts), k)),
        forall|i: int| 0 <= i < N ==> (#[trigger] wires(*ginf)[i]).len() <= packing_param,
        forall|i: int, s: int| 0 <= i < N && 0 <= s < wires(*ginf)[i].len() ==> cnt(mp(*counts), (s as usize, #[trigger] wires(*ginf)[i][s])) >= 1,
        __k0 == 0 ==> hasher@ == Seq::<u8>::empty(), __k0 == 1 ==> hasher@ == cat(codes(w, m, 0, l)), __k0 == 2 ==> hasher@ == hashed(w, m, l),
//@after let wires = if
    let ghost ws: Seq<u32> = wires@;
    proof { assert(ws =~= (if i < N { w[i as int] } else { Seq::empty() })); }
//@before hasher.update
    proof {
        assert(inp@ == cat(codes(w, m, i as int, l)));
        assert(Seq::<u8>::empty() + inp@ =~= inp@);
    }
//@end
//@fn src/protocol/garble.rs | ^impl<const W: u8> LPNMatrix<W>$ | compute_lookup
//@rewrite ?std::cmp::max\( ==> cmp_max( # std::cmp::max as a shim
//@contract
    requires narrow(circ.gates@, context.l as int), 2 * circ.gates@.len() + 2 <= usize::MAX
    ensures
        res.1@.len() == circ.gates@.len(),
        forall|g: int| 0 <= g < circ.gates@.len() ==> #[trigger] res.1@[g] < res.0@.len() && res.0@[res.1@[g] as int] == nonce(circ.gates@, g, context.l as int),
//@entry
    let ghost (gs, l) = (circ.gates@, context.l as int);
    broadcast use a_entries;
    let ghost mut q: Map<[u8; 32], usize> = Map::empty();
    let ghost mut e: Seq<([u8; 32], usize)> = Seq::empty();
//@loop 0
    invariant
        gs == circ.gates@, l == context.l, narrow(gs, l), 2 * gs.len() + 2 <= usize::MAX,
        __s0@.len() == gs.len(), forall|g: int| 0 <= g < gs.len() ==> #[trigger] __s0@[g] == (g as usize, &gs[g]),
        forall|k: (usize, u32)| #[trigger] cnt(mp(counts), k) == total(gs.take(__k0 as int), k),
        gid_lookup@.len() == gs.len(), nonce_idx <= __k0, tight(mq(nonce_lookup), nonce_idx as int),
        forall|g: int| 0 <= g < __k0 ==> mq(nonce_lookup).dom().contains(#[trigger] nonce(gs, g, l)) && mq(nonce_lookup)[nonce(gs, g, l)] == gid_lookup@[g],
//@loopstart 0
    let ghost (c0, n0, q0) = (mp(counts), nonce_idx as int, mq(nonce_lookup));
    proof {
        assert(__s0@[__k0 as int] == (__k0, &gs[__k0 as int]));
        assert(gs.take(__k0 + 1).drop_last() =~= gs.take(__k0 as int));
        total_bound(gs.take(__k0 as int));
        total_bound(gs.take(__k0 + 1));
        assert forall|k: (usize, u32)| cnt(mp(counts), k) + 2 <= usize::MAX by { assert(cnt(mp(counts), k) == total(gs.take(__k0 as int), k)); }
        let w = ins(gs[__k0 as int]);
        assert forall|i: int, s: int| 0 <= i < w.len() && 0 <= s < w[i].len() implies uses(w, (s as usize, #[trigger] w[i][s])) >= 1 && total(gs.take(__k0 as int), (s as usize, w[i][s])) >= 0 by { used_once(w, i, s); }
    }
//@before gid_lookup\[gid\] =
    proof {
        let (a, b) = (|k: (usize, u32)| cnt(mp(counts), k), |k: (usize, u32)| total(gs.take(gid + 1), k));
        assert(a =~= b);
        assert(nonce == crate::nonce(gs, gid as int, l));
    }
//@loopend 0
    proof {
        let g0 = __k0 - 1;
        let q = mq(nonce_lookup);
        assert(q == if q0.dom().contains(crate::nonce(gs, g0, l)) { q0 } else { q0.insert(crate::nonce(gs, g0, l), n0 as usize) });
        assert(tight(q, nonce_idx as int));
    }
//@before let nonces =
    proof { q = mq(nonce_lookup); e = entries(q); }
//@loop 1
    invariant
        tight(q, nonces@.len() as int), __s1@ == e, e == entries(q),
        forall|k: int| 0 <= k < e.len() ==> q.dom().contains((#[trigger] e[k]).0) && e[k].1 == q[e[k].0],
        forall|k: int| 0 <= k < __k1 ==> nonces@[(#[trigger] e[k]).1 as int] == e[k].0,
//@loopend 1
    proof {
        assert forall|k: int| 0 <= k < __k1 implies nonces@[(#[trigger] e[k]).1 as int] == e[k].0 by { assert(q.dom().contains(e[k].0) && q.dom().contains(e[__k1 - 1].0)); }
    }
//@before \(nonces, gid_lookup\)
    proof {
        assert forall|g: int| 0 <= g < gs.len() implies #[trigger] gid_lookup@[g] < nonces@.len() && nonces@[gid_lookup@[g] as int] == nonce(gs, g, l) by {
            let nn = nonce(gs, g, l);
            assert(q.dom().contains(nn));
            let k = choose|k: int| 0 <= k < entries(q).len() && entries(q)[k] == (nn, q[nn]);
            assert(entries(q)[k].0 == nn);
        }
    }
//@end
//@fn src/protocol/garble.rs | ^impl<const W: u8> LPNMatrix<W>$ | new
//@contract
    requires narrow(circ.gates@, context.l as int), 2 * circ.gates@.len() + 2 <= usize::MAX, context.ok()
    ensures
        res.lookup@.len() == circ.gates@.len(),
        forall|g: int| 0 <= g < circ.gates@.len() ==> #[trigger] res.lookup@[g] < res.mats@.len()
            && mat_of(res.mats@[res.lookup@[g] as int], nonce(circ.gates@, g, context.l as int)@, context.n as int, context.l as int, context.id as int, (4, context.lpn_mssg_len as int, context.lpn_key_len as int)),
//@entry
    let ghost (n0, l, id, sh) = (context.n as int, context.l as int, context.id as int, (4int, context.lpn_mssg_len as int, context.lpn_key_len as int));
    proof { pos_distinct(defpos::<W>(n0, l), n0); }
//@after let const_coeffs
    proof {
        assert forall|j: int| 0 <= j < l implies #[trigger] const_coeffs@[j] == lag(defpos::<W>(n0, l), j, gf::<W>(id as u32)) by { }
        assert forall|y: Seq<GF<W>>| y.len() == l implies #[trigger] dot(const_coeffs@, y) == ev(through(defpos::<W>(n0, l), y), gf::<W>(id as u32)) by { lag_dot(const_coeffs@, defpos::<W>(n0, l), gf::<W>(id as u32), y); }
    }
//@closure 0
    |n: &[u8; 32]| -> (o: Array3<GF<W>>) ensures mat_of(o, n@, n0, l, id, sh)
//@after let mut rng = ChaCha
    proof { a_fresh::<W, ChaCha12Rng>(rng); }
//@loop 0
    invariant
        l == context.l, const_coeffs@.len() == l, rng.seed() == Some(n@), rng.log::<W>().len() == __k0 * l, __v1@.len() == __k0,
        forall|y: Seq<GF<W>>| y.len() == l ==> #[trigger] dot(const_coeffs@, y) == ev(through(defpos::<W>(n0, l), y), gf::<W>(id as u32)),
        forall|e: int| 0 <= e < __k0 ==> #[trigger] __v1@[e] == ev(through(defpos::<W>(n0, l), slots::<W>(n@, e, l)), gf::<W>(id as u32)),
//@loop 1
    invariant
        l == context.l, __s1@.len() == l, rng.seed() == Some(n@), rng.log::<W>().len() == (__k0 - 1) * l + __k1, __v0@.len() == __k1,
        forall|s: int| 0 <= s < __k1 ==> #[trigger] __v0@[s] == stream::<W>(n@, (__k0 - 1) * l + s),
//@after let row
    proof { assert(row@ =~= slots::<W>(n@, __k0 - 1, l)); assert((__k0 - 1) * l + l == __k0 * l) by (nonlinear_arith); }
//@end
//@fn src/protocol/garble.rs | ^impl<const W: u8> LPNMatrix<W>$ | get
//@head ArcArray<PackedShare<W>,\s*Ix3> ==> Array3<PackedShare<W>>
//@contract
    requires gid < self.lookup@.len(), self.lookup@[gid as int] < self.mats@.len()
    ensures res == self.mats@[self.lookup@[gid as int] as int]
//@end
}
pub open spec fn slots<const W: u8>(seed: Seq<u8>, e: int, l: int) -> Seq<GF<W>> { Seq::new(l as nat, |s: int| stream::<W>(seed, e * l + s)) }
// Party id's share of the matrix drawn from a seed: entry e packs l drawn elements.
pub open spec fn mat_of<const W: u8>(a: Array3<GF<W>>, seed: Seq<u8>, n: int, l: int, id: int, sh: (int, int, int)) -> bool {
    a.dims() == sh && a@.len() == sh.0 * sh.1 * sh.2 && forall|e: int| 0 <= e < a@.len() ==> #[trigger] a@[e] == ev(through(defpos::<W>(n, l), slots::<W>(seed, e, l)), gf::<W>(id as u32))
}
// Gates have at most l input wires per side.
pub open spec fn narrow(gs: Seq<PackedGate>, l: int) -> bool { forall|g: int, i: int| 0 <= g < gs.len() && 0 <= i < ins(gs[g]).len() ==> (#[trigger] ins(gs[g])[i]).len() <= l }
pub open spec fn nonce(gs: Seq<PackedGate>, g: int, l: int) -> [u8; 32] { sha(hashed(ins(gs[g]), |k: (usize, u32)| total(gs.take(g + 1), k), l)) }
pub open spec fn tight(q: Map<[u8; 32], usize>, n: int) -> bool {
    q.dom().finite() && q.dom().len() == n && (forall|a: [u8; 32]| q.dom().contains(a) ==> #[trigger] q[a] < n) && (forall|a: [u8; 32], b: [u8; 32]| q.dom().contains(a) && q.dom().contains(b) && #[trigger] q[a] == #[trigger] q[b] ==> a == b)
}
proof fn total_bound(gs: Seq<PackedGate>) ensures forall|k: (usize, u32)| 0 <= #[trigger] total(gs, k) <= 2 * gs.len() decreases gs.len() {
    if gs.len() > 0 { total_bound(gs.drop_last()); assert forall|k: (usize, u32)| 0 <= #[trigger] total(gs, k) <= 2 * gs.len() by { uses_bound(ins(gs.last()), k); assert(total(gs.drop_last(), k) >= 0); } }
}
// The parties' matrices for a gate are shares of one matrix per slot, drawn from the gate's nonce.
pub proof fn common<const W: u8>(ms: Seq<Array3<GF<W>>>, seed: Seq<u8>, n: int, l: int, sh: (int, int, int), e: int) -> (p: Seq<GF<W>>)
    requires ms.len() == n, distinct(allp(defpos::<W>(n, l), n)), 0 <= l, 0 <= e < sh.0 * sh.1 * sh.2, forall|i: int| 0 <= i < n ==> mat_of(#[trigger] ms[i], seed, n, l, i, sh)
    ensures
        p.len() == l, Seq::new(n as nat, |i: int| ms[i]@[e]) == shares_of(p, n),
        forall|s: int| 0 <= s < l ==> ev(p, #[trigger] defpos::<W>(n, l)[s]) == stream::<W>(seed, e * l + s),
{
    let p = through(defpos::<W>(n, l), slots::<W>(seed, e, l));
    pos_distinct(defpos::<W>(n, l), n);
    through_at(defpos::<W>(n, l), slots::<W>(seed, e, l));
    assert(Seq::new(n as nat, |i: int| ms[i]@[e]) =~= shares_of(p, n));
    p
}
proof fn total_split(gs: Seq<PackedGate>, a: int, b: int, k: (usize, u32))
    requires 0 <= a < b < gs.len()
    ensures total(gs.take(b + 1), k) >= total(gs.take(a + 1), k) + uses(ins(gs[b]), k)
    decreases b
{
    assert(gs.take(b + 1).drop_last() =~= gs.take(b));
    assert(gs.take(b + 1).last() == gs[b]);
    if a < b - 1 { total_split(gs, a, b - 1, k); uses_bound(ins(gs[b - 1]), k); assert(gs.take(b - 1 + 1) =~= gs.take(b)); } else { assert(gs.take(a + 1) =~= gs.take(b)); }
}
proof fn codes_equal(a: Seq<Seq<u32>>, b: Seq<Seq<u32>>, m: spec_fn((usize, u32)) -> int, q: spec_fn((usize, u32)) -> int, l: int, i: int, s: int)
    requires hashed(a, m, l) == hashed(b, q, l), 0 <= i < 2, 0 <= s < l
    ensures code_at(a, m, i, s) as usize == code_at(b, q, i, s) as usize
{
    a_be(0, 0);
    assert forall|w: Seq<Seq<u32>>, f: spec_fn((usize, u32)) -> int, j: int, r: int| 0 <= r < l implies (#[trigger] codes(w, f, j, l)[r]).len() == 8 by { a_be(code_at(w, f, j, r) as usize, 0); }
    cat_cells(codes(a, m, 0, l), 8); cat_cells(codes(a, m, 1, l), 8); cat_cells(codes(b, q, 0, l), 8); cat_cells(codes(b, q, 1, l), 8);
    let (ha, hb) = (hashed(a, m, l), hashed(b, q, l));
    assert(ha.take(l * 8) =~= cat(codes(a, m, 0, l)) && hb.take(l * 8) =~= cat(codes(b, q, 0, l)));
    assert(ha.skip(l * 8) =~= cat(codes(a, m, 1, l)) && hb.skip(l * 8) =~= cat(codes(b, q, 1, l)));
    let (ca, cb) = (codes(a, m, i, l), codes(b, q, i, l));
    assert(cat(ca) == cat(cb));
    assert forall|j: int| 0 <= j < 8 implies #[trigger] ca[s][j] == cb[s][j] by { assert(cell(cat(ca), 8, s, j) == ca[s][j]); assert(cell(cat(cb), 8, s, j) == cb[s][j]); }
    assert(ca[s] =~= cb[s]);
    a_be(code_at(a, m, i, s) as usize, code_at(b, q, i, s) as usize);
}
// The wires in slot s of two gates are the same key, or the same pair of keys in either order.
pub open spec fn same_keys(a: Seq<Seq<u32>>, b: Seq<Seq<u32>>, s: int) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> s < (#[trigger] a[i]).len() && s < b[i].len())
    && ((a.len() == 1 && a[0][s] == b[0][s]) || (a.len() == 2 && ((a[0][s] == b[0][s] && a[1][s] == b[1][s]) || (a[0][s] == b[1][s] && a[1][s] == b[0][s]))))
}
// Two gates with the same keys in some slot hash different inputs, so (SHA-256 having no collisions) use different nonces.
pub proof fn no_reuse(gs: Seq<PackedGate>, a: int, b: int, s: int, l: int)
    requires 0 <= a < b < gs.len(), 0 <= s < l <= usize::MAX, narrow(gs, l), 2 * gs.len() + 2 <= usize::MAX, same_keys(ins(gs[a]), ins(gs[b]), s)
    ensures hashed(ins(gs[a]), |k: (usize, u32)| total(gs.take(a + 1), k), l) != hashed(ins(gs[b]), |k: (usize, u32)| total(gs.take(b + 1), k), l)
{
    let (m, q) = (|k: (usize, u32)| total(gs.take(a + 1), k), |k: (usize, u32)| total(gs.take(b + 1), k));
    let (wa, wb) = (ins(gs[a]), ins(gs[b]));
    total_bound(gs.take(a + 1)); total_bound(gs.take(b + 1)); total_bound(gs.take(a)); 
    assert(gs.take(a + 1).drop_last() =~= gs.take(a));
    if hashed(wa, m, l) == hashed(wb, q, l) {
        assert(wa.len() == 1 || wa.len() == 2);
        codes_equal(wa, wb, m, q, l, 0, s);
        codes_equal(wa, wb, m, q, l, 1, s);
        let (ka, kb) = ((s as usize, wa[0][s]), (s as usize, wb[0][s]));
        used_once(wa, 0, s); used_once(wb, 0, s);
        total_split(gs, a, b, ka); total_split(gs, a, b, kb);
        assert(m(ka) >= 1 && q(kb) >= 1) by { assert(total(gs.take(a), ka) >= 0); }
        if wa.len() == 2 {
            let (ja, jb) = ((s as usize, wa[1][s]), (s as usize, wb[1][s]));
            used_once(wa, 1, s); used_once(wb, 1, s);
            total_split(gs, a, b, ja); total_split(gs, a, b, jb);
            assert(m(ja) >= 1 && q(jb) >= 1) by { assert(total(gs.take(a), ja) >= 0); }
        }
    }
}
impl PackedCircuit { pub closed spec fn gs(&self) -> Seq<PackedGate> { self.gates@ } }
impl<const W: u8> LPNMatrix<W> {
    pub closed spec fn of(&self, gid: int) -> Array3<GF<W>> { self.mats@[self.lookup@[gid] as int] }
//@stub tables.vrs | impl<const W: u8> LPNMatrix<W> | get | gid < self.lookup@.len(), self.lookup@[gid as int] < self.mats@.len()
    self.get(gid)
//@end
//@stub wires.vrs | impl<const W: u8> LPNMatrix<W> | new |  | ensures r == lpn_of[^\n]*
    Self::new(circ, context)
//@end
}
}
