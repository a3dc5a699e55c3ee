//@include hashmap.vrs
//@include tasks.vrs
//@include chunks.vrs
//@include tab.vrs
//@include draws3.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
//@item src/protocol/preproc.rs | pub struct PreProc<
//@item src/protocol/garble.rs | pub struct GarbledCircuit<
//@include needs.vrs
//@note gen_rand_shares and transform (unit transforms), select (unit wires) and the tables of the gates (unit tables): results as functions of what they are given and what arrives, with the preconditions and shapes of their contracts; that what arrives is well-formed is assumed. What the context holds is proved of GarbleContext::new in unit wires; that the wires of gates are in range and packed somewhere (preconditions of select there) is assumed of the circuit.
#[verifier::external_body]
pub struct RandSharingTransform<const W: u8> { x: u8 }
#[verifier::external_body]
pub struct SharingTransform<const W: u8> { x: u8 }
#[verifier::external_body]
pub struct LPNMatrix<const W: u8> { x: u8 }
impl<const W: u8> LPNMatrix<W> { pub uninterp spec fn of(&self, gid: int) -> Array3<GF<W>>; }
//@item src/protocol/garble.rs | struct Transforms<
//@item src/protocol/garble.rs | pub struct GarbleContext<
impl PackedCircuit {
    pub closed spec fn gs(&self) -> Seq<PackedGate> { self.gates@ }
    pub closed spec fn inputs_(&self) -> Seq<Vec<u32>> { self.inputs@ }
//@fn src/circuit.rs | ^impl PackedCircuit$ | gates
//@contract
    ensures res@ == self.gs()
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | inputs
//@contract
    ensures res@ == self.inputs_()
//@end
}
pub open spec fn announced(m: int, k: int) -> bool { m >= k }
pub open spec fn rows_of<T>(a: Array2<T>) -> Seq<Seq<T>> { Seq::new(a.rows(), |i: int| a.row_s(i)) }
uninterp spec fn gen_of<const W: u8>(net: Network, id: Seq<u8>, reps: int, rs: Seq<GF<W>>, zs: Seq<GF<W>>, tf: Transforms<W>, ctx: MPCContext<W>) -> (Array2<GF<W>>, Array2<GF<W>>);
uninterp spec fn moved_of<const W: u8>(net: Network, id: Seq<u8>, inp: Seq<Seq<GF<W>>>, r: Array2<GF<W>>, rn: Array2<GF<W>>, tf: Transforms<W>, ctx: MPCContext<W>) -> Array2<GF<W>>;
uninterp spec fn pick_at<const W: u8>(shares: Array2<GF<W>>, wires: Seq<u32>, c: GarbleContext<W>, j: int) -> GF<W>;
spec fn pick_of<const W: u8>(shares: Array2<GF<W>>, wires: Seq<u32>, c: GarbleContext<W>) -> Seq<GF<W>> { Seq::new(shares.cols(), |j: int| pick_at(shares, wires, c, j)) }
impl<const W: u8> Transforms<W> {
    pub closed spec fn rt(&self) -> Seq<RandSharingTransform<W>> { self.rtrans@ }
    pub closed spec fn tr(&self) -> Seq<SharingTransform<W>> { self.trans@ }
    pub uninterp spec fn fit(&self, n: int, np: int, l: int) -> bool;
    pub open spec fn ok(&self, n: int, np: int, l: int) -> bool { self.rt().len() == nblk(self.tr().len() as int, l) && self.fit(n, np, l) }
    #[verifier::external_body]
    async fn gen_rand_shares(&self, id: ProtocolID, reps: usize, randoms: VecDeque<GF<W>>, zeros: VecDeque<GF<W>>, context: MPCContext<W>, net: Network) -> (r: (Array2<GF<W>>, Array2<GF<W>>))
        requires
            context.ok(), self.ok(context.n as int, context.t + context.l, context.l as int), 1 <= context.l, 2 * reps <= usize::MAX,
            randoms@.len() == self.rt().len() * ((context.n + context.t) * reps), zeros@.len() == self.rt().len() * ((2 * context.n) * reps), randoms@.len() <= usize::MAX, zeros@.len() <= usize::MAX,
            (context.n + context.t) * reps <= usize::MAX, (2 * context.n) * reps <= usize::MAX,
        ensures
            r == gen_of(net, id@, reps as int, randoms@, zeros@, *self, context),
            r.0.rows() == self.tr().len(), r.0.cols() == reps, r.1.rows() == self.tr().len(), r.1.cols() == reps,
    { unimplemented!() }
    #[verifier::external_body]
    async fn transform(&self, id: ProtocolID, inp: Array2<GF<W>>, rand: Array2<GF<W>>, rand_n: Array2<GF<W>>, context: MPCContext<W>, net: Network) -> (r: Array2<GF<W>>)
        requires
            context.ok(), self.ok(context.n as int, context.t + context.l, context.l as int), inp.rows() == self.tr().len(), rand.rows() == inp.rows(), rand_n.rows() == inp.rows(), rand.cols() == inp.cols(), rand_n.cols() == inp.cols(),
            inp.rows() * inp.cols() <= usize::MAX,
        ensures r == moved_of(net, id@, rows_of(inp), rand, rand_n, *self, context), r.rows() == inp.rows(), r.cols() == inp.cols()
    { unimplemented!() }
}
#[verifier::external_body]
fn select<const N: usize, const W: u8>(shares: Array2<GF<W>>, ginf: &PackedGateInfo<N>, context: &GarbleContext<W>) -> (r: Vec<GF<W>>)
    requires context.mpc.ok(), shares.rows() == context.circ.inputs_().len() + context.circ.gs().len()
    ensures forall|p: Seq<Seq<GF<W>>>| p.len() == N && (forall|i: int| 0 <= i < N ==> p[i] == pick_of(shares, (#[trigger] ginf.inp@[i])@, *context)) ==> r@ == #[trigger] cat(p)
{ unimplemented!() }
spec fn ready_for<const W: u8>(c: GarbleContext<W>, gid: int) -> bool {
    let (k, m) = (c.mpc.lpn_key_len as int, c.mpc.lpn_mssg_len as int);
    &&& c.mpc.ok() && 3 * (k + 1) + 1 <= usize::MAX && 4 * m <= usize::MAX
    &&& c.lpn_enc.rows() == m && c.lpn_enc.cols() == k + 1
    &&& c.lpn_mat.of(gid).dims() == (4int, m, k)
}
pub open spec fn quad<T>(a: Array3<T>) -> Seq<Seq<T>> { seq![a.line(0, 0), a.line(0, 1), a.line(1, 0), a.line(1, 1)] }
// The table of a gate: masks and keys of the inputs, mask and keys of the output, randomness, errors.
uninterp spec fn table_of<const W: u8>(kind: int, net: Network, id: Seq<u8>, gid: int, im: Seq<GF<W>>, ik: Seq<Seq<GF<W>>>, om: GF<W>, ok: Seq<Seq<GF<W>>>, rs: Seq<GF<W>>, zs: Seq<GF<W>>, es: Seq<GF<W>>, c: GarbleContext<W>) -> Array2<GF<W>>;
#[verifier::external_body]
async fn garble_and<const W: u8>(id: ProtocolID, gid: usize, inp_masks: [GF<W>; 2], inp_keys: Array3<GF<W>>, out_mask: GF<W>, out_keys: Array2<GF<W>>, randoms: Vec<GF<W>>, zeros: Vec<GF<W>>, errors: Vec<GF<W>>, context: Arc<GarbleContext<W>>, net: Network) -> (r: Array2<GF<W>>)
    requires
        ready_for(*context, gid as int), inp_keys.dims() == (2int, 2int, context.mpc.lpn_key_len as int), out_keys.rows() == 2, out_keys.cols() == context.mpc.lpn_key_len,
        randoms@.len() == 3 * (context.mpc.lpn_key_len + 1) + 1, zeros@.len() == randoms@.len(), errors@.len() == 4 * context.mpc.lpn_mssg_len,
    ensures r == table_of(0, net, id@, gid as int, inp_masks@, quad(inp_keys), out_mask, rows_of(out_keys), randoms@, zeros@, errors@, *context)
{ unimplemented!() }
#[verifier::external_body]
async fn garble_xor<const W: u8>(id: ProtocolID, gid: usize, inp_masks: [GF<W>; 2], inp_keys: Array3<GF<W>>, out_mask: GF<W>, out_keys: Array2<GF<W>>, randoms: Array1<GF<W>>, zeros: Array1<GF<W>>, errors: Vec<GF<W>>, context: Arc<GarbleContext<W>>, net: Network) -> (r: Array2<GF<W>>)
    requires
        ready_for(*context, gid as int), inp_keys.dims() == (2int, 2int, context.mpc.lpn_key_len as int), out_keys.rows() == 2, out_keys.cols() == context.mpc.lpn_key_len,
        randoms@.len() == context.mpc.lpn_key_len + 1, zeros@.len() == randoms@.len(), errors@.len() == 4 * context.mpc.lpn_mssg_len,
    ensures r == table_of(1, net, id@, gid as int, inp_masks@, quad(inp_keys), out_mask, rows_of(out_keys), randoms@, zeros@, errors@, *context)
{ unimplemented!() }
#[verifier::external_body]
async fn garble_inv<const W: u8>(id: ProtocolID, gid: usize, inp_mask: GF<W>, inp_keys: Array2<GF<W>>, out_mask: GF<W>, out_keys: Array2<GF<W>>, randoms: Array1<GF<W>>, zeros: Array1<GF<W>>, errors: Vec<GF<W>>, context: Arc<GarbleContext<W>>, net: Network) -> (r: Array2<GF<W>>)
    requires
        ready_for(*context, gid as int), inp_keys.rows() == 2, inp_keys.cols() == context.mpc.lpn_key_len, out_keys.rows() == 2, out_keys.cols() == context.mpc.lpn_key_len,
        randoms@.len() == context.mpc.lpn_key_len + 1, zeros@.len() == randoms@.len(), errors@.len() == 2 * context.mpc.lpn_mssg_len,
    ensures r == table_of(2, net, id@, gid as int, seq![inp_mask], rows_of(inp_keys), out_mask, rows_of(out_keys), randoms@, zeros@, errors@, *context)
{ unimplemented!() }

impl<'a, T> IntoIt<&'a T> for &'a [T] {
    open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T> FromIt<T> for Array1<T> { open spec fn got(&self) -> Seq<T> { self@ } }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            r.is_some() == (old(self)@.len() > 0),
            r matches Some(x) ==> x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
}
//@note ndarray: permuted_axes permutes the axes, as_standard_layout makes the memory layout row by row without changing shape or elements, and into_shape of an array in that layout keeps the elements in row-major order.
// which of i, j, k is the index along axis a of the array whose axes were permuted
pub open spec fn idx(p: [usize; 3], a: int, i: int, j: int, k: int) -> int { if p@[0] == a { i } else if p@[1] == a { j } else { k } }
pub open spec fn axis(d: (int, int, int), a: int) -> int { if a == 0 { d.0 } else if a == 1 { d.1 } else { d.2 } }
pub open spec fn permutes(p: [usize; 3]) -> bool { p@[0] < 3 && p@[1] < 3 && p@[2] < 3 && p@[0] != p@[1] && p@[1] != p@[2] && p@[0] != p@[2] }
impl<T> Array3<T> {
    // elements are in memory in row-major order
    pub uninterp spec fn plain(&self) -> bool;
    #[verifier::external_body]
    pub fn vw(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Self) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_standard_layout(&self) -> (r: Self) ensures r@ == self@, r.dims() == self.dims(), r.plain(), forall|i: int, j: int, k: int| #[trigger] r.at3(i, j, k) == self.at3(i, j, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn permuted_axes(self, p: [usize; 3]) -> (r: Self)
        requires permutes(p)
        ensures
            r.dims() == (axis(self.dims(), p@[0] as int), axis(self.dims(), p@[1] as int), axis(self.dims(), p@[2] as int)),
            forall|i: int, j: int, k: int| 0 <= i < r.dims().0 && 0 <= j < r.dims().1 && 0 <= k < r.dims().2 ==> #[trigger] r.at3(i, j, k) == self.at3(idx(p, 0, i, j, k), idx(p, 1, i, j, k), idx(p, 2, i, j, k)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_shape(self, s: (usize, usize)) -> (r: Result<Array2<T>, ()>)
        requires self.plain()
        ensures
            r.is_ok() == (s.0 * s.1 == self@.len()),
            r matches Ok(a) ==> a.rows() == s.0 && a.cols() == s.1 && forall|i: int, j: int| 0 <= i < s.0 && 0 <= j < s.1 ==> #[trigger] a.at(i, j) == cell(self@, s.1 as int, i, j),
    { unimplemented!() }
    // s![.., .., e]
    #[verifier::external_body]
    pub fn slab(&self, e: usize) -> (r: Array2<T>)
        requires e < self.dims().2
        ensures r.rows() == self.dims().0, r.cols() == self.dims().1, forall|i: int, j: int| #[trigger] r.at(i, j) == self.at3(i, j, e as int)
    { unimplemented!() }
}
pub tracked struct Left { pub ghost r: int, pub ghost z: int, pub ghost e: int }
pub ghost struct Dim { pub nin: int, pub n: int, pub t: int, pub l: int, pub k: int, pub m: int }
spec fn dim<const W: u8>(c: GarbleContext<W>) -> Dim { Dim { nin: c.circ.inputs_().len() as int, n: c.mpc.n as int, t: c.mpc.t as int, l: c.mpc.l as int, k: c.mpc.lpn_key_len as int, m: c.mpc.lpn_mssg_len as int } }
// What GarbleContext::new provides, for numbers in range.
spec fn built<const W: u8>(c: GarbleContext<W>) -> bool {
    let (d, gs) = (dim(c), c.circ.gs());
    &&& c.mpc.ok() && 1 <= d.l && 4 * (d.k + 1) <= usize::MAX && 4 * d.m <= usize::MAX && gs.len() + 16 <= u64::MAX
    &&& c.tf_out.ok(d.n, d.t + d.l, d.l) && c.tf_out.tr().len() == d.nin + gs.len() && c.tf_inp.ok(d.n, d.t + d.l, d.l) && c.tf_inp.tr().len() == ins(gs)
    &&& c.lpn_enc.rows() == d.m && c.lpn_enc.cols() == d.k + 1 && forall|g: int| 0 <= g < gs.len() ==> (#[trigger] c.lpn_mat.of(g)).dims() == (4int, d.m, d.k)
    &&& d.nin + gs.len() <= usize::MAX && (d.nin + gs.len()) * (2 * d.k + 1) <= usize::MAX && ins(gs) * (2 * d.k + 1) <= usize::MAX
    &&& need_r(d.nin, gs, d.n, d.t, d.l, d.k) <= usize::MAX && need_z(d.nin, gs, d.n, d.l, d.k) <= usize::MAX && errs(gs, d.m) <= usize::MAX
    &&& (d.n + d.t) * (2 * d.k + 1) <= usize::MAX && 2 * d.n * (2 * d.k + 1) <= usize::MAX
}
// What is moved first: the keys and the mask of every block.
pub open spec fn kcol<const W: u8>(keys: Array3<GF<W>>, k: int, bit: int, b: int) -> Seq<GF<W>> { Seq::new(k as nat, |x: int| keys.at3(bit, x, b)) }
pub open spec fn block<const W: u8>(keys: Array3<GF<W>>, masks: Seq<GF<W>>, k: int, b: int) -> Seq<GF<W>> { (kcol(keys, k, 0, b) + kcol(keys, k, 1, b)).push(masks[b]) }
pub open spec fn blocks<const W: u8>(keys: Array3<GF<W>>, masks: Seq<GF<W>>, k: int) -> Seq<Seq<GF<W>>> { Seq::new(masks.len(), |b: int| block(keys, masks, k, b)) }
// What is selected for the inputs of the gates.
pub open spec fn wire(g: PackedGate, i: int) -> Seq<u32> { match g { PackedGate::And(x) => x.inp@[i]@, PackedGate::Xor(x) => x.inp@[i]@, PackedGate::Inv(x) => x.inp@[i]@ } }
spec fn picks<const W: u8>(out: Array2<GF<W>>, g: PackedGate, c: GarbleContext<W>) -> Seq<Seq<GF<W>>> { Seq::new(g_in(g) as nat, |i: int| pick_of(out, wire(g, i), c)) }
spec fn picked<const W: u8>(out: Array2<GF<W>>, gs: Seq<PackedGate>, c: GarbleContext<W>) -> Seq<Seq<GF<W>>> decreases gs.len() { if gs.len() == 0 { Seq::empty() } else { picked(out, gs.drop_last(), c) + picks(out, gs.last(), c) } }
spec fn picks_cat<const W: u8>(out: Array2<GF<W>>, gs: Seq<PackedGate>, c: GarbleContext<W>) -> Seq<Seq<GF<W>>> { Seq::new(gs.len(), |g: int| cat(picks(out, gs[g], c))) }
proof fn cat_app<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>) ensures cat(a + b) == cat(a) + cat(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(cat(a) + cat(b) =~= cat(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); cat_app(a, b.drop_last()); assert(cat(a + b) =~= cat(a) + cat(b)); }
}
proof fn picked_flat<const W: u8>(out: Array2<GF<W>>, gs: Seq<PackedGate>, c: GarbleContext<W>)
    ensures cat(picked(out, gs, c)) == cat(picks_cat(out, gs, c)), picked(out, gs, c).len() == ins(gs)
    decreases gs.len()
{
    if gs.len() > 0 {
        picked_flat(out, gs.drop_last(), c);
        cat_app(picked(out, gs.drop_last(), c), picks(out, gs.last(), c));
        assert(picks_cat(out, gs, c).drop_last() =~= picks_cat(out, gs.drop_last(), c));
    } else {
        assert(picks_cat(out, gs, c) =~= picked(out, gs, c));
    }
}
proof fn picked_len<const W: u8>(out: Array2<GF<W>>, gs: Seq<PackedGate>, c: GarbleContext<W>)
    ensures forall|r: int| 0 <= r < ins(gs) ==> (#[trigger] picked(out, gs, c)[r]).len() == out.cols()
    decreases gs.len()
{
    if gs.len() > 0 {
        picked_len(out, gs.drop_last(), c);
        picked_flat(out, gs.drop_last(), c);
    }
}
proof fn sums_grow(gs: Seq<PackedGate>, g: int, k: int, m: int)
    requires 0 <= g < gs.len(), 0 <= k, 0 <= m
    ensures
        ins(gs.take(g + 1)) == ins(gs.take(g)) + g_in(gs[g]), 0 <= ins(gs.take(g)), ins(gs.take(g + 1)) <= ins(gs),
        mults(gs.take(g + 1), k) == mults(gs.take(g), k) + g_mult(gs[g], k), 0 <= mults(gs.take(g), k), mults(gs.take(g + 1), k) <= mults(gs, k),
        errs(gs.take(g + 1), m) == errs(gs.take(g), m) + g_err(gs[g], m), 0 <= errs(gs.take(g), m), errs(gs.take(g + 1), m) <= errs(gs, m),
    decreases gs.len()
{
    assert(gs.take(g + 1).drop_last() =~= gs.take(g));
    sums_up(gs.take(g), k, m);
    if g + 1 < gs.len() {
        sums_grow(gs.drop_last(), g, k, m);
        assert(gs.drop_last().take(g) =~= gs.take(g));
        assert(gs.drop_last().take(g + 1) =~= gs.take(g + 1));
        sums_up(gs.drop_last(), k, m);
    } else {
        assert(gs.take(g + 1) =~= gs);
    }
}
// The two keys in what a row holds for a wire.
pub open spec fn pair<T>(a: Seq<T>, k: int) -> Seq<Seq<T>> { seq![a.subrange(0, k), a.subrange(k, 2 * k)] }
// The table of gate g, from the moved shares of the inputs (one row per input: keys, then mask) and the material of its block.
spec fn gate_table<const W: u8>(net: Network, id: Seq<u8>, g: int, inp: Array2<GF<W>>, keys: Array3<GF<W>>, masks: Seq<GF<W>>, rs: Seq<GF<W>>, zs: Seq<GF<W>>, es: Seq<GF<W>>, c: GarbleContext<W>) -> Array2<GF<W>> {
    let (d, gs) = (dim(c), c.circ.gs());
    let (row, b) = (ins(gs.take(g)), d.nin + g);
    let (x, y, e) = (mults(gs.take(g), d.k), g_mult(gs[g], d.k), errs(gs.take(g), d.m));
    let (a, a2) = (inp.row_s(row), inp.row_s(row + 1));
    let one = kind(gs[g]) == 2;
    table_of(kind(gs[g]), net, id, g, if one { seq![a.last()] } else { seq![a.last(), a2.last()] }, if one { pair(a, d.k) } else { pair(a, d.k) + pair(a2, d.k) }, masks[b], seq![kcol(keys, d.k, 0, b), kcol(keys, d.k, 1, b)],
        rs.subrange(x, x + y), zs.subrange(x, x + y), es.subrange(e, e + g_err(gs[g], d.m)), c)
}
spec fn first_r(c: Dim, b: int) -> int { runs(b, c.l, c.k) * (c.n + c.t) }
spec fn first_z(c: Dim, b: int) -> int { runs(b, c.l, c.k) * 2 * c.n }
spec fn out_shares_of<const W: u8>(net: Network, id: Seq<u8>, m: int, pp: PreProc<W>, c: GarbleContext<W>) -> Array2<GF<W>> {
    let (d, gs) = (dim(c), c.circ.gs());
    let b = d.nin + gs.len();
    let r = gen_of(net, child(id, m, 0), 2 * d.k + 1, pp.randoms@.take(first_r(d, b)), pp.zeros@.take(first_z(d, b)), *c.tf_out, c.mpc);
    moved_of(net, child(id, m, 2), blocks(pp.keys, pp.masks@, d.k), r.0, r.1, *c.tf_out, c.mpc)
}
spec fn inp_shares_of<const W: u8>(net: Network, id: Seq<u8>, m: int, pp: PreProc<W>, c: GarbleContext<W>) -> Array2<GF<W>> {
    let (d, gs) = (dim(c), c.circ.gs());
    let (b, i) = (d.nin + gs.len(), ins(gs));
    let r = gen_of(net, child(id, m, 1), 2 * d.k + 1, pp.randoms@.skip(first_r(d, b)).take(first_r(d, i)), pp.zeros@.skip(first_z(d, b)).take(first_z(d, i)), *c.tf_inp, c.mpc);
    moved_of(net, child(id, m, 3), picked(out_shares_of(net, id, m, pp, c), gs, c), r.0, r.1, *c.tf_inp, c.mpc)
}
spec fn rest_r<const W: u8>(pp: PreProc<W>, c: GarbleContext<W>) -> Seq<GF<W>> { pp.randoms@.skip(first_r(dim(c), dim(c).nin + c.circ.gs().len())).skip(first_r(dim(c), ins(c.circ.gs()))) }
spec fn rest_z<const W: u8>(pp: PreProc<W>, c: GarbleContext<W>) -> Seq<GF<W>> { pp.zeros@.skip(first_z(dim(c), dim(c).nin + c.circ.gs().len())).skip(first_z(dim(c), ins(c.circ.gs()))) }
spec fn garbled<const W: u8>(res: Seq<Array2<GF<W>>>, net: Network, id: Seq<u8>, m: int, pp: PreProc<W>, c: GarbleContext<W>, num: int) -> bool {
    res.len() == num && forall|g: int| 0 <= g < num ==> #[trigger] res[g] == gate_table(net, child(id, m, 4 + g), g, inp_shares_of(net, id, m, pp, c), pp.keys, pp.masks@, rest_r(pp, c), rest_z(pp, c), pp.errors@, c)
}
proof fn reshaped<const W: u8>(keys: Array3<GF<W>>, p: Array3<GF<W>>, k: int, b: int)
    requires keys.dims() == (2int, k, b), 0 <= k, p.dims() == (b, 2int, k), forall|i: int, x: int, y: int| 0 <= i < b && 0 <= x < 2 && 0 <= y < k ==> #[trigger] p.at3(i, x, y) == keys.at3(x, y, i)
    ensures p@.len() == b * (2 * k), forall|i: int, j: int| 0 <= i < b && 0 <= j < 2 * k ==> #[trigger] cell(p@, 2 * k, i, j) == (kcol(keys, k, 0, i) + kcol(keys, k, 1, i))[j]
{
    broadcast use dims3;
    reveal(Array3::at3);
    assert(b * 2 * k == b * (2 * k)) by (nonlinear_arith);
    assert(p.dims().0 * p.dims().1 * p.dims().2 == b * 2 * k);
    assert forall|i: int, j: int| 0 <= i < b && 0 <= j < 2 * k implies #[trigger] cell(p@, 2 * k, i, j) == (kcol(keys, k, 0, i) + kcol(keys, k, 1, i))[j] by {
        let x = if j < k { 0int } else { 1int };
        let y = j - x * k;
        assert(p.at3(i, x, y) == keys.at3(x, y, i));
        assert((i * 2 + x) * k + y == i * (2 * k) + j) by (nonlinear_arith) requires y == j - x * k;
    }
}

// The shares that are moved first, reshaped and with the masks behind them.
proof fn flattened<const W: u8>(keys: Array3<GF<W>>, masks: Seq<GF<W>>, k: int)
    requires 0 <= k, keys.dims() == (2int, k, keys.dims().2)
    ensures
        forall|p: Array3<GF<W>>| #[trigger] p.plain() && p.dims() == (keys.dims().2, 2int, k) && (forall|i: int, x: int, y: int| 0 <= i < keys.dims().2 && 0 <= x < 2 && 0 <= y < k ==> #[trigger] p.at3(i, x, y) == keys.at3(x, y, i))
            ==> p@.len() == keys.dims().2 * (2 * k) && forall|i: int, j: int| 0 <= i < keys.dims().2 && 0 <= j < 2 * k ==> #[trigger] cell(p@, 2 * k, i, j) == (kcol(keys, k, 0, i) + kcol(keys, k, 1, i))[j],
        forall|a: Array2<GF<W>>| a.rows() == masks.len() && a.cols() == 2 * k + 1 && keys.dims().2 == masks.len() && (forall|i: int, j: int| 0 <= i < masks.len() && 0 <= j <= 2 * k ==> #[trigger] a.at(i, j) == block(keys, masks, k, i)[j]) ==> #[trigger] rows_of(a) == blocks(keys, masks, k),
{
    assert forall|p: Array3<GF<W>>| #[trigger] p.plain() && p.dims() == (keys.dims().2, 2int, k) && (forall|i: int, x: int, y: int| 0 <= i < keys.dims().2 && 0 <= x < 2 && 0 <= y < k ==> #[trigger] p.at3(i, x, y) == keys.at3(x, y, i))
        implies p@.len() == keys.dims().2 * (2 * k) && forall|i: int, j: int| 0 <= i < keys.dims().2 && 0 <= j < 2 * k ==> #[trigger] cell(p@, 2 * k, i, j) == (kcol(keys, k, 0, i) + kcol(keys, k, 1, i))[j] by { reshaped(keys, p, k, keys.dims().2); }
    assert forall|a: Array2<GF<W>>| a.rows() == masks.len() && a.cols() == 2 * k + 1 && keys.dims().2 == masks.len() && (forall|i: int, j: int| 0 <= i < masks.len() && 0 <= j <= 2 * k ==> #[trigger] a.at(i, j) == block(keys, masks, k, i)[j]) implies #[trigger] rows_of(a) == blocks(keys, masks, k) by {
        assert forall|i: int| 0 <= i < masks.len() implies #[trigger] rows_of(a)[i] == blocks(keys, masks, k)[i] by { assert(rows_of(a)[i] =~= block(keys, masks, k, i)); }
        assert(rows_of(a) =~= blocks(keys, masks, k));
    }
}
// The selected shares, one row per input of a gate.
proof fn chosen<const W: u8>(gs: Seq<PackedGate>, c: GarbleContext<W>)
    ensures forall|o: Array2<GF<W>>| o.cols() > 0 ==> (#[trigger] cat(picks_cat(o, gs, c))).len() == ins(gs) * o.cols() && cat(picks_cat(o, gs, c)).len() as int / o.cols() as int == ins(gs) && picked(o, gs, c).len() == ins(gs)
        && forall|i: int, j: int| 0 <= i < ins(gs) && 0 <= j < o.cols() ==> #[trigger] cell(cat(picks_cat(o, gs, c)), o.cols() as int, i, j) == picked(o, gs, c)[i][j]
{
    assert forall|o: Array2<GF<W>>| o.cols() > 0 implies (#[trigger] cat(picks_cat(o, gs, c))).len() == ins(gs) * o.cols() && cat(picks_cat(o, gs, c)).len() as int / o.cols() as int == ins(gs) && picked(o, gs, c).len() == ins(gs)
        && forall|i: int, j: int| 0 <= i < ins(gs) && 0 <= j < o.cols() ==> #[trigger] cell(cat(picks_cat(o, gs, c)), o.cols() as int, i, j) == picked(o, gs, c)[i][j] by {
        picked_flat(o, gs, c);
        picked_len(o, gs, c);
        cat_cells(picked(o, gs, c), o.cols() as int);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(ins(gs), o.cols() as int);
        assert(ins(gs) * o.cols() == o.cols() * ins(gs)) by (nonlinear_arith);
    }
}
proof fn same_rows<const W: u8>(gs: Seq<PackedGate>, c: GarbleContext<W>)
    ensures forall|o: Array2<GF<W>>, a: Array2<GF<W>>| #![trigger rows_of(a), picked(o, gs, c)] a.rows() == ins(gs) && a.cols() == o.cols() && (forall|i: int, j: int| 0 <= i < ins(gs) && 0 <= j < o.cols() ==> #[trigger] a.at(i, j) == picked(o, gs, c)[i][j]) ==> rows_of(a) == picked(o, gs, c)
{
    assert forall|o: Array2<GF<W>>, a: Array2<GF<W>>| #![trigger rows_of(a), picked(o, gs, c)] a.rows() == ins(gs) && a.cols() == o.cols() && (forall|i: int, j: int| 0 <= i < ins(gs) && 0 <= j < o.cols() ==> #[trigger] a.at(i, j) == picked(o, gs, c)[i][j]) implies rows_of(a) == picked(o, gs, c) by {
        picked_flat(o, gs, c);
        picked_len(o, gs, c);
        assert forall|i: int| 0 <= i < ins(gs) implies #[trigger] rows_of(a)[i] == picked(o, gs, c)[i] by { assert(rows_of(a)[i] =~= picked(o, gs, c)[i]); }
        assert(rows_of(a) =~= picked(o, gs, c));
    }
}

//@fn src/protocol/garble.rs | - | garble
//@ghost Tracked(left): Tracked<&mut Left>
//@dropblock #\[cfg\(debug_assertions\)\] # sanity checks of debug builds: the shapes are in the precondition
//@inline run_rtrans
//@rewrite (?<!await)\.unwrap\(\) ==> .sure() # for the two readings of what panics: an obligation, or no return
//@rewrite ?context\.as_ref\(\) ==> &context # a shared pointer, by what it points to
//@rewrite ?\.slice\(\s*s!\[\s*\.\.\s*,\s*\.\.\s*,\s*([^\[\],]+?)\s*\]\s*\) ==> .slab(\1) # a slice along the last axis
//@contract
    requires
        built(*context), given(preproc, dim(*context), context.circ.gs()),
    ensures
        exists|m: int| #[trigger] announced(m, (4 + context.circ.gs().len()) as int) && garbled(res.gates@, net, id@, m, preproc, *context, context.circ.gs().len() as int),
        preproc.masks@.len() == dim(*context).nin + context.circ.gs().len(), preproc.keys.dims() == (2int, dim(*context).k, dim(*context).nin + context.circ.gs().len()),
        final(left).r == preproc.randoms@.len() - need_r(dim(*context).nin, context.circ.gs(), dim(*context).n, dim(*context).t, dim(*context).l, dim(*context).k) && final(left).r >= 0,
        final(left).z == preproc.zeros@.len() - need_z(dim(*context).nin, context.circ.gs(), dim(*context).n, dim(*context).l, dim(*context).k) && final(left).z >= 0,
        final(left).e == preproc.errors@.len() - errs(context.circ.gs(), dim(*context).m) && final(left).e >= 0,
//@entry
    let ghost (pp, c, id0, net0) = (preproc, held(context), id@, net);
    let ghost (d, gs) = (dim(c), c.circ.gs());
    let ghost b = d.nin + gs.len();
    let ghost per = 2 * d.k + 1;
    let ghost mut m = 0int;
    proof {
        sums_up(gs, d.k, d.m);
        let (x, y) = (nblk(b, d.l), nblk(ins(gs), d.l));
        let (n, t) = (d.n, d.t);
        whole_blocks(b, d.l); whole_blocks(ins(gs), d.l);
        let (u, v) = (runs(b, d.l, d.k), runs(ins(gs), d.l, d.k));
        assert(0 <= u && 0 <= v) by (nonlinear_arith) requires u == x * per, v == y * per, 0 <= x, 0 <= y, 1 <= per;
        assert((u + v) * (n + t) == u * (n + t) + v * (n + t) && (u + v) * 2 * n == u * 2 * n + v * 2 * n) by (nonlinear_arith);
        assert(0 <= u * (n + t) && 0 <= v * (n + t) && 0 <= u * 2 * n && 0 <= v * 2 * n && u <= u * (n + t) && v <= v * (n + t) && u * 2 <= u * 2 * n && v * 2 <= v * 2 * n) by (nonlinear_arith) requires 0 <= u, 0 <= v, 1 <= n, 0 <= t;
        assert(x * ((n + t) * per) == u * (n + t) && y * ((n + t) * per) == v * (n + t) && x * ((2 * n) * per) == u * 2 * n && y * ((2 * n) * per) == v * 2 * n) by (nonlinear_arith) requires u == x * per, v == y * per;
        assert(n * 2 * u == u * 2 * n && n * 2 * v == v * 2 * n && n * u * 2 == u * 2 * n && n * v * 2 == v * 2 * n && 2 * n * u == u * 2 * n && 2 * n * v == v * 2 * n && n * (2 * u) == u * 2 * n && n * (2 * v) == v * 2 * n && u * (2 * n) == u * 2 * n && v * (2 * n) == v * 2 * n && u * n * 2 == u * 2 * n && v * n * 2 == v * 2 * n && 2 * u * n == u * 2 * n && 2 * v * n == v * 2 * n && (n + t) * u == u * (n + t) && (n + t) * v == v * (n + t) && per * x == u && per * y == v) by (nonlinear_arith) requires u == x * per, v == y * per;
        cuts::<GF<W>>();
        wide(d.k, b, pp.keys.dims().2);
        flattened(pp.keys, pp.masks@, d.k);
        chosen::<W>(gs, c); same_rows::<W>(gs, c);
    }
//@closure 0
    |g: &PackedGate| -> (o: Vec<GF<W>>) requires context.mpc.ok(), out_shares.rows() == context.circ.inputs_().len() + context.circ.gs().len() ensures o@ == cat(picks(out_shares, *g, c))
//@before let num_rows
    proof { assert(selected@ == cat(picks_cat(out_shares, gs, c))); let _ = picked(out_shares, gs, c); }
//@preloop 0
    proof { m = id_gen.of().1; }
    let ghost inp = inp_shares_of(net0, id0, m, pp, c);
    let ghost all = inp_shares_iter@;
    let ghost (rr, rz) = (rest_r(pp, c), rest_z(pp, c));
    proof { assert(announced(m, (4 + gs.len()) as int)); plenty_left(pp, c); assert(gs.take(0) =~= Seq::empty()); }
//@loop 0
    invariant
        built(c), *context == c, d == dim(c), gs == c.circ.gs(), net == net0, id_gen.of() == (id0, m, 4 + __k0), m >= 4 + gs.len(), mpcctx == c.mpc, num_circ_inp_blocks == d.nin,
        __s0@.len() == gs.len(), forall|g: int| 0 <= g < gs.len() ==> #[trigger] __s0@[g] == (g as usize, &gs[g]),
        inp.rows() == ins(gs), inp.cols() == 2 * d.k + 1, all.len() == ins(gs), forall|i: int| 0 <= i < ins(gs) ==> (#[trigger] all[i])@ == inp.row_s(i), inp_shares_iter@ == all.skip(ins(gs.take(__k0 as int))),
        preproc.masks@ == pp.masks@, preproc.keys == pp.keys, pp.masks@.len() == d.nin + gs.len(), pp.keys.dims() == (2int, d.k, d.nin + gs.len()),
        plenty(rr, rz, pp.errors@, gs, d.k, d.m), mults(gs.take(__k0 as int), d.k) <= rr.len(), mults(gs.take(__k0 as int), d.k) <= rz.len(), errs(gs.take(__k0 as int), d.m) <= pp.errors@.len(),
        vd(preproc.randoms) == rr.skip(mults(gs.take(__k0 as int), d.k)), vd(preproc.zeros) == rz.skip(mults(gs.take(__k0 as int), d.k)), vd(preproc.errors) == pp.errors@.skip(errs(gs.take(__k0 as int), d.m)),
        hv(gc_handles).len() == __k0, forall|g: int| 0 <= g < __k0 ==> (#[trigger] hv(gc_handles)[g]).v == gate_table(net0, child(id0, m, 4 + g), g, inp, pp.keys, pp.masks@, rr, rz, pp.errors@, c),
//@loopstart 0
    let ghost g = __k0 as int;
    proof { sums_grow(gs, g, d.k, d.m); cuts::<GF<W>>(); pieces(inp.row_s(ins(gs.take(g))), inp.row_s(ins(gs.take(g)) + 1), pp.keys, d.k, d.nin + g); }
//@preloop 1
    let ghost whole = iter@;
    proof { assert(__h0.0 * __h0.1 * __h0.2 == 4 * d.k) by (nonlinear_arith) requires __h0.0 == 2, __h0.1 == 2, __h0.2 == d.k; }
//@loop 1
    invariant
        whole.len() == 4 * d.k, __s1@.len() == 4 * d.k, iter@ == whole.skip(__k1 as int), __v0@ == whole.take(__k1 as int),
//@preloop 2
    let ghost whole = iter@;
    proof { assert(__h1.0 * __h1.1 * __h1.2 == 4 * d.k) by (nonlinear_arith) requires __h1.0 == 2, __h1.1 == 2, __h1.2 == d.k; }
//@loop 2
    invariant
        whole.len() == 4 * d.k, __s2@.len() == 4 * d.k, iter@ == whole.skip(__k2 as int), __v1@ == whole.take(__k2 as int),
//@loop 3
    invariant
        __s3@.len() == gs.len(), forall|g: int| 0 <= g < gs.len() ==> (#[trigger] __s3@[g]).v == gate_table(net0, child(id0, m, 4 + g), g, inp, pp.keys, pp.masks@, rr, rz, pp.errors@, c),
        garbled(gc@, net0, id0, m, pp, c, __k3 as int), inp == inp_shares_of(net0, id0, m, pp, c), rr == rest_r(pp, c), rz == rest_z(pp, c),
//@tail
    proof { left.r = preproc.randoms@.len() as int; left.z = preproc.zeros@.len() as int; left.e = preproc.errors@.len() as int; assert(gs.take(gs.len() as int) =~= gs); }
//@end
spec fn held<const W: u8>(c: Arc<GarbleContext<W>>) -> GarbleContext<W> { *c }
spec fn hv<const W: u8>(h: Vec<Ready<Array2<GF<W>>>>) -> Seq<Ready<Array2<GF<W>>>> { h@ }
spec fn vd<T>(v: VecDeque<T>) -> Seq<T> { v@ }
// What is cut out for a gate, however it is put together.
proof fn pieces<const W: u8>(x: Seq<GF<W>>, y: Seq<GF<W>>, keys: Array3<GF<W>>, k: int, b: int)
    requires 0 <= k
    ensures
        forall|a: [GF<W>; 2]| #[trigger] a@ == seq![a@[0], a@[1]],
        x.len() == 2 * k + 1 && y.len() == 2 * k + 1 ==> forall|a: Array3<GF<W>>| a.dims() == (2int, 2int, k) && a@ =~= x.take(2 * k) + y.take(2 * k) ==> #[trigger] quad(a) == pair(x, k) + pair(y, k),
        forall|a: Array2<GF<W>>| a.rows() == 2 && a.cols() == k && (forall|i: int, j: int| 0 <= i < 2 && 0 <= j < k ==> #[trigger] a.at(i, j) == keys.at3(i, j, b)) ==> #[trigger] rows_of(a) == seq![kcol(keys, k, 0, b), kcol(keys, k, 1, b)],
        x.len() == 2 * k + 1 ==> forall|a: Array2<GF<W>>| a.rows() == 2 && a.cols() == k && (forall|i: int, j: int| 0 <= i < 2 && 0 <= j < k ==> #[trigger] a.at(i, j) == cell(x.take(2 * k), k, i, j)) ==> #[trigger] rows_of(a) == pair(x, k),
{
    assert forall|a: [GF<W>; 2]| #[trigger] a@ == seq![a@[0], a@[1]] by { assert(a@ =~= seq![a@[0], a@[1]]); }
    if x.len() == 2 * k + 1 && y.len() == 2 * k + 1 {
        assert forall|a: Array3<GF<W>>| a.dims() == (2int, 2int, k) && a@ =~= x.take(2 * k) + y.take(2 * k) implies #[trigger] quad(a) == pair(x, k) + pair(y, k) by {
            reveal(Array3::at3);
            assert(a.line(0, 0) =~= x.subrange(0, k)) by { assert((0 * 2 + 0) * k == 0) by (nonlinear_arith); }
            assert(a.line(0, 1) =~= x.subrange(k, 2 * k)) by { assert((0 * 2 + 1) * k == k) by (nonlinear_arith); }
            assert(a.line(1, 0) =~= y.subrange(0, k)) by { assert((1 * 2 + 0) * k == 2 * k) by (nonlinear_arith); }
            assert(a.line(1, 1) =~= y.subrange(k, 2 * k)) by { assert((1 * 2 + 1) * k == 3 * k) by (nonlinear_arith); }
            assert(quad(a) =~= pair(x, k) + pair(y, k));
        }
    }
    assert forall|a: Array2<GF<W>>| a.rows() == 2 && a.cols() == k && (forall|i: int, j: int| 0 <= i < 2 && 0 <= j < k ==> #[trigger] a.at(i, j) == keys.at3(i, j, b)) implies #[trigger] rows_of(a) == seq![kcol(keys, k, 0, b), kcol(keys, k, 1, b)] by {
        assert(a.row_s(0) =~= kcol(keys, k, 0, b));
        assert(a.row_s(1) =~= kcol(keys, k, 1, b));
        assert(rows_of(a) =~= seq![kcol(keys, k, 0, b), kcol(keys, k, 1, b)]);
    }
    if x.len() == 2 * k + 1 {
        assert forall|a: Array2<GF<W>>| a.rows() == 2 && a.cols() == k && (forall|i: int, j: int| 0 <= i < 2 && 0 <= j < k ==> #[trigger] a.at(i, j) == cell(x.take(2 * k), k, i, j)) implies #[trigger] rows_of(a) == pair(x, k) by {
            assert(0 * k == 0 && 1 * k == k) by (nonlinear_arith);
            assert(a.row_s(0) =~= x.subrange(0, k));
            assert(a.row_s(1) =~= x.subrange(k, 2 * k));
            assert(rows_of(a) =~= pair(x, k));
        }
    }
}
