// Circuit evaluation (C13): Circuit::eval in src/circuit.rs
use vstd::prelude::*;
verus! {
//@std for
//@include iter.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct GateInfo<
//@item src/circuit.rs | pub enum Gate\b
//@item src/circuit.rs | pub struct Circuit\b
//@note Well-formed circuits: every wire number is below num_wires (quantified over in the property); one list of bits per input group.

// Assignment of values to wires, one at a time.
pub open spec fn load(w: Seq<bool>, ws: Seq<u32>, bs: Seq<bool>, k: int) -> Seq<bool> decreases k {
    if k <= 0 { w } else { load(w, ws, bs, k - 1).update(ws[k - 1] as int, bs[k - 1]) }
}
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn loads(w: Seq<bool>, ws: Seq<Vec<u32>>, bs: Seq<Vec<bool>>, k: int) -> Seq<bool> decreases k {
    if k <= 0 { w } else { load(loads(w, ws, bs, k - 1), ws[k - 1]@, bs[k - 1]@, least(ws[k - 1]@.len() as int, bs[k - 1]@.len() as int)) }
}
// One gate.
pub open spec fn step(w: Seq<bool>, g: Gate) -> Seq<bool> {
    match g {
        Gate::Xor(i) => w.update(i.out as int, w[i.inp@[0] as int] != w[i.inp@[1] as int]),
        Gate::And(i) => w.update(i.out as int, w[i.inp@[0] as int] && w[i.inp@[1] as int]),
        Gate::Inv(i) => w.update(i.out as int, !w[i.inp@[0] as int]),
    }
}
pub open spec fn steps(w: Seq<bool>, gs: Seq<Gate>, k: int) -> Seq<bool> decreases k {
    if k <= 0 { w } else { step(steps(w, gs, k - 1), gs[k - 1]) }
}
pub open spec fn gate_ok(g: Gate, n: int) -> bool {
    match g {
        Gate::Xor(i) => i.out < n && i.inp@[0] < n && i.inp@[1] < n,
        Gate::And(i) => i.out < n && i.inp@[0] < n && i.inp@[1] < n,
        Gate::Inv(i) => i.out < n && i.inp@[0] < n,
    }
}
pub open spec fn below(w: Seq<u32>, n: int) -> bool { forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] < n }
spec fn vv(v: Vec<Vec<bool>>) -> Seq<Vec<bool>> { v@ }
spec fn v1(v: Vec<bool>) -> Seq<bool> { v@ }
impl Circuit {
    spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.gates@.len() ==> gate_ok(#[trigger] self.gates@[i], self.num_wires as int)
        &&& forall|i: int| 0 <= i < self.inputs@.len() ==> below((#[trigger] self.inputs@[i])@, self.num_wires as int)
        &&& forall|i: int| 0 <= i < self.outputs@.len() ==> below((#[trigger] self.outputs@[i])@, self.num_wires as int)
    }
    spec fn values(&self, inp: Seq<Vec<bool>>) -> Seq<bool> {
        steps(loads(Seq::new(self.num_wires as nat, |i: int| false), self.inputs@, inp, least(self.inputs@.len() as int, inp.len() as int)), self.gates@, self.gates@.len() as int)
    }
//@fn src/circuit.rs | ^impl Circuit$ | eval
//@contract
    requires self.wf()
    ensures
        res@.len() == self.outputs@.len(),
        forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i])@.len() == self.outputs@[i]@.len(),
        forall|i: int, j: int| 0 <= i < res@.len() && 0 <= j < res@[i]@.len() ==> #[trigger] res@[i]@[j] == self.values(inputs@)[self.outputs@[i]@[j] as int],
//@rewrite ?([\w.\[\]]+) & ([\w.\[\]]+) ==> (\1 && \2) # on booleans without effects & is &&
//@rewrite ?([\w.\[\]]+) \| ([\w.\[\]]+) ==> (\1 || \2) # on booleans without effects | is ||
//@rewrite ?([\w.\[\]]+) \^ ([\w.\[\]]+) ==> (\1 != \2) # on booleans ^ is !=
//@entry
    let ghost w0 = Seq::new(self.num_wires as nat, |i: int| false);
//@preloop 0
    assert(wires@ =~= w0);
//@loop 0
    invariant
        self.wf(), wires@.len() == self.num_wires,
        __s0@.len() == least(self.inputs@.len() as int, inputs@.len() as int),
        forall|k: int| 0 <= k < __s0@.len() ==> #[trigger] __s0@[k] == (&self.inputs@[k], &inputs@[k]),
        wires@ == loads(w0, self.inputs@, inputs@, __k0 as int),
//@loop 1
    invariant
        self.wf(), wires@.len() == self.num_wires, 0 < __k0 <= __s0@.len(), __s0@.len() <= self.inputs@.len(), __s0@.len() <= inputs@.len(),
        __s1@.len() == least(self.inputs@[__k0 - 1]@.len() as int, inputs@[__k0 - 1]@.len() as int),
        forall|k: int| 0 <= k < __s1@.len() ==> #[trigger] __s1@[k] == (&self.inputs@[__k0 - 1]@[k], &inputs@[__k0 - 1]@[k]),
        wires@ == load(loads(w0, self.inputs@, inputs@, __k0 - 1), self.inputs@[__k0 - 1]@, inputs@[__k0 - 1]@, __k1 as int),
//@loopstart 1
    assert(below(self.inputs@[__k0 - 1]@, self.num_wires as int));
    assert(self.inputs@[__k0 - 1]@[__k1 as int] < self.num_wires);
//@loop 2
    invariant
        self.wf(), wires@.len() == self.num_wires,
        __s2@ == refs(self.gates@),
        wires@ == steps(loads(w0, self.inputs@, inputs@, least(self.inputs@.len() as int, inputs@.len() as int)), self.gates@, __k2 as int),
//@loopstart 2
    assert(gate_ok(self.gates@[__k2 as int], self.num_wires as int));
//@loop 3
    invariant
        self.wf(), wires@.len() == self.num_wires,
        __s3@ == refs(self.outputs@),
        wires@ == self.values(inputs@),
        vv(outputs).len() == __k3,
        forall|i: int| 0 <= i < __k3 ==> (#[trigger] vv(outputs)[i])@.len() == self.outputs@[i]@.len(),
        forall|i: int, j: int| 0 <= i < __k3 && 0 <= j < vv(outputs)[i]@.len() ==> #[trigger] vv(outputs)[i]@[j] == wires@[self.outputs@[i]@[j] as int],
//@loop 4
    invariant
        self.wf(), wires@.len() == self.num_wires, 0 < __k3 <= self.outputs@.len(),
        __s4@ == refs(self.outputs@[__k3 - 1]@),
        wires@ == self.values(inputs@),
        v1(output).len() == __k4,
        forall|j: int| 0 <= j < __k4 ==> #[trigger] v1(output)[j] == wires@[self.outputs@[__k3 - 1]@[j] as int],
//@loopstart 4
    assert(below(self.outputs@[__k3 - 1]@, self.num_wires as int));
    assert(self.outputs@[__k3 - 1]@[__k4 as int] < self.num_wires);
//@end
}
}
