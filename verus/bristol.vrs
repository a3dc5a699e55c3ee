// Loading circuit files (C12): Circuit::from_bristol_fashion in src/circuit.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@std for scan
//@include iter.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct GateInfo<
//@item src/circuit.rs | pub enum Gate\b
//@item src/circuit.rs | pub struct Circuit\b
//@note A file is what BufRead::read_line and split_ascii_whitespace (or split_whitespace, the same on ASCII files) make of it: lines, each a list of words; lines end with a line break, so that the words of two lines read into one string are the words of the one and then of the other. str::parse::<u32> is an uninterpreted function of the word (isnum, num); trim changes nothing in a word.
//@note Well-formed files (quantified over in the property): four header lines with the numbers of gates and wires, the number of input groups and their sizes, the number of output groups and their sizes; then a line per gate: fan-in, fan-out, that many inputs, an output and AND, XOR or INV, with two inputs or one. The input groups and the output groups fit into the wires.
pub type Wd = Seq<char>;
pub uninterp spec fn isnum(w: Wd) -> bool;
pub uninterp spec fn num(w: Wd) -> u32;
#[verifier::external_body]
pub struct Path { x: u8 }
impl Path { pub uninterp spec fn lines(&self) -> Seq<Seq<Wd>>; }
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn lines(&self) -> Seq<Seq<Wd>>;
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: Result<File, ()>) ensures r matches Ok(f) && f.lines() == p.lines() { unimplemented!() }
}
#[verifier::external_body]
pub struct BufReader { x: u8 }
impl BufReader {
    pub uninterp spec fn left(&self) -> Seq<Seq<Wd>>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: Self) ensures r.left() == f.lines() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_line(&mut self, t: &mut Text) -> (r: Result<usize, ()>)
        ensures
            r.is_ok(),
            old(self).left().len() > 0 ==> final(t)@ == old(t)@ + old(self).left()[0] && final(self).left() == old(self).left().skip(1),
            old(self).left().len() == 0 ==> final(t)@ == old(t)@ && final(self).left() == old(self).left(),
    { unimplemented!() }
}
// a string, as its words
#[verifier::external_body]
pub struct Text { x: u8 }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<Wd>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<Wd>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn split_whitespace(&self) -> (r: It<Word>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn split_ascii_whitespace(&self) -> (r: It<Word>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i] { unimplemented!() }
}
#[verifier::external_body]
pub struct Word { x: u8 }
impl Word {
    pub uninterp spec fn view(&self) -> Wd;
    #[verifier::external_body]
    pub fn trim(&self) -> (r: Word) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn owned(&self) -> (r: Word) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T>(&self) -> (r: Result<u32, ()>) ensures r.is_ok() == isnum(self@), r matches Ok(x) ==> x == num(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is(&self, s: &str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
impl Clone for Word { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for Word {}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
    { unimplemented!() }
}
impl Num for i32 { open spec fn val(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn last_of<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() > 0 ==> (r matches Some(x) && *x == v@.last()), v@.len() == 0 ==> r is None { unimplemented!() }
// What a file says.
pub open spec fn heads(f: Seq<Seq<Wd>>, k: int) -> Seq<Wd> decreases k { if k <= 0 { Seq::empty() } else { heads(f, k - 1) + f[k - 1] } }
pub open spec fn head(f: Seq<Seq<Wd>>) -> Seq<Wd> { heads(f, 4) }
// what is left of the words m after the first c
pub open spec fn rest(s: Seq<Word>, m: Seq<Wd>, c: int) -> bool { 0 <= c <= m.len() && s.len() == m.len() - c && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == m[c + i] }
pub open spec fn nums(s: Seq<u32>, w: Seq<Wd>, c: int) -> bool { s.len() == w.len() - 1 - c && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == num(w[c + i]) }
#[verifier::external_body]
pub fn turn<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
pub open spec fn at(f: Seq<Seq<Wd>>, i: int) -> int { num(head(f)[i]) as int }
pub open spec fn sum(f: Seq<Seq<Wd>>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { sum(f, a, b - 1) + at(f, b - 1) } }
pub open spec fn nin(f: Seq<Seq<Wd>>) -> int { at(f, 2) }
pub open spec fn nout(f: Seq<Seq<Wd>>) -> int { at(f, 3 + nin(f)) }
pub open spec fn run(a: int, k: int) -> Seq<u32> { Seq::new(k as nat, |j: int| (a + j) as u32) }
pub open spec fn in_group(f: Seq<Seq<Wd>>, k: int) -> Seq<u32> { run(sum(f, 3, 3 + k), at(f, 3 + k)) }
pub open spec fn out_group(f: Seq<Seq<Wd>>, k: int) -> Seq<u32> { run(at(f, 1) - sum(f, 4 + nin(f) + k, 4 + nin(f) + nout(f)), at(f, 4 + nin(f) + k)) }
pub open spec fn is_gate(g: Gate, w: Seq<Wd>) -> bool {
    let out = num(w[2 + num(w[0])]);
    match g {
        Gate::And(i) => w.last() == "AND"@ && i.inp@[0] == num(w[2]) && i.inp@[1] == num(w[3]) && i.out == out,
        Gate::Xor(i) => w.last() == "XOR"@ && i.inp@[0] == num(w[2]) && i.inp@[1] == num(w[3]) && i.out == out,
        Gate::Inv(i) => w.last() == "INV"@ && i.inp@[0] == num(w[2]) && i.out == out,
    }
}
pub open spec fn gate_line(w: Seq<Wd>) -> bool {
    &&& w.len() > 0 && w.len() == num(w[0]) + 4
    &&& forall|i: int| 0 <= i < w.len() - 1 ==> isnum(#[trigger] w[i])
    &&& (w.last() == "AND"@ && num(w[0]) == 2) || (w.last() == "XOR"@ && num(w[0]) == 2) || (w.last() == "INV"@ && num(w[0]) == 1)
}
pub open spec fn well_formed(f: Seq<Seq<Wd>>) -> bool {
    &&& f.len() >= 4 && head(f).len() >= 4 && head(f).len() >= 4 + nin(f) + nout(f)
    &&& forall|i: int| 0 <= i < head(f).len() ==> isnum(#[trigger] head(f)[i])
    &&& sum(f, 3, 3 + nin(f)) <= at(f, 1) && sum(f, 4 + nin(f), 4 + nin(f) + nout(f)) <= at(f, 1)
    &&& f.len() >= 4 + at(f, 0)
    &&& forall|g: int| 4 <= g < 4 + at(f, 0) ==> gate_line(#[trigger] f[g])
}
pub open spec fn ins_are(w: Seq<Vec<u32>>, f: Seq<Seq<Wd>>, k: int) -> bool { w.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] w[i])@ == in_group(f, i) }
pub open spec fn outs_are(w: Seq<Vec<u32>>, f: Seq<Seq<Wd>>, k: int) -> bool { w.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] w[i])@ == out_group(f, nout(f) - 1 - i) }
pub open spec fn v1(v: Vec<u32>) -> Seq<u32> { v@ }
pub open spec fn lens_are(w: Seq<u32>, f: Seq<Seq<Wd>>, a: int, k: int) -> bool { w.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] w[i] == at(f, a + i) }
pub open spec fn inps_are(v: Seq<u32>, w: Seq<Wd>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == num(w[2 + i]) }
proof fn sum_mono(f: Seq<Seq<Wd>>, a: int, b: int, c: int)
    requires a <= b <= c
    ensures 0 <= sum(f, a, b) <= sum(f, a, c), sum(f, a, c) == sum(f, a, b) + sum(f, b, c), 0 <= sum(f, b, c)
    decreases c - a
{
    if b < c { sum_mono(f, a, b, c - 1); } else if a < b { sum_mono(f, a, b - 1, b - 1); }
}
proof fn sum_one(f: Seq<Seq<Wd>>, a: int, b: int)
    requires b == a + 1
    ensures sum(f, a, b) == at(f, a)
{ assert(sum(f, a, b - 1) == 0); assert(sum(f, a, b) == sum(f, a, b - 1) + at(f, b - 1)); }
impl Circuit {
//@fn src/circuit.rs | ^impl Circuit$ | from_bristol_fashion
//@rewrite ?\bString::new\(\) ==> Text::new() # a string as its words
//@rewrite ?\b(\w+)\s*\.last\(\) ==> last_of(&\1) # slice::last as a call
//@rewrite ?\.to_owned\(\) ==> .owned() # a copy of a word
//@rewrite ?"(\w+)"\s*=>\s*gates ==> __g if __g.is("\1") => gates # matching a string against a literal as a comparison
//@rewrite ?\b(\w+)\.reverse\(\) ==> turn(&mut \1) # reversing a vector in place
//@rewrite ?panic!\("[^"]*"\) ==> vstd::pervasive::unreached() # a panic as unreachable
//@inline next_meta_number
//@std
//@contract
    requires well_formed(path.lines())
    ensures
        res.num_wires == at(path.lines(), 1),
        res.inputs@.len() == nin(path.lines()), forall|k: int| 0 <= k < nin(path.lines()) ==> (#[trigger] res.inputs@[k])@ == in_group(path.lines(), k),
        res.outputs@.len() == nout(path.lines()), forall|k: int| 0 <= k < nout(path.lines()) ==> (#[trigger] res.outputs@[k])@ == out_group(path.lines(), k),
        res.gates@.len() == at(path.lines(), 0), forall|g: int| 0 <= g < res.gates@.len() ==> is_gate(#[trigger] res.gates@[g], path.lines()[4 + g]),
//@entry
    let ghost f = path.lines();
    let ghost m = head(f);
    let ghost (a, e) = (4 + nin(f), 4 + nin(f) + nout(f));
    proof {
        reveal_strlit("AND"); reveal_strlit("XOR"); reveal_strlit("INV");
        assert("AND"@.len() == 3 && "AND"@[0] == 'A' && "XOR"@[0] == 'X' && "INV"@[0] == 'I');
        assert(f.skip(0) =~= f);
    }
//@loop 0
    invariant f == path.lines(), f.len() >= 4, __s0@.len() == 4, reader.left() == f.skip(__k0 as int), meta_data@ == heads(f, __k0 as int)
//@loop 1
    invariant rest(meta_iter@, m, 3 + __k1), m == head(f), well_formed(f), num_inputs == nin(f), __s1@.len() == nin(f), lens_are(__w0@, f, 3, __k1 as int)
//@loop 2
    invariant well_formed(f), __s2@.len() == nin(f), forall|i: int| 0 <= i < nin(f) ==> #[trigger] __s2@[i] == at(f, 3 + i), state == sum(f, 3, 3 + __k2), ins_are(__w1@, f, __k2 as int)
//@loopend 0
    proof { assert(f.skip(__k0 - 1).skip(1) =~= f.skip(__k0 as int)); }
//@loopstart 2
    proof { sum_mono(f, 3, 3 + __k2 + 1, 3 + nin(f)); assert(sum(f, 3, 3 + __k2 + 1) == sum(f, 3, 3 + __k2) + at(f, 3 + __k2)); sum_mono(f, 3, 3 + __k2, 3 + __k2 + 1); }
//@loopend 2
    proof { assert(v1(__w1@[__k2 - 1]) =~= in_group(f, __k2 - 1)); }
//@loop 3
    invariant rest(meta_iter@, m, a + __k3), m == head(f), well_formed(f), a == 4 + nin(f), num_outputs == nout(f), __s3@.len() == nout(f), lens_are(__w2@, f, a, __k3 as int)
//@loop 4
    invariant well_formed(f), a == 4 + nin(f), e == a + nout(f), num_wires == at(f, 1), __s4@.len() == nout(f), forall|i: int| 0 <= i < nout(f) ==> #[trigger] __s4@[i] == at(f, e - 1 - i), state == num_wires - sum(f, e - __k4, e), outs_are(__w3@, f, __k4 as int)
//@loopstart 4
    proof { sum_mono(f, a, e - __k4 - 1, e); sum_mono(f, e - __k4 - 1, e - __k4, e); sum_one(f, e - __k4 - 1, e - __k4); }
//@loopend 4
    proof { assert(v1(__w3@[__k4 - 1]) =~= out_group(f, nout(f) - 1 - (__k4 - 1))); }
//@loop 5
    invariant well_formed(f), __s5@.len() == at(f, 0), reader.left() == f.skip(4 + __k5), gates@.len() == __k5, forall|g: int| 0 <= g < __k5 ==> is_gate(#[trigger] gates@[g], f[4 + g])
//@loopstart 5
    let ghost w = f[4 + __k5];
    proof { reveal_strlit("AND"); reveal_strlit("XOR"); reveal_strlit("INV"); assert("AND"@[0] == 'A' && "XOR"@[0] == 'X' && "INV"@[0] == 'I'); assert(gate_line(w)); assert(Seq::<Wd>::empty() + w =~= w); assert(f.skip(4 + __k5).skip(1) =~= f.skip(4 + __k5 + 1)); }
//@loop 6
    invariant gate_line(w), fan_in == num(w[0]), __s6@.len() == fan_in, nums(iter@, w, 2 + __k6), inps_are(__w4@, w, __k6 as int)
//@closure 0
|s: &Word| -> (o: u32) requires isnum(s@) ensures o == num(s@)
//@end
}
}
