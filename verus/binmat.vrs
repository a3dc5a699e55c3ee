// Binary extraction matrices from files (C07): binary_super_inv_matrix in src/math/mod.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@std for gf arr
//@include iter.vrs
//@include gf.vrs
//@include nd.vrs
//@note A file is what BufRead::lines and split(' ') make of it: lines, each a list of fields. Matrix files (quantified over in the property): at least one line, every line with the same number of fields, each 0 or 1.
pub type Wd = Seq<char>;
#[verifier::external_body]
pub struct Path { x: u8 }
impl Path { pub uninterp spec fn lines(&self) -> Seq<Seq<Wd>>; }
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn lines(&self) -> Seq<Seq<Wd>>;
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: Result<File, ()>) ensures r matches Ok(f) && f.lines() == p.lines() { unimplemented!() }
}
#[verifier::external_body]
pub struct BufReader { x: u8 }
impl BufReader {
    pub uninterp spec fn left(&self) -> Seq<Seq<Wd>>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: Self) ensures r.left() == f.lines() { unimplemented!() }
    #[verifier::external_body]
    pub fn lines(self) -> (r: It<Result<Text, ()>>) ensures r@.len() == self.left().len(), forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]) matches Ok(t) && t@ == self.left()[i]) { unimplemented!() }
}
#[verifier::external_body]
pub struct Text { x: u8 }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<Wd>;
    #[verifier::external_body]
    pub fn split(&self, c: char) -> (r: It<Word>) requires c == ' ' ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i] { unimplemented!() }
}
#[verifier::external_body]
pub struct Word { x: u8 }
impl Word {
    pub uninterp spec fn view(&self) -> Wd;
    #[verifier::external_body]
    pub fn is(&self, s: &str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
impl Clone for Word { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for Word {}
impl<T> Array2<T> {
    #[verifier::external_body]
    pub fn reversed_axes(self) -> (r: Self) ensures r.rows() == self.cols(), r.cols() == self.rows(), forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(j, i) { unimplemented!() }
}
pub open spec fn bit<const W: u8>(w: Wd) -> GF<W> { if w == "1"@ { one() } else { zero() } }
pub open spec fn width(f: Seq<Seq<Wd>>) -> int { f[0].len() as int }
pub open spec fn bits(l: Seq<Wd>, c: int) -> bool { l.len() == c && forall|j: int| 0 <= j < c ==> #[trigger] l[j] == "0"@ || l[j] == "1"@ }
pub open spec fn mat_file(f: Seq<Seq<Wd>>) -> bool { 1 <= f.len() <= usize::MAX && f.len() * width(f) <= usize::MAX && forall|i: int| 0 <= i < f.len() ==> bits(#[trigger] f[i], width(f)) }
// k lines and n fields of the next
pub open spec fn filled<const W: u8>(v: Seq<GF<W>>, f: Seq<Seq<Wd>>, k: int, n: int) -> bool { v.len() == k * width(f) + n && forall|i: int, j: int| 0 <= i <= k && 0 <= j < (if i < k { width(f) } else { n }) ==> #[trigger] cell(v, width(f), i, j) == bit::<W>(f[i][j]) }
proof fn spot(i: int, j: int, k: int, n: int, c: int)
    requires 0 <= i <= k, 0 <= j < (if i < k { c } else { n }), 0 <= n <= c
    ensures 0 <= i * c + j < k * c + n, i * c + j == k * c + n ==> false
{ assert(0 <= i * c && (i < k ==> i * c + c <= k * c)) by (nonlinear_arith) requires 0 <= i <= k, 0 <= c; }
proof fn one_more<const W: u8>(v: Seq<GF<W>>, x: GF<W>, f: Seq<Seq<Wd>>, k: int, n: int)
    requires filled(v, f, k, n), 0 <= k, 0 <= n < width(f), x == bit::<W>(f[k][n])
    ensures filled(v.push(x), f, k, n + 1)
{
    let u = v.push(x);
    let c = width(f);
    assert forall|i: int, j: int| 0 <= i <= k && 0 <= j < (if i < k { c } else { n + 1 }) implies #[trigger] cell(u, c, i, j) == bit::<W>(f[i][j]) by {
        if i == k && j == n { } else { spot(i, j, k, n, c); assert(cell(v, c, i, j) == bit::<W>(f[i][j])); }
    }
}
proof fn line_done<const W: u8>(v: Seq<GF<W>>, f: Seq<Seq<Wd>>, k: int)
    requires filled(v, f, k, width(f)), 0 <= k
    ensures filled(v, f, k + 1, 0)
{ assert((k + 1) * width(f) == k * width(f) + width(f)) by (nonlinear_arith); }
//@fn src/math/mod.rs | - | binary_super_inv_matrix
//@rewrite ?"(\w+)"\s*=>\s*matrix ==> __g if __g.is("\1") => matrix # matching a string against a literal as a comparison
//@rewrite ?panic!\("[^"]*"\) ==> vstd::pervasive::unreached() # a panic as unreachable
//@contract
    requires mat_file(path.lines())
    ensures res.rows() == width(path.lines()), res.cols() == path.lines().len(), forall|i: int, j: int| 0 <= i < width(path.lines()) && 0 <= j < path.lines().len() ==> #[trigger] res.at(i, j) == bit::<W>(path.lines()[j][i])
//@entry
    let ghost f = path.lines();
    proof {
        reveal_strlit("0"); reveal_strlit("1");
        assert("0"@[0] == '0' && "1"@[0] == '1');
        assert(0 * width(f) == 0);
        assert(f.len() * width(f) == width(f) * f.len()) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(width(f), f.len() as int);
        assert((width(f) * f.len()) / (f.len() as int) == width(f)) by { vstd::arithmetic::div_mod::lemma_div_by_multiple(width(f), f.len() as int); }
    }
//@loop 0
    invariant mat_file(f), __s0@.len() == f.len(), forall|i: int| 0 <= i < f.len() ==> ((#[trigger] __s0@[i]) matches Ok(t) && t@ == f[i]), num_rows == __k0, filled(matrix@, f, __k0 as int, 0)
//@loopstart 0
    let ghost k = __k0 as int;
    proof {
        reveal_strlit("0"); reveal_strlit("1");
        assert("0"@[0] == '0' && "1"@[0] == '1');
    }
//@loopend 0
    proof { line_done(matrix@, f, k); }
//@loop 1
    invariant mat_file(f), 0 <= k < f.len(), __s1@.len() == width(f), forall|j: int| 0 <= j < width(f) ==> (#[trigger] __s1@[j])@ == f[k][j], filled(matrix@, f, k, __k1 as int)
//@loopstart 1
    let ghost v0 = matrix@;
    let ghost j0 = __k1 as int;
    proof {
        reveal_strlit("0"); reveal_strlit("1");
        assert("0"@[0] == '0' && "1"@[0] == '1');
        assert(bits(f[k], width(f)));
    }
//@loopend 1
    proof { one_more(v0, bit::<W>(f[k][j0]), f, k, j0); }
//@end
}
