// Cutting into blocks of k: all full except possibly the last.
pub open spec fn nblk(n: int, k: int) -> int recommends k > 0 { if n <= 0 { 0 } else { (n - 1) / k + 1 } }
pub open spec fn blk<T>(s: Seq<T>, k: int, i: int) -> Seq<T> { s.subrange(i * k, if (i + 1) * k < s.len() { (i + 1) * k } else { s.len() as int }) }
// block i is full unless it is the last, and no block is empty
pub proof fn blk_len(n: int, k: int, i: int)
    requires k > 0, 0 <= i < nblk(n, k)
    ensures 0 <= i * k < n, i * k < (i + 1) * k, i < nblk(n, k) - 1 ==> (i + 1) * k <= n, i == nblk(n, k) - 1 ==> (i + 1) * k >= n
{
    assert(i * k < n && i * k < (i + 1) * k && (i < nblk(n, k) - 1 ==> (i + 1) * k <= n) && (i == nblk(n, k) - 1 ==> (i + 1) * k >= n)) by (nonlinear_arith) requires k > 0, n > 0, 0 <= i <= (n - 1) / k, nblk(n, k) == (n - 1) / k + 1;
    assert(0 <= i * k) by (nonlinear_arith) requires k > 0, i >= 0;
}
pub trait Chunks<T> {
    spec fn whole(&self) -> Seq<T>;
    fn chunks<'a>(&'a self, k: usize) -> (r: It<&'a [T]>)
        requires k > 0
        ensures r@.len() == nblk(self.whole().len() as int, k as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == blk(self.whole(), k as int, i);
}
impl<T> Chunks<T> for Vec<T> {
    open spec fn whole(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn chunks<'a>(&'a self, k: usize) -> (r: It<&'a [T]>) { unimplemented!() }
}
impl<T> Chunks<T> for [T] {
    open spec fn whole(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn chunks<'a>(&'a self, k: usize) -> (r: It<&'a [T]>) { unimplemented!() }
}
// Every element is in exactly one block, at one place: block p / k, place p % k.
pub proof fn blk_covers<T>(s: Seq<T>, k: int, p: int)
    requires k > 0, 0 <= p < s.len()
    ensures 0 <= p / k < nblk(s.len() as int, k), 0 <= p % k < blk(s, k, p / k).len(), blk(s, k, p / k)[p % k] == s[p]
{
    let n = s.len() as int;
    assert(0 <= p / k <= (n - 1) / k && 0 <= p % k < k && p == (p / k) * k + p % k) by (nonlinear_arith) requires k > 0, 0 <= p < n;
    blk_len(n, k, p / k);
    assert((p / k + 1) * k == (p / k) * k + k) by (nonlinear_arith);
}
pub proof fn blk_once(n: int, k: int, i: int, j: int)
    requires k > 0, 0 <= i < nblk(n, k), 0 <= j < k, i * k + j < n
    ensures (i * k + j) / k == i, (i * k + j) % k == j
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * k + j, k, i, j);
}
