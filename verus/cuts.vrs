// A piece of a piece of a sequence.
pub proof fn cuts<T>()
    ensures forall|s: Seq<T>, a: int, b: int, c: int, d: int| 0 <= a <= b <= s.len() && 0 <= c <= d <= b - a ==> #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{
    assert forall|s: Seq<T>, a: int, b: int, c: int, d: int| 0 <= a <= b <= s.len() && 0 <= c <= d <= b - a implies #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d) by { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
}
