// Numbers of batches.
pub open spec fn batches_of(num: int, bs: int) -> int { (num + bs - 1) / bs }
pub open spec fn made_of(num: int, bs: int) -> int { batches_of(num, bs) * bs }
pub proof fn ceil_ok(num: int, bs: int)
    requires 0 <= num, 1 <= bs
    ensures batches_of(num, bs) >= 0, made_of(num, bs) >= num, made_of(num, bs) < num + bs
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(num + bs - 1, bs);
    vstd::arithmetic::div_mod::lemma_mod_bound(num + bs - 1, bs);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(num + bs - 1, bs);
    assert(bs * batches_of(num, bs) == batches_of(num, bs) * bs) by (nonlinear_arith);
}
//@fn src/protocol/preproc.rs | - | num_batches
//@contract
    requires batch_size >= 1, num + batch_size <= usize::MAX
    ensures res == batches_of(num as int, batch_size as int)
//@end
