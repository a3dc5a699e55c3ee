// core::mult as proved in unit reduce (C20): its result as a function of what it is given and what arrives.
//@note mult (unit reduce, C20) returns as many elements as factors, determined by the products of the factors, the random and zero shares and what arrives; that what arrives is well-formed is assumed.
pub uninterp spec fn mult_of<const W: u8>(net: Network, id: Seq<u8>, leader: Option<u16>, xy: Seq<GF<W>>, r: Seq<GF<W>>, z: Seq<GF<W>>) -> Seq<GF<W>>;
pub mod core_mod {
    use super::*;
    #[verifier::external_body]
    pub async fn mult<const W: u8>(id: ProtocolID, vx: Array1<GF<W>>, vy: Array1<GF<W>>, random: Array1<GF<W>>, zero: Array1<GF<W>>, leader: Option<PartyID>, context: MPCContext<W>, net: Network) -> (r: Array1<GF<W>>)
        requires context.ok(), vy@.len() == vx@.len(), random@.len() == vx@.len(), zero@.len() == vx@.len(), leader matches Some(p) ==> p < context.n
        ensures r@ == mult_of(net, id@, leader, pmul(vx@, vy@), random@, zero@), r@.len() == vx@.len()
    { unimplemented!() }
}
proof fn swaps<const W: u8>()
    ensures forall|x: Seq<GF<W>>, y: Seq<GF<W>>| x.len() == y.len() ==> #[trigger] pmul(x, y) == pmul(y, x)
{
    assert forall|x: Seq<GF<W>>, y: Seq<GF<W>>| x.len() == y.len() implies #[trigger] pmul(x, y) == pmul(y, x) by {
        algebra::<W>();
        assert(pmul(x, y) =~= pmul(y, x));
    }
}
