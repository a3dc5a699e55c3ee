// The default leader is a function of the identifier and the number of parties.
pub uninterp spec fn hash_of(id: Seq<u8>) -> u64;
#[verifier::external_body]
fn hash(id: &Vec<u8>) -> (r: u64) ensures r == hash_of(id@) { unimplemented!() }
pub open spec fn leader_of(id: Seq<u8>, n: int) -> u16 { (hash_of(id) as int % n) as u16 }
//@fn src/protocol/core.rs | - | leader_from_proto_id
//@contract
    requires 1 <= num_parties <= u16::MAX
    ensures res == leader_of(id@, num_parties as int), res < num_parties
//@end
pub open spec fn led(leader: Option<u16>, id: Seq<u8>, n: int) -> u16 { match leader { Some(p) => p, None => leader_of(id, n) } }
