// Dealing rows of shares: party i gets the i-th share of each.
pub open spec fn for_party<const W: u8>(rows: Seq<Seq<GF<W>>>, i: int) -> Seq<GF<W>> { Seq::new(rows.len(), |j: int| rows[j][i]) }
pub open spec fn deals<const W: u8>(rows: Seq<Seq<GF<W>>>, id: Seq<u8>, n: int) -> Seq<Sent> { Seq::new(n as nat, |i: int| Sent { to: Recipient::One(i as u16), id, data: enc(for_party(rows, i)) }) }
spec fn vals<const W: u8>(v: Vec<GF<W>>) -> Seq<GF<W>> { v@ }
pub fn no_log() -> (r: Tracked<Log>) { Tracked(Log { sent: Seq::empty() }) }
