// The report of a benchmark run: JSON values, files, and the rest of the crate as far as a benchmark sees it.
global size_of usize == 8;
//@std for
//@include std_vec.vrs
//@include iter.vrs
//@include net_types.vrs
//@note The json crate: values are built as written, and parsing a value's text gives the value back. std::fs::write writes the text to the file; argh's parsed options are the command line.
//@note Every party runs the same program with the same number of repetitions, so what it sends at the end is what is proved here for the sender; message_from_each_party (unit gather) hands these out, in order of the parties.
//@note The protocols that are measured, contexts, clocks and printed lines do not touch the report or files.
use std::sync::Arc;

pub enum J { Num(int), Str(Seq<char>), Arr(Seq<J>), Obj(Map<Seq<char>, J>) }
pub uninterp spec fn parsed(text: Seq<u8>) -> J;
pub uninterp spec fn ascii(text: Seq<char>) -> Seq<u8>;
// What party j sent to party 0 at the end.
pub uninterp spec fn sent_by(j: int) -> Seq<u8>;
pub tracked struct World { pub ghost sent: Seq<SendMessage>, pub ghost files: Seq<(Seq<char>, J)> }
pub open spec fn same(a: World, b: World) -> bool { a.sent == b.sent && a.files == b.files }

#[verifier::external_body]
pub struct JsonValue { x: u8 }
impl View for JsonValue { type V = J; uninterp spec fn view(&self) -> J; }
pub trait ToJ { spec fn to_j(&self) -> J; }
impl ToJ for u32 { open spec fn to_j(&self) -> J { J::Num(*self as int) } }
impl ToJ for u64 { open spec fn to_j(&self) -> J { J::Num(*self as int) } }
impl ToJ for u16 { open spec fn to_j(&self) -> J { J::Num(*self as int) } }
impl ToJ for usize { open spec fn to_j(&self) -> J { J::Num(*self as int) } }
impl ToJ for String { open spec fn to_j(&self) -> J { J::Str(self@) } }
impl ToJ for JsonValue { open spec fn to_j(&self) -> J { self@ } }
// Traffic per party: pairs of numbers.
impl ToJ for Pairs { open spec fn to_j(&self) -> J { J::Arr(self.s@.map_values(|p: (u64, u64)| J::Arr(seq![J::Num(p.0 as int), J::Num(p.1 as int)]))) } }
pub struct Pairs { pub s: Vec<(u64, u64)> }
impl JsonValue {
    #[verifier::external_body]
    pub fn new_array() -> (r: Self) ensures r@ == J::Arr(Seq::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_object() -> (r: Self) ensures r@ == J::Obj(Map::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, v: JsonValue) -> (r: Result<(), ()>)
        requires old(self)@ is Arr
        ensures r.is_ok(), final(self)@ == J::Arr(old(self)@->Arr_0.push(v@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_in(&mut self, key: &str, v: JsonValue) -> (r: Result<(), ()>)
        requires old(self)@ is Obj, old(self)@->Obj_0.dom().contains(key@), old(self)@->Obj_0[key@] is Arr
        ensures r.is_ok(), final(self)@ == J::Obj(old(self)@->Obj_0.insert(key@, J::Arr(old(self)@->Obj_0[key@]->Arr_0.push(v@))))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put<T: ToJ>(&mut self, key: &str, v: T)
        requires old(self)@ is Obj
        ensures final(self)@ == J::Obj(old(self)@->Obj_0.insert(key@, v.to_j()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with<T: ToJ>(self, key: &str, v: T) -> (r: Self)
        requires self@ is Obj
        ensures r@ == J::Obj(self@->Obj_0.insert(key@, v.to_j()))
    { unimplemented!() }
}
#[verifier::external_body]
pub fn encoded(v: &JsonValue) -> (r: Vec<u8>) ensures parsed(r@) == v@ { unimplemented!() }
#[verifier::external_body]
pub struct Text { x: u8 }
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
// Only what a party sent is text for sure.
#[verifier::external_body]
pub fn text_of(b: Vec<u8>) -> (r: Text) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn parse(b: &Text) -> (r: JsonValue) ensures r@ == parsed(b@) { unimplemented!() }
#[verifier::external_body]
pub fn bytes(t: &str) -> (r: Vec<u8>) ensures r@ == ascii(t@) { unimplemented!() }

#[verifier::external_body]
pub fn write_file(path: String, v: &JsonValue, Tracked(w): Tracked<&mut World>)
    ensures final(w).sent == old(w).sent, final(w).files == old(w).files.push((path@, v@))
{ unimplemented!() }

#[verifier::external_body]
pub struct Network { x: u8 }
impl Clone for Network { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Network {
    #[verifier::external_body]
    pub fn send(&self, m: SendMessage, Tracked(w): Tracked<&mut World>) ensures final(w).sent == old(w).sent.push(m), final(w).files == old(w).files { unimplemented!() }
    #[verifier::external_body]
    pub async fn recv(&self, id: ProtocolID) -> (r: ReceivedMessage) { unimplemented!() }
}
#[verifier::external_body]
pub async fn message_from_each_party(id: ProtocolID, net: &Network, n: usize) -> (r: Vec<Vec<u8>>)
    ensures r@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] r@[j])@ == sent_by(j)
{ unimplemented!() }
#[verifier::external_body]
pub async fn sync(id: ProtocolID, net: &Network, n: usize) { unimplemented!() }
#[verifier::external_body]
pub async fn setup_tcp_network(me: PartyID, addresses: &Vec<String>) -> (r: (Stats, Network)) { unimplemented!() }

#[verifier::external_body]
pub struct Stats { x: u8 }
#[verifier::external_body]
pub struct Snapshot { x: u8 }
impl Stats { #[verifier::external_body] pub async fn now(s: &Stats, n: u32) -> (r: Snapshot) { unimplemented!() } }
impl Snapshot { #[verifier::external_body] pub async fn elapsed(&self, s: &Stats) -> (r: (u64, Vec<(u64, u64)>)) { unimplemented!() } }
#[verifier::external_body]
pub struct Instant { x: u8 }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn millis(&self) -> u64 { unimplemented!() }
}
#[verifier::external_body]
pub struct GF<const W: u8> { x: u8 }
impl<const W: u8> GF<W> { #[verifier::external_body] pub fn init() -> (r: Result<(), ()>) ensures r.is_ok() { unimplemented!() } }
#[verifier::external_body]
pub struct PackedSharing { x: u8 }
impl PackedSharing {
    #[verifier::external_body] pub fn default_pos(n: u32, l: u32) -> (r: Vec<GF<W>>) { unimplemented!() }
    #[verifier::external_body] pub fn new(d: u32, n: u32, pos: &Vec<GF<W>>) -> (r: PackedSharing) { unimplemented!() }
}
pub struct MPCContext { pub id: PartyID, pub n: usize, pub t: usize, pub l: usize, pub lpn_tau: usize, pub lpn_key_len: usize, pub lpn_mssg_len: usize, pub pss: Arc<PackedSharing>, pub pss_n: Arc<PackedSharing> }
impl Clone for MPCContext { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct PackedCircuit { x: u8 }
#[derive(Clone, Copy)]
pub struct Numbers { pub x: u8 }
#[verifier::external_body]
pub struct Material { x: u8 }
impl Material {
    #[verifier::external_body] pub fn describe(c: &PackedCircuit, m: &MPCContext) -> (r: Numbers) { unimplemented!() }
    #[verifier::external_body] pub fn dummy(seed: u64, d: Numbers, m: &MPCContext) -> (r: Material) { unimplemented!() }
}

// The parameters of a run, as the report states them.
pub open spec fn states(d: J, key: &str, v: J) -> bool { d is Obj && d->Obj_0.dom().contains(key@) && d->Obj_0[key@] == v }
pub proof fn names()
    ensures
        "n"@ != "t"@, "n"@ != "l"@, "t"@ != "l"@, "n"@.len() == 1, "t"@.len() == 1, "l"@.len() == 1, "circ"@.len() == 4, "reps"@.len() == 4, "circ"@ != "reps"@,
        "lpn_tau"@.len() == 7, "threads"@.len() == 7, "lpn_tau"@ != "threads"@, "lpn_key_len"@.len() == 11, "lpn_mssg_len"@.len() == 12,
        "details"@.len() == 7, "benchmarks"@.len() == 10,
{
    reveal_strlit("n"); reveal_strlit("t"); reveal_strlit("l"); reveal_strlit("circ"); reveal_strlit("reps"); reveal_strlit("lpn_tau"); reveal_strlit("threads");
    reveal_strlit("lpn_key_len"); reveal_strlit("lpn_mssg_len"); reveal_strlit("details"); reveal_strlit("benchmarks");
    assert("n"@[0] != "t"@[0]); assert("n"@[0] != "l"@[0]); assert("t"@[0] != "l"@[0]); assert("circ"@[0] != "reps"@[0]); assert("lpn_tau"@[0] != "threads"@[0]);
}
