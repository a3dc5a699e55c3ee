// The report of the preprocessing benchmark (C31): src/bin/preproc.rs
use vstd::prelude::*;
// The macro of the json crate: names and values as written.
macro_rules! json_object {
    ($($t:tt)*) => { json_fields!(JsonValue::new_object(); $($t)*) };
}
macro_rules! json_fields {
    ($o:expr;) => { $o };
    ($o:expr; $k:ident : { $($i:tt)* }) => { $o.with(stringify!($k), json_object!{ $($i)* }) };
    ($o:expr; $k:ident : { $($i:tt)* }, $($r:tt)*) => { json_fields!($o.with(stringify!($k), json_object!{ $($i)* }); $($r)*) };
    ($o:expr; $k:ident : $v:expr) => { $o.with(stringify!($k), $v) };
    ($o:expr; $k:ident : $v:expr, $($r:tt)*) => { json_fields!($o.with(stringify!($k), $v); $($r)*) };
}
verus! {
//@item src/bin/preproc.rs | const W\b
//@include report_base.vrs
//@item src/bin/preproc.rs | struct PreProc\b
//@rewrite #\[argh\([^\]]*\)\] ==> <nothing> # how an option is read
#[verifier::external_body]
pub struct Matrix { x: u8 }
#[verifier::external_body]
pub fn binary_super_inv_matrix(p: &String) -> (r: Matrix) { unimplemented!() }
#[verifier::external_body]
pub fn super_inv_matrix(n: usize, r: usize) -> (m: Matrix) { unimplemented!() }
#[verifier::external_body]
pub struct RandContext { x: u8 }
#[verifier::external_body]
pub struct ZeroContext { x: u8 }
#[verifier::external_body]
pub struct RandBitContext { x: u8 }
impl Clone for RandContext { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for ZeroContext { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for RandBitContext { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl RandContext { #[verifier::external_body] pub fn new(m: Arc<Matrix>, c: &MPCContext) -> (r: Self) { unimplemented!() } }
impl ZeroContext { #[verifier::external_body] pub fn new(m: Arc<Matrix>, c: &MPCContext) -> (r: Self) { unimplemented!() } }
impl RandBitContext { #[verifier::external_body] pub fn new(m: Arc<Matrix>, c: &MPCContext) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub async fn preproc(id: ProtocolID, d: Numbers, c: MPCContext, r: RandContext, z: ZeroContext, b: RandBitContext, net: Network) { unimplemented!() }
pub open spec fn entries(v: J, reps: int) -> bool { v matches J::Arr(a) && a.len() == reps }
//@fn src/bin/preproc.rs | - | benchmark
//@ghost Tracked(w): Tracked<&mut World>
//@args \bprintln! ==> () # printed lines
//@rewrite std::io::stdout\(\)\.flush\(\)\.unwrap\(\); ==> {} # printed lines
//@rewrite \bpreproc::PreProc\b ==> Material # name
//@rewrite \b(?:network|garble|preproc|sharing|math|json)::(\w+)\b(?!!) ==> \1 # paths
//@rewrite b("[^"]*")\.to_vec\(\) ==> bytes(\1) # a byte string
//@rewrite \bPathBuf::from\(([\w.]+)\) ==> \1 # the path
//@rewrite ?(\w+)\.elapsed\(\)\.as_millis\(\)\.try_into\(\)\.unwrap\(\) ==> \1.millis() # a time
//@rewrite comm\s*\.into_it\(\)\s*\.map\(\|\((\w+), (\w+)\)\| json::array!\[\1, \2\]\)\s*\.collect::<Vec<_>>\(\) ==> Pairs { s: comm } # a list of pairs
//@rewrite json::object! (?=\{) ==> json_object! # the macro, as above
//@rewrite ?(\w+)\[("\w+")\] = ([^;]+?)(?:\.into\(\))?; ==> \1.put(\2, \3); # a named field
//@rewrite (\w+)\[("\w+")\]\s*\.push\( ==> \1.push_in(\2, # as above
//@rewrite (\w+)\.dump\(\)\.as_bytes\(\)\.to_vec\(\) ==> encoded(&\1) # the text of a value
//@rewrite String::from_utf8\((\w+)\)\.unwrap\(\) ==> text_of(\1) # bytes as text
//@rewrite \bparse\(&(\w+)\)\.unwrap\(\) ==> parse(&\1) # a value from its text
//@rewrite std::fs::write\((\w+), (\w+)\.dump\(\)\)\s*\.expect\("[^"]*"\) ==> write_file(\1, &\2, Tracked(&mut *w)) # writing the text of a value
//@rewrite (message_from_each_party\([^;]*?\)\s*\.await)\s*\.into_it\(\)\s*\.for_each\(\|(\w+)\| \{ ==> let __all = \1; for \2 in __all { # a loop
//@rewrite \}\);(\s*let save_path) ==> }\1 # as above
//@addarg \bnet\.send ==> Tracked(&mut *w)
//@contract
    requires
        0 < ipaddrs@.len() <= 65535, opts.id < ipaddrs@.len(), opts.packing_param > 0, opts.threshold + opts.packing_param <= 0xffff_ffff, opts.reps <= 0x1000_0000_0000, opts.threshold <= ipaddrs@.len(),
        forall|j: int| 0 <= j < ipaddrs@.len() ==> entries(#[trigger] parsed(sent_by(j)), opts.reps as int),
    ensures
        opts.save is None ==> same(*final(w), *old(w)),
        // what a party sends has an entry for every repetition
        opts.save is Some ==> final(w).sent.len() > old(w).sent.len() && ({ let m = final(w).sent[old(w).sent.len() as int];
            m.to == Recipient::One(0) && entries(parsed(m.data@), opts.reps as int) }),
        opts.save is Some && opts.id != 0 ==> final(w).files == old(w).files,
        // the file has the parameters and what every party sent
        opts.save is Some && opts.id == 0 ==> final(w).files.len() == old(w).files.len() + 1 && final(w).files.drop_last() == old(w).files
            && final(w).files.last().0 == opts.save->Some_0@ && complete(final(w).files.last().1, opts, ipaddrs@.len() as int),
//@entry
    let ghost (w0, o0, nn) = (*w, opts, ipaddrs@.len() as int);
    proof { names(); }
//@loop 0
    invariant bench_data@ is Arr, bench_data@->Arr_0.len() == __k0, opts == o0, n == nn, __s0@.len() == opts.reps, same(*w, w0),
//@loop 1
    invariant
        save_data@ is Obj, save_data@->Obj_0.dom().contains("benchmarks"@), save_data@->Obj_0["benchmarks"@] is Arr, states_all(save_data@, o0, nn),
        __s1@.len() == nn, forall|j: int| 0 <= j < nn ==> (#[trigger] __s1@[j])@ == sent_by(j), "details"@ != "benchmarks"@,
        save_data@->Obj_0["benchmarks"@]->Arr_0.len() == __k1, forall|j: int| 0 <= j < __k1 ==> #[trigger] save_data@->Obj_0["benchmarks"@]->Arr_0[j] == parsed(sent_by(j)),
//@preloop 1
    proof { names(); }
//@end
spec fn states_all(v: J, o: PreProc, n: int) -> bool {
    &&& v is Obj && v->Obj_0.dom().contains("details"@)
    &&& ({ let d = v->Obj_0["details"@];
        states(d, "n", J::Num(n)) && states(d, "t", J::Num(o.threshold as int)) && states(d, "l", J::Num(o.packing_param as int)) && states(d, "circ", J::Str(o.circ@))
        && states(d, "lpn_tau", J::Num(o.lpn_error_bias as int)) && states(d, "lpn_key_len", J::Num(o.lpn_key_len as int)) && states(d, "lpn_mssg_len", J::Num(o.lpn_mssg_len as int))
        && states(d, "reps", J::Num(o.reps as int)) && states(d, "threads", J::Num(o.threads as int)) })
}
spec fn complete(v: J, o: PreProc, n: int) -> bool {
    &&& states_all(v, o, n)
    &&& v->Obj_0.dom().contains("benchmarks"@) && v->Obj_0["benchmarks"@] is Arr
    &&& ({ let b = v->Obj_0["benchmarks"@]->Arr_0;
        b.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] b[j] == parsed(sent_by(j)) && entries(b[j], o.reps as int) })
}
}
