//! Scratch files, scripted randomness and a simulated set of parties.
use crate::oracle::*;
use ndarray::Array1;
use rand::Rng;
use scalable_mpc::circuit::Circuit;
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::{network, MPCContext};
use scalable_mpc::sharing::PackedSharing;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

static CNT: AtomicU64 = AtomicU64::new(0);

pub fn scratch_file(kind: &str, text: &str) -> PathBuf {
    let mut p = std::env::temp_dir();
    p.push(format!("vh-{}-{}-{kind}", std::process::id(), CNT.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&p, text).unwrap();
    p
}

/// Random source whose successive field elements are dictated by the caller. Each call of the
/// generator interface consumes one scripted word; the word encoding an element is found by asking
/// the sampler under verification itself, so nothing is assumed about how it maps words to elements.
pub struct ScriptRng {
    words: Vec<u32>,
    at: usize,
}

impl ScriptRng {
    pub fn field_elements<const W: u8>(v: &[u32]) -> Result<Self, String> {
        let mut words = vec![];
        for &x in v {
            words.push(Self::word::<W>(x).ok_or(format!("{}no single word samples element {x}", crate::ctx::UNDECIDED))?);
        }
        Ok(ScriptRng { words, at: 0 })
    }
    fn word<const W: u8>(x: u32) -> Option<u32> {
        let w = W as u32;
        let cands = [x << (32 - w), x, (x << (32 - w)) | x, x.reverse_bits(), x.swap_bytes()];
        let hits = |c: u32| {
            let mut r = ScriptRng { words: vec![c], at: 0 };
            u(GF::<W>::rand(&mut r)) == x && r.at == 1
        };
        cands.iter().cloned().find(|&c| hits(c))
    }
    pub fn used(&self) -> usize {
        self.at
    }
}

impl rand::RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        let r = self.words.get(self.at).cloned().unwrap_or(0);
        self.at += 1;
        r
    }
    fn next_u64(&mut self) -> u64 {
        let a = self.next_u32() as u64;
        (a << 32) | a
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let r = self.next_u32().to_le_bytes();
        for (i, d) in dest.iter_mut().enumerate() {
            *d = r[i % 4];
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Par {
    pub n: usize,
    pub t: usize,
    pub l: usize,
    pub key: usize,
    pub mssg: usize,
}

impl Par {
    pub fn new(n: usize, t: usize, l: usize) -> Par {
        Par { n, t, l, key: 2, mssg: 4 }
    }
    pub fn d(&self) -> usize {
        self.t + self.l - 1
    }
    pub fn defpos(&self) -> Vec<u32> {
        (self.n as u32..(self.n + self.l) as u32).collect()
    }
}

/// Parameter sets satisfying the protocol's requirements (products fit below n, packed transforms
/// fit below n); the first ones are tight.
pub fn param_sets() -> Vec<Par> {
    [(3, 1, 1), (5, 1, 2), (7, 2, 2), (7, 1, 3), (9, 2, 3), (4, 1, 1), (6, 1, 2), (8, 2, 2), (10, 3, 2), (16, 5, 3), (5, 2, 1)]
        .iter()
        .map(|&(n, t, l)| Par::new(n, t, l))
        .collect()
}

pub type Party<const W: u8> = (network::Stats, network::Network, MPCContext<W>);

pub fn contexts<const W: u8>(p: Par) -> Vec<MPCContext<W>> {
    GF::<W>::init().unwrap();
    let defpos = PackedSharing::<W>::default_pos(p.n as u32, p.l as u32);
    let pss = Arc::new(PackedSharing::new(p.d() as u32, p.n as u32, &defpos));
    let pss_n = Arc::new(PackedSharing::new(p.n as u32 - 1, p.n as u32, &defpos));
    (0..p.n)
        .map(|i| MPCContext {
            id: i as u16,
            n: p.n,
            t: p.t,
            l: p.l,
            lpn_tau: 2,
            lpn_key_len: p.key,
            lpn_mssg_len: p.mssg,
            pss: pss.clone(),
            pss_n: pss_n.clone(),
        })
        .collect()
}

pub async fn parties<const W: u8>(p: Par) -> Vec<Party<W>> {
    let ctx = contexts::<W>(p);
    network::setup_local_network(p.n as u16).await.into_iter().zip(ctx).map(|((s, net), c)| (s, net, c)).collect()
}

/// Column of shares for each party: input [item] -> shares (length n), output [party] -> vector.
pub fn by_party<const W: u8>(n: usize, shares: &[Vec<u32>]) -> Vec<Array1<GF<W>>> {
    (0..n).map(|i| Array1::from_vec(shares.iter().map(|s| g::<W>(s[i])).collect())).collect()
}

/// Opens item k of the per-party outputs.
pub fn column<const W: u8>(outs: &[Array1<GF<W>>], k: usize) -> Vec<u32> {
    outs.iter().map(|o| u(o[k])).collect()
}

#[derive(Clone, Debug)]
pub enum GT {
    Xor(u32, u32, u32),
    And(u32, u32, u32),
    Inv(u32, u32),
}

#[derive(Clone, Debug)]
pub struct TextCirc {
    pub wires: u32,
    pub inputs: Vec<u32>,
    pub outputs: Vec<u32>,
    pub gates: Vec<GT>,
}

impl TextCirc {
    pub fn text(&self) -> String {
        let mut s = format!("{} {}\n{}", self.gates.len(), self.wires, self.inputs.len());
        for i in &self.inputs {
            s += &format!(" {i}");
        }
        s += &format!("\n{}", self.outputs.len());
        for o in &self.outputs {
            s += &format!(" {o}");
        }
        s += "\n\n";
        for g in &self.gates {
            match g {
                GT::Xor(a, b, c) => s += &format!("2 1 {a} {b} {c} XOR\n"),
                GT::And(a, b, c) => s += &format!("2 1 {a} {b} {c} AND\n"),
                GT::Inv(a, c) => s += &format!("1 1 {a} {c} INV\n"),
            }
        }
        s
    }
    pub fn load(&self) -> Circuit {
        let p = scratch_file("circ", &self.text());
        let r = std::panic::catch_unwind(|| Circuit::from_bristol_fashion(&p));
        let _ = std::fs::remove_file(&p);
        match r {
            Ok(c) => c,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    /// Reference evaluation of all wires.
    pub fn values(&self, inputs: &[bool]) -> Vec<bool> {
        let mut w = vec![false; self.wires as usize];
        w[..inputs.len()].copy_from_slice(inputs);
        for g in &self.gates {
            match *g {
                GT::Xor(a, b, c) => w[c as usize] = w[a as usize] ^ w[b as usize],
                GT::And(a, b, c) => w[c as usize] = w[a as usize] & w[b as usize],
                GT::Inv(a, c) => w[c as usize] = !w[a as usize],
            }
        }
        w
    }
    pub fn num_inputs(&self) -> u32 {
        self.inputs.iter().sum()
    }
    /// Random topologically ordered circuit.
    pub fn random<R: Rng>(rng: &mut R, max_inp: u32, max_gates: u32, kinds: &[u8]) -> TextCirc {
        let ni = rng.gen_range(1..=3u32);
        let inputs: Vec<u32> = (0..ni).map(|_| rng.gen_range(1..=max_inp)).collect();
        let total: u32 = inputs.iter().sum();
        let ng = rng.gen_range(1..=max_gates);
        let wires = total + ng;
        let mut gates = vec![];
        for k in 0..ng {
            let out = total + k;
            // Favour re-use of few wires so that fan-out and repeated inputs occur.
            let pick = |rng: &mut R| if rng.gen_bool(0.4) { rng.gen_range(0..out.min(3)) } else { rng.gen_range(0..out) };
            let (a, b) = (pick(rng), pick(rng));
            gates.push(match kinds[rng.gen_range(0..kinds.len())] {
                0 => GT::And(a, b, out),
                1 => GT::Xor(a, b, out),
                _ => GT::Inv(a, out),
            });
        }
        let no = rng.gen_range(1..=3u32.min(ng));
        let mut outputs = vec![1u32; no as usize];
        let mut left = ng - no;
        for o in outputs.iter_mut() {
            let x = rng.gen_range(0..=left);
            *o += x;
            left -= x;
        }
        TextCirc { wires, inputs, outputs, gates }
    }
}
