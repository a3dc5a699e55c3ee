use crate::ctx::Ctx;
use crate::ens;
use crate::sim::*;
use rand::seq::SliceRandom;
use rand::Rng;
use scalable_mpc::circuit::{Circuit, Gate, PackedGate};

fn gate_tuple(g: &Gate) -> (u8, Vec<u32>, u32) {
    match g {
        Gate::And(i) => (0, i.inp.to_vec(), i.out),
        Gate::Xor(i) => (1, i.inp.to_vec(), i.out),
        Gate::Inv(i) => (2, i.inp.to_vec(), i.out),
    }
}

fn text_tuple(g: &GT) -> (u8, Vec<u32>, u32) {
    match *g {
        GT::And(a, b, c) => (0, vec![a, b], c),
        GT::Xor(a, b, c) => (1, vec![a, b], c),
        GT::Inv(a, c) => (2, vec![a], c),
    }
}

fn out_wires(t: &TextCirc) -> Vec<Vec<u32>> {
    let total: u32 = t.outputs.iter().sum();
    let mut at = t.wires - total;
    t.outputs.iter().map(|&o| { let r = (at..at + o).collect(); at += o; r }).collect()
}

fn in_wires(t: &TextCirc) -> Vec<Vec<u32>> {
    let mut at = 0;
    t.inputs.iter().map(|&o| { let r = (at..at + o).collect(); at += o; r }).collect()
}

fn check_load(t: &TextCirc, c: &Circuit) -> Result<(), String> {
    ens!(c.num_wires() == t.wires, "number of wires {}", c.num_wires());
    ens!(c.inputs() == in_wires(t), "input wires {:?} for header {:?}", c.inputs(), t.inputs);
    ens!(c.outputs() == out_wires(t), "output groups {:?} but header {:?} over {} wires means {:?}", c.outputs(), t.outputs, t.wires, out_wires(t));
    let got: Vec<_> = c.gates().iter().map(gate_tuple).collect();
    let exp: Vec<_> = t.gates.iter().map(text_tuple).collect();
    ens!(got == exp, "gates differ: {got:?} vs {exp:?}");
    Ok(())
}

pub fn load(c: &mut Ctx) {
    for k in 0..120 {
        c.case(format!("random/{k}"), if k % 2 == 0 { "canonical-text" } else { "loose-whitespace" }, |rng| {
            let t = TextCirc::random(rng, 6, 25, &[0, 1, 2]);
            let mut text = t.text();
            if k % 2 == 1 {
                // Spacing is free within a line, the blank separator may contain spaces and the
                // final newline may be missing.
                text = text.replace(' ', if k % 4 == 1 { "  " } else { "\t" });
                text = text.trim_end_matches('\n').to_string();
                if k % 3 == 0 {
                    text = text.replace('\n', "\r\n");
                }
            }
            let p = scratch_file("circ", &text);
            let r = std::panic::catch_unwind(|| Circuit::from_bristol_fashion(&p));
            let _ = std::fs::remove_file(&p);
            let circ = r.map_err(|_| format!("loading panicked on:\n{text}"))?;
            check_load(&t, &circ)
        });
    }
    // The gate order of the file matters even if wire numbers are not increasing.
    for k in 0..20 {
        c.case(format!("shuffled/{k}"), "shuffled-wires", |rng| {
            let mut t = TextCirc::random(rng, 4, 20, &[0, 1, 2]);
            let total = t.num_inputs();
            let mut perm: Vec<u32> = (total..t.wires).collect();
            perm.shuffle(rng);
            let m = |w: u32| if w < total { w } else { perm[(w - total) as usize] };
            for g in t.gates.iter_mut() {
                *g = match *g {
                    GT::And(a, b, c) => GT::And(m(a), m(b), m(c)),
                    GT::Xor(a, b, c) => GT::Xor(m(a), m(b), m(c)),
                    GT::Inv(a, c) => GT::Inv(m(a), m(c)),
                };
            }
            check_load(&t, &t.load())
        });
    }
    c.case("reject/gate".into(), "reject", |_| {
        for bad in ["1 3\n1 2\n1 1\n\n2 1 0 1 2 NAND\n", "1 3\n1 2\n1 1\n\n2 1 0 1 2 EQ\n", "2 3\n1 2\n1 1\n\n2 1 0 1 2 XOR\n"] {
            let p = scratch_file("circ", bad);
            let r = std::panic::catch_unwind(|| Circuit::from_bristol_fashion(&p));
            let _ = std::fs::remove_file(&p);
            ens!(r.is_err(), "malformed file accepted: {bad:?}");
        }
        Ok(())
    });
    c.case("bundled".into(), "bundled", |_| {
        let p = std::path::Path::new("/repo/tests/data/sub64.txt");
        if let Ok(txt) = std::fs::read_to_string(p) {
            let circ = Circuit::from_bristol_fashion(p);
            let lines: Vec<&str> = txt.lines().skip(4).filter(|l| !l.trim().is_empty()).collect();
            ens!(circ.gates().len() == lines.len(), "gate count");
            for (g, l) in circ.gates().iter().zip(lines) {
                let (k, inp, out) = gate_tuple(g);
                let mut v: Vec<String> = vec![inp.len().to_string(), "1".into()];
                v.extend(inp.iter().map(|x| x.to_string()));
                v.push(out.to_string());
                v.push(["AND", "XOR", "INV"][k as usize].into());
                ens!(v == l.split_whitespace().collect::<Vec<_>>(), "gate line {l:?} loads as {v:?}");
            }
        }
        Ok(())
    });
}

fn split(t: &TextCirc, bits: &[bool]) -> Vec<Vec<bool>> {
    in_wires(t).iter().map(|g| g.iter().map(|&w| bits[w as usize]).collect()).collect()
}

pub fn eval(c: &mut Ctx) {
    // Truth tables of single gates, including both inputs tied together.
    for (k, gt) in [GT::And(0, 1, 2), GT::Xor(0, 1, 2), GT::And(1, 0, 2), GT::Xor(1, 0, 2), GT::Inv(0, 2), GT::Inv(1, 2), GT::And(0, 0, 2), GT::Xor(1, 1, 2)].into_iter().enumerate() {
        c.case(format!("gate/{k}"), "truth-table", |_| {
            let t = TextCirc { wires: 3, inputs: vec![1, 1], outputs: vec![1], gates: vec![gt.clone()] };
            let circ = t.load();
            for m in 0..4u32 {
                let bits = [m & 1 == 1, m & 2 == 2];
                let exp = t.values(&bits)[2];
                ens!(circ.eval(&split(&t, &bits)) == vec![vec![exp]], "{gt:?} on {bits:?}");
            }
            Ok(())
        });
    }
    for k in 0..80 {
        c.case(format!("random/{k}"), &format!("mix{}", k % 4), |rng| {
            let kinds: &[u8] = [&[0u8, 1, 2][..], &[0, 2], &[1, 2], &[0, 1, 1, 2]][k % 4];
            let t = TextCirc::random(rng, 4, 40, kinds);
            let circ = t.load();
            let n = t.num_inputs();
            let all = n <= 8;
            for r in 0..(if all { 1u32 << n } else { 64 }) {
                let bits: Vec<bool> = (0..n).map(|i| if all { r >> i & 1 == 1 } else { rng.gen() }).collect();
                let w = t.values(&bits);
                let exp: Vec<Vec<bool>> = circ.outputs().iter().map(|g| g.iter().map(|&x| w[x as usize]).collect()).collect();
                let got = circ.eval(&split(&t, &bits));
                ens!(got == exp, "circuit {t:?} on {bits:?}: {got:?}, expected {exp:?}");
            }
            Ok(())
        });
    }
    // Evaluation does not depend on packing having happened elsewhere, and repeated runs agree.
    c.case("adder".into(), "arithmetic", |rng| {
        let p = std::path::Path::new("/repo/tests/data/sub64.txt");
        if p.exists() {
            let circ = Circuit::from_bristol_fashion(p);
            for _ in 0..40 {
                let (a, b): (u64, u64) = (rng.gen(), rng.gen());
                let bits = |v: u64| (0..64).map(|i| v >> i & 1 == 1).collect::<Vec<bool>>();
                let out = circ.eval(&[bits(a), bits(b)]);
                ens!(out.len() == 1 && out[0] == bits(a.wrapping_sub(b)), "{a} - {b}");
            }
        }
        Ok(())
    });
}

pub fn pack(c: &mut Ctx) {
    for k in 0..150 {
        c.case(format!("random/{k}"), &format!("kinds{}", k % 5), |rng| {
            let kinds: &[u8] = [&[0u8, 1, 2][..], &[0], &[1], &[2], &[0, 1, 1, 2]][k % 5];
            let t = TextCirc::random(rng, 9, 40, kinds);
            let circ = t.load();
            let inputs: Vec<u32> = circ.inputs().iter().flatten().cloned().collect();
            let outputs: Vec<u32> = circ.outputs().iter().flatten().cloned().collect();
            let l = rng.gen_range(1..=9u32);
            let pc = circ.pack(l);
            ens!(pc.gates_per_block() == l && pc.num_wires() == t.wires, "declared block size {} wires {}", pc.gates_per_block(), pc.num_wires());
            let blocks = |v: &[u32]| v.chunks(l as usize).map(|x| x.to_vec()).collect::<Vec<_>>();
            ens!(pc.inputs() == blocks(&inputs), "input blocks {:?}", pc.inputs());
            ens!(pc.outputs() == blocks(&outputs), "output blocks {:?}", pc.outputs());
            let mut got: Vec<(u8, Vec<u32>, u32)> = vec![];
            let mut kinds_seen = vec![];
            let mut sizes: Vec<Vec<usize>> = vec![vec![]; 3];
            for b in pc.gates() {
                let (kind, inp, out): (u8, Vec<Vec<u32>>, Vec<u32>) = match b {
                    PackedGate::And(i) => (0, i.inp.to_vec(), i.out.clone()),
                    PackedGate::Xor(i) => (1, i.inp.to_vec(), i.out.clone()),
                    PackedGate::Inv(i) => (2, i.inp.to_vec(), i.out.clone()),
                };
                ens!(!out.is_empty() && out.len() <= l as usize, "block of {} gates with block size {l}", out.len());
                ens!(inp.iter().all(|v| v.len() == out.len()), "block with misaligned inputs");
                for s in 0..out.len() {
                    got.push((kind, inp.iter().map(|v| v[s]).collect(), out[s]));
                }
                if kinds_seen.last() != Some(&kind) {
                    kinds_seen.push(kind);
                }
                sizes[kind as usize].push(out.len());
            }
            for (kind, s) in sizes.iter().enumerate() {
                let total: usize = s.iter().sum();
                ens!(s.len() == (total + l as usize - 1) / l as usize, "kind {kind}: {total} gates use {} blocks of {l}", s.len());
            }
            ens!(pc.get_gate_counts() == (sizes[0].len(), sizes[1].len(), sizes[2].len()), "reported block counts {:?}, actual {} {} {}", pc.get_gate_counts(), sizes[0].len(), sizes[1].len(), sizes[2].len());
            got.sort();
            let mut exp: Vec<_> = t.gates.iter().map(text_tuple).collect();
            exp.sort();
            ens!(got == exp, "packing into blocks of {l} changes the gates of {t:?}: {got:?}");
            // All parties must obtain the same packing from the same file.
            let pc2 = t.load().pack(l);
            let outs = |p: &scalable_mpc::circuit::PackedCircuit| p.gates().iter().map(|b| match b {
                PackedGate::And(i) => (0, i.inp.to_vec(), i.out.clone()),
                PackedGate::Xor(i) => (1, i.inp.to_vec(), i.out.clone()),
                PackedGate::Inv(i) => (2, i.inp.to_vec(), i.out.clone()),
            }).collect::<Vec<_>>();
            ens!(outs(&pc) == outs(&pc2), "packing the same circuit twice gives different blocks");
            Ok(())
        });
    }
}
