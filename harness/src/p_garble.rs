use crate::ctx::{run_async, Ctx};
use crate::ens;
use crate::oracle::*;
use crate::sim::*;
use ndarray::{Array1, Array3};
use rand::rngs::StdRng;
use rand::Rng;
use scalable_mpc::circuit::{PackedCircuit, PackedGate};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::garble::{garble, GarbleContext};
use scalable_mpc::protocol::preproc::{PreProc, PreProcCount};
use std::collections::HashMap;
use std::sync::Arc;

const W: u8 = 18;

#[derive(Clone)]
struct WireVal {
    key: [Vec<u32>; 2],
    mask: u32,
}

/// Kind (0 and, 1 xor, 2 inv), input wire blocks, output wires.
fn gate_parts(g: &PackedGate) -> (u8, Vec<Vec<u32>>, Vec<u32>) {
    match g {
        PackedGate::And(i) => (0, i.inp.to_vec(), i.out.clone()),
        PackedGate::Xor(i) => (1, i.inp.to_vec(), i.out.clone()),
        PackedGate::Inv(i) => (2, i.inp.to_vec(), i.out.clone()),
    }
}

fn blocks(circ: &PackedCircuit) -> Vec<Vec<u32>> {
    circ.inputs().iter().cloned().chain(circ.gates().iter().map(|g| gate_parts(g).2)).collect()
}

/// Correct preprocessing material for given wire keys and masks; every error element has the given
/// packed value.
fn material(p: Par, circ: &PackedCircuit, d: PreProcCount, wires: &[WireVal], err: &[u32], rng: &mut StdRng) -> Vec<PreProc<W>> {
    let f = field::<W>();
    let dp = p.defpos();
    let deg = p.d();
    let pack = |v: Vec<u32>, rng: &mut StdRng| {
        let fixed: Vec<(u32, u32)> = dp.iter().cloned().zip(v).collect();
        f.share(deg, p.n, &fixed, rng)
    };
    let bl = blocks(circ);
    let mut masks = vec![];
    for b in &bl {
        masks.push(pack(b.iter().map(|&w| wires[w as usize].mask).collect(), rng));
    }
    let mut keys = vec![];
    for v in 0..2 {
        for i in 0..p.key {
            for b in &bl {
                keys.push(pack(b.iter().map(|&w| wires[w as usize].key[v][i]).collect(), rng));
            }
        }
    }
    let randoms: Vec<Vec<u32>> = (0..d.randoms).map(|_| f.share(deg, p.n, &[], rng)).collect();
    let zeros: Vec<Vec<u32>> = (0..d.zeros).map(|_| f.share(p.n - 1, p.n, &dp.iter().map(|&x| (x, 0)).collect::<Vec<_>>(), rng)).collect();
    let errors: Vec<Vec<u32>> = (0..d.errors).map(|_| pack(err.to_vec(), rng)).collect();
    let (m, k, r, z, e) = (by_party::<W>(p.n, &masks), by_party::<W>(p.n, &keys), by_party::<W>(p.n, &randoms), by_party::<W>(p.n, &zeros), by_party::<W>(p.n, &errors));
    (0..p.n)
        .map(|i| PreProc {
            masks: m[i].clone(),
            keys: Array3::from_shape_vec((2, p.key, bl.len()), k[i].to_vec()).unwrap(),
            randoms: r[i].to_vec().into(),
            zeros: z[i].to_vec().into(),
            errors: e[i].to_vec().into(),
        })
        .collect()
}

/// Runs the garbling protocol for all parties and opens the tables: [gate][row][entry][slot].
fn run(p: Par, circ: &PackedCircuit, mat: Vec<PreProc<W>>, limit: u64) -> Result<Vec<Vec<Vec<Vec<u32>>>>, String> {
    let circ = circ.clone();
    let tables = run_async(limit, async move {
        let ps = parties::<W>(p).await;
        let mut hs = vec![];
        for ((_, net, ctx), pre) in ps.into_iter().zip(mat) {
            let gc = Arc::new(GarbleContext::new(circ.clone(), ctx));
            hs.push(tokio::spawn(garble(b"g".to_vec(), pre, gc, net)));
        }
        let mut out = vec![];
        for h in hs {
            out.push(h.await.map_err(|e| format!("panic: {e}: {}", crate::ctx::LAST_PANIC.lock().unwrap()))?.gates);
        }
        Ok(out)
    })?;
    let f = field::<W>();
    let dp = p.defpos();
    let ng = tables[0].len();
    ens!(tables.iter().all(|t| t.len() == ng), "parties output different numbers of gates");
    let mut res = vec![];
    for gi in 0..ng {
        let (rows, cols) = tables[0][gi].dim();
        let mut tr = vec![];
        for r in 0..rows {
            let mut te = vec![];
            for c in 0..cols {
                let sh: Vec<u32> = tables.iter().map(|t| u(t[gi][[r, c]])).collect();
                te.push(f.open(p.n - 1, &sh, &dp).unwrap());
            }
            tr.push(te);
        }
        res.push(tr);
    }
    Ok(res)
}

fn rand_wires(p: Par, n: u32, rng: &mut StdRng) -> Vec<WireVal> {
    let f = field::<W>();
    (0..n)
        .map(|_| WireVal { key: [(0..p.key).map(|_| f.rnd(rng)).collect(), (0..p.key).map(|_| f.rnd(rng)).collect()], mask: rng.gen_range(0..2) })
        .collect()
}

fn tables_case(p: Par, t: &TextCirc, rng: &mut StdRng) -> Result<(), String> {
    let f = field::<W>();
    let circ = t.load().pack(p.l as u32);
    let ctx = contexts::<W>(p);
    let d = PreProc::describe(&circ, &ctx[0]);
    let cols = 2 * p.key + 1;
    let runs = cols + 3;
    let mut wires = vec![];
    let mut errs = vec![];
    let mut tabs = vec![];
    for _ in 0..runs {
        let w = rand_wires(p, t.wires, rng);
        let e: Vec<u32> = (0..p.l).map(|_| f.rnd(rng)).collect();
        let mat = material(p, &circ, d, &w, &e, rng);
        tabs.push(run(p, &circ, mat, 60)?);
        wires.push(w);
        errs.push(e);
    }
    let mut enc: Option<Vec<Vec<u32>>> = None;
    for (gi, gate) in circ.gates().iter().enumerate() {
        let (kind, inp, out) = gate_parts(gate);
        let nrows = if kind == 2 { 2 } else { 4 };
        for tab in &tabs {
            ens!(tab.len() == circ.gates().len(), "number of garbled gates");
            ens!(tab[gi].len() == nrows && tab[gi][0].len() == p.mssg, "table of gate {gi} has {} rows of {}", tab[gi].len(), tab[gi][0].len());
        }
        for row in 0..nrows {
            for s in 0..out.len() {
                // One equation per execution: entry - error = M * (input keys) + E * (output key, bit).
                let mut x = vec![];
                let mut xy = vec![];
                for r in 0..runs {
                    let w = &wires[r];
                    let (key, chi): (Vec<u32>, u32) = if kind == 2 {
                        let a = &w[inp[0][s] as usize];
                        (a.key[row].clone(), (row as u32 ^ a.mask ^ 1) ^ w[out[s] as usize].mask)
                    } else {
                        let (i, j) = (row / 2, row % 2);
                        let a = &w[inp[0][s] as usize];
                        let b = &w[inp[1][s] as usize];
                        let (va, vb) = (i as u32 ^ a.mask, j as u32 ^ b.mask);
                        let v = if kind == 0 { va & vb } else { va ^ vb };
                        (a.key[i].iter().zip(&b.key[j]).map(|(x, y)| x ^ y).collect(), v ^ w[out[s] as usize].mask)
                    };
                    let mut line = key;
                    line.extend(&w[out[s] as usize].key[chi as usize]);
                    line.push(chi);
                    x.push(line.clone());
                    line.extend((0..p.mssg).map(|m| tabs[r][gi][row][m][s] ^ errs[r][s]));
                    xy.push(line);
                }
                let rk = f.rank(x.clone());
                ens!(
                    f.rank(xy.clone()) == rk,
                    "{p:?} gate {gi} ({} on {inp:?} -> {out:?}) slot {s} row {row}: over {runs} executions no public matrices make the row decrypt to the output key and masked output value",
                    ["AND", "XOR", "INV"][kind as usize]
                );
                if rk == cols {
                    let e: Vec<Vec<u32>> = solve(&f, &xy, cols).into_iter().skip(p.key).collect();
                    match &enc {
                        None => {
                            ens!(f.rank(e.clone()) == p.key + 1, "the plaintext encoding cannot be decoded");
                            enc = Some(e);
                        }
                        Some(x) => ens!(*x == e, "gate {gi} slot {s} row {row} uses a different plaintext encoding"),
                    }
                }
            }
        }
    }
    Ok(())
}

/// Solution of the full-column-rank consistent system [X|Y]: cols x (columns of Y).
fn solve(f: &Field, xy: &[Vec<u32>], cols: usize) -> Vec<Vec<u32>> {
    let mut m: Vec<Vec<u32>> = xy.to_vec();
    let width = m[0].len();
    for c in 0..cols {
        let p = (c..m.len()).find(|&i| m[i][c] != 0).unwrap();
        m.swap(c, p);
        let iv = f.inv(m[c][c]);
        for j in 0..width {
            m[c][j] = f.mul(m[c][j], iv);
        }
        for i in 0..m.len() {
            if i != c && m[i][c] != 0 {
                let q = m[i][c];
                for j in 0..width {
                    let v = f.mul(q, m[c][j]);
                    m[i][j] ^= v;
                }
            }
        }
    }
    m[..cols].iter().map(|r| r[cols..].to_vec()).collect()
}

fn garble_params() -> Vec<Par> {
    let mut v = vec![];
    for (n, t, l) in [(5, 1, 2), (3, 1, 1), (7, 2, 2), (7, 1, 3), (6, 1, 2), (9, 2, 3)] {
        let mut p = Par::new(n, t, l);
        p.key = 1 + v.len() % 2;
        p.mssg = p.key + 2 + v.len() % 3;
        v.push(p);
    }
    v
}

pub fn tables(c: &mut Ctx) {
    let ps = garble_params();
    // One gate of each kind alone, then with the same wire on both inputs.
    for (k, gates) in [vec![GT::And(0, 1, 3)], vec![GT::Xor(1, 2, 3)], vec![GT::Inv(2, 3)], vec![GT::And(1, 1, 3)], vec![GT::Xor(2, 2, 3)]].into_iter().enumerate() {
        let t = TextCirc { wires: 4, inputs: vec![2, 1], outputs: vec![1], gates };
        for p in [ps[0], ps[1]] {
            c.case(format!("single/{k}/n{}", p.n), "single-gate", |rng| tables_case(p, &t, rng));
        }
    }
    for k in 0..(if c.thorough { 80 } else { 26 }) {
        let p = ps[k % ps.len()];
        let kinds: &[u8] = [&[0u8, 1, 2][..], &[0], &[1], &[2], &[0, 2], &[0, 1, 2]][k % 6];
        c.case(format!("random/{k}/n{}l{}", p.n, p.l), "random-circuit", |rng| {
            let t = TextCirc::random(rng, 3, if c_small(p) { 9 } else { 5 }, kinds);
            tables_case(p, &t, rng)
        });
    }
}

fn c_small(p: Par) -> bool {
    p.n <= 6
}

pub fn counts(c: &mut Ctx) {
    let ps = garble_params();
    for k in 0..(if c.thorough { 60 } else { 24 }) {
        let p = ps[k % ps.len()];
        let kinds: &[u8] = [&[0u8, 1, 2][..], &[0], &[1], &[2], &[0, 2], &[0, 1, 2]][(k / 2) % 6];
        c.case(format!("circ{k}/n{}l{}", p.n, p.l), &format!("kinds{kinds:?}"), |rng| {
            let t = TextCirc::random(rng, 4, 12, kinds);
            let circ = t.load().pack(p.l as u32);
            let d = PreProc::describe(&circ, &contexts::<W>(p)[0]);
            let nb = blocks(&circ).len();
            ens!(d.masks == nb && d.keys == (2, p.key, nb), "{} masks, keys {:?} described for {nb} wire blocks", d.masks, d.keys);
            let w = rand_wires(p, t.wires, rng);
            let e = vec![0; p.l];
            let full = material(p, &circ, d, &w, &e, rng);
            if let Err(m) = run(p, &circ, full.clone(), 60) {
                return Err(format!("{p:?}: the described amount (randoms {}, zeros {}, errors {}) does not let {:?} finish: {m}", d.randoms, d.zeros, d.errors, t));
            }
            ens!(true, "");
            // One element less of any kind is not enough.
            for what in 0..3 {
                let mut less = full.clone();
                let had = match what {
                    0 => d.randoms,
                    1 => d.zeros,
                    _ => d.errors,
                };
                if had == 0 {
                    continue;
                }
                for m in less.iter_mut() {
                    match what {
                        0 => m.randoms.pop_back(),
                        1 => m.zeros.pop_back(),
                        _ => m.errors.pop_back(),
                    };
                }
                crate::ctx::PANICS.store(0, std::sync::atomic::Ordering::SeqCst);
                let r = run(p, &circ, less, 60);
                crate::ctx::PANICS.store(0, std::sync::atomic::Ordering::SeqCst);
                ens!(r.is_err(), "{p:?} {t:?}: {} described, but one less {} is enough", had, ["random", "zero", "error"][what]);
            }
            Ok(())
        });
    }
    // Number of gates at which identifiers need another byte.
    for gates in [252u32, 253, 251] {
        c.case(format!("gates{gates}"), "identifier-boundary", |rng| {
            let mut p = Par::new(3, 1, 1);
            p.key = 1;
            p.mssg = 2;
            let mut g = vec![];
            for k in 0..gates {
                g.push(if k % 50 == 7 { GT::Xor(0, 1, 2 + k) } else { GT::Inv(k % 2, 2 + k) });
            }
            let t = TextCirc { wires: 2 + gates, inputs: vec![1, 1], outputs: vec![1], gates: g };
            let circ = t.load().pack(1);
            let d = PreProc::describe(&circ, &contexts::<W>(p)[0]);
            let w = rand_wires(p, t.wires, rng);
            let mat = material(p, &circ, d, &w, &[0], rng);
            run(p, &circ, mat, 120)?;
            ens!(true, "");
            Ok(())
        });
    }
}

pub fn matrices(c: &mut Ctx) {
    let ps = garble_params();
    for k in 0..(if c.thorough { 120 } else { 40 }) {
        let mut p = ps[k % ps.len()];
        p.key = 1;
        p.mssg = 3;
        c.case(format!("wires{k}/n{}l{}", p.n, p.l), &format!("l{}", p.l), |rng| {
            // Depth-one circuits over few wires: the same pairs meet again and again, in both orders.
            let ni = rng.gen_range(2..6u32);
            let ng = rng.gen_range(4..24u32);
            let gates: Vec<GT> = (0..ng)
                .map(|i| {
                    let (a, b, o) = (rng.gen_range(0..ni), rng.gen_range(0..ni), ni + i);
                    match (k + rng.gen_range(0..2)) % 4 {
                        0 | 1 => GT::And(a, b, o),
                        2 => GT::Xor(a, b, o),
                        _ => GT::Inv(a, o),
                    }
                })
                .collect();
            let t = TextCirc { wires: ni + ng, inputs: vec![ni], outputs: vec![1], gates };
            matrices_case(p, &t, rng)
        });
    }
}

fn matrices_case(p: Par, t: &TextCirc, rng: &mut StdRng) -> Result<(), String> {
    let f = field::<W>();
    let circ = t.load().pack(p.l as u32);
    let d = PreProc::describe(&circ, &contexts::<W>(p)[0]);
    let ni = t.num_inputs();
    let mut runs = vec![];
    // Three executions that differ in the input keys only (and in all randomness).
    for _ in 0..3 {
        let mut w = rand_wires(p, t.wires, rng);
        for (i, x) in w.iter_mut().enumerate() {
            x.mask = 0;
            if i as u32 >= ni {
                x.key = [vec![0], vec![0]];
            }
        }
        let mat = material(p, &circ, d, &w, &vec![0; p.l], rng);
        runs.push((run(p, &circ, mat, 60)?, w));
    }
    // Matrix columns used with each (unordered) choice of labelled input keys.
    let mut used: HashMap<Vec<(u32, usize)>, Vec<(usize, usize, usize, Vec<u32>)>> = HashMap::new();
    for (gi, gate) in circ.gates().iter().enumerate() {
        let (kind, inp, out) = gate_parts(gate);
        for row in 0..(if kind == 2 { 2 } else { 4 }) {
            for s in 0..out.len() {
                let mut labels: Vec<(u32, usize)> = if kind == 2 { vec![(inp[0][s], row)] } else { vec![(inp[0][s], row / 2), (inp[1][s], row % 2)] };
                labels.sort_unstable();
                let keyof = |r: usize| labels.iter().fold(0, |acc, &(w, v)| acc ^ runs[r].1[w as usize].key[v][0]);
                let cols: Vec<Option<Vec<u32>>> = [(0, 1), (0, 2)]
                    .iter()
                    .map(|&(x, y)| {
                        let dk = keyof(x) ^ keyof(y);
                        if dk == 0 {
                            return None;
                        }
                        Some((0..p.mssg).map(|m| f.div(runs[x].0[gi][row][m][s] ^ runs[y].0[gi][row][m][s], dk)).collect())
                    })
                    .collect();
                if let (Some(a), Some(b)) = (&cols[0], &cols[1]) {
                    ens!(a == b, "{p:?} gate {gi} slot {s} row {row}: the parties' encryption matrices do not form one common matrix");
                    used.entry(labels).or_default().push((gi, row, s, a.clone()));
                }
            }
        }
    }
    for (labels, v) in used {
        for i in 0..v.len() {
            for j in 0..i {
                ens!(v[i].3 != v[j].3, "{p:?} {t:?}: keys {labels:?} are used twice with the same matrix: gate {} slot {} row {} and gate {} slot {} row {}", v[j].0, v[j].2, v[j].1, v[i].0, v[i].2, v[i].1);
            }
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: Array1<GF<W>>) {}
