use crate::ctx::{run_async, Ctx};
use crate::ens;
use crate::oracle::*;
use crate::sim::*;
use ndarray::{s, Array1, Array2, Array3};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use scalable_mpc::math::{self, galois::GF, Combination};
use scalable_mpc::protocol::{core, preproc as pp};
use std::collections::VecDeque;
use std::sync::Arc;
use tokio::task::spawn;

fn secrets_at(pos: &[u32], v: &[u32]) -> Vec<(u32, u32)> {
    pos.iter().cloned().zip(v.iter().cloned()).collect()
}

/// Runs all parties in the given start order with pauses, so that messages meet in different orders.
async fn join_all<T: Send + 'static>(futs: Vec<impl std::future::Future<Output = T> + Send + 'static>, order: &[usize], gaps: &[u8]) -> Result<Vec<T>, String> {
    let n = futs.len();
    let mut slots: Vec<Option<_>> = futs.into_iter().map(Some).collect();
    let mut hs: Vec<Option<tokio::task::JoinHandle<T>>> = (0..n).map(|_| None).collect();
    for (k, &i) in order.iter().enumerate() {
        hs[i] = Some(spawn(slots[i].take().unwrap()));
        for _ in 0..gaps[k % gaps.len()] {
            tokio::task::yield_now().await;
        }
    }
    let mut out = vec![];
    for h in hs {
        out.push(h.unwrap().await.map_err(|e| format!("panic: {e}: {}", crate::ctx::LAST_PANIC.lock().unwrap()))?);
    }
    Ok(out)
}

fn sched(rng: &mut StdRng, n: usize) -> (Vec<usize>, Vec<u8>) {
    let mut o: Vec<usize> = (0..n).collect();
    o.shuffle(rng);
    let g = (0..5).map(|_| if rng.gen() { 0 } else { rng.gen_range(0..30) }).collect();
    (o, g)
}

fn one_reduce<const W: u8>(p: Par, num: usize, leader: Option<u16>, mult: bool, idlen: usize, rng: &mut StdRng) -> Result<(), String> {
    let f = field::<W>();
    let dp = p.defpos();
    let d = p.d();
    let mut sh: [Vec<Vec<u32>>; 4] = Default::default();
    let mut exp = vec![];
    for k in 0..num {
        let a: Vec<u32> = (0..p.l).map(|_| if k == 0 { 0 } else { f.rnd(rng) }).collect();
        let b: Vec<u32> = (0..p.l).map(|_| f.rnd(rng)).collect();
        let r: Vec<u32> = (0..p.l).map(|_| f.rnd(rng)).collect();
        if mult {
            sh[0].push(f.share(d, p.n, &secrets_at(&dp, &a), rng));
            exp.push(a.iter().zip(&b).map(|(&x, &y)| f.mul(x, y)).collect::<Vec<u32>>());
        } else {
            // Any degree up to n-1 may be reduced.
            let deg = if rng.gen() { p.n - 1 } else { rng.gen_range(p.l - 1..p.n) };
            sh[0].push(f.share(deg, p.n, &secrets_at(&dp, &a), rng));
            exp.push(a);
        }
        sh[1].push(f.share(d, p.n, &secrets_at(&dp, &b), rng));
        sh[2].push(f.share(d, p.n, &secrets_at(&dp, &r), rng));
        sh[3].push(f.share(p.n - 1, p.n, &secrets_at(&dp, &vec![0; p.l]), rng));
    }
    let [x, y, r, z] = [0, 1, 2, 3].map(|i| by_party::<W>(p.n, &sh[i]));
    let id: Vec<u8> = (0..idlen).map(|_| rng.gen()).collect();
    let (order, gaps) = sched(rng, p.n);
    let out = run_async(40, async move {
        let ps = parties::<W>(p).await;
        let mut futs = vec![];
        for (i, (_, net, ctx)) in ps.into_iter().enumerate() {
            let (id, x, y, r, z) = (id.clone(), x[i].clone(), y[i].clone(), r[i].clone(), z[i].clone());
            futs.push(async move {
                if mult {
                    core::mult(id, x, y, r, z, leader, ctx, net).await
                } else {
                    core::reduce_degree(id, x, r, z, leader, ctx, net).await
                }
            });
        }
        join_all(futs, &order, &gaps).await
    })?;
    for o in &out {
        ens!(o.len() == num, "{} outputs for {num} inputs", o.len());
    }
    for k in 0..num {
        let col = column(&out, k);
        let got = f.open(d, &col, &dp);
        ens!(got.as_ref() == Some(&exp[k]), "{p:?} leader {leader:?} {}: item {k} opens to {got:?}, expected {:?} (None: degree above {d})", if mult { "product" } else { "degree reduction" }, exp[k]);
    }
    Ok(())
}

pub fn reduce(c: &mut Ctx) {
    let sets = param_sets();
    for (i, p) in sets.iter().cloned().enumerate() {
        for m in [true, false] {
            let op = if m { "mult" } else { "reduce" };
            for num in [1usize, 4, 0] {
                c.case(format!("{op}/n{}t{}l{}/num{num}/derived", p.n, p.t, p.l), op, |rng| one_reduce::<18>(p, num, None, m, i, rng));
            }
            for leader in [0, p.n / 2, p.n - 1] {
                c.case(format!("{op}/n{}t{}l{}/leader{leader}", p.n, p.t, p.l), "explicit-leader", |rng| one_reduce::<18>(p, 3, Some(leader as u16), m, 3, rng));
            }
        }
    }
    // Many identifiers, so that the derived leader takes different values.
    for k in 0..(if c.thorough { 60 } else { 20 }) {
        let p = sets[k % 5];
        c.case(format!("derived/{k}"), "derived-leader", |rng| one_reduce::<18>(p, 2, None, true, k % 11, rng));
    }
    c.case("w8".into(), "w8", |rng| one_reduce::<8>(Par::new(7, 2, 2), 5, None, true, 2, rng));
}

fn one_trans<const W: u8>(p: Par, num: usize, leader: Option<u16>, rng: &mut StdRng) -> Result<(), String> {
    let f = field::<W>();
    let d = p.d();
    let mut pool: Vec<u32> = ((p.n) as u32..(p.n + 60) as u32).collect();
    pool.shuffle(rng);
    let ol = rng.gen_range(1..=p.l);
    let nl = rng.gen_range(1..=p.l);
    let opos: Vec<u32> = pool[..ol].to_vec();
    // Old and new positions may overlap.
    if rng.gen() {
        pool.shuffle(rng);
    }
    let npos: Vec<u32> = pool[..nl].to_vec();
    let map: Vec<usize> = (0..nl).map(|_| rng.gen_range(0..ol)).collect();
    let mut xs = vec![];
    let mut r = vec![];
    let mut rn = vec![];
    let mut exp = vec![];
    for _ in 0..num {
        let s: Vec<u32> = (0..ol).map(|_| f.rnd(rng)).collect();
        let q: Vec<u32> = (0..ol).map(|_| f.rnd(rng)).collect();
        let deg = if rng.gen() { d } else { p.n - 1 };
        xs.push(f.share(deg, p.n, &secrets_at(&opos, &s), rng));
        rn.push(f.share(p.n - 1, p.n, &secrets_at(&opos, &q), rng));
        r.push(f.share(d, p.n, &secrets_at(&npos, &map.iter().map(|&i| q[i]).collect::<Vec<_>>()), rng));
        exp.push(map.iter().map(|&i| s[i]).collect::<Vec<u32>>());
    }
    let (x, r, rn) = (by_party::<W>(p.n, &xs), by_party::<W>(p.n, &r), by_party::<W>(p.n, &rn));
    let (order, gaps) = sched(rng, p.n);
    let tf = core::SharingTransform::new(opos.iter().map(|&x| g::<W>(x)).collect(), npos.iter().map(|&x| g::<W>(x)).collect(), Combination::new(map.clone()));
    let out = run_async(40, async move {
        let ps = parties::<W>(p).await;
        let mut futs = vec![];
        for (i, (_, net, ctx)) in ps.into_iter().enumerate() {
            futs.push(core::trans(b"tr".to_vec(), x[i].clone(), r[i].clone(), rn[i].clone(), tf.clone(), leader, ctx, net));
        }
        join_all(futs, &order, &gaps).await
    })?;
    for k in 0..num {
        ens!(out.iter().all(|o| o.len() == num), "number of outputs");
        let got = f.open(d, &column(&out, k), &npos);
        ens!(got.as_ref() == Some(&exp[k]), "{p:?} {opos:?} -> {npos:?} by {map:?}: item {k} opens to {got:?}, expected {:?}", exp[k]);
    }
    Ok(())
}

pub fn trans(c: &mut Ctx) {
    let sets = param_sets();
    for k in 0..(if c.thorough { 150 } else { 50 }) {
        let p = sets[k % sets.len()];
        let num = [3, 1, 5][k % 3];
        let leader = if k % 4 == 0 { None } else { Some((k * 7 % p.n) as u16) };
        c.case(format!("t{k}/n{}t{}l{}", p.n, p.t, p.l), if leader.is_some() { "explicit" } else { "derived" }, |rng| one_trans::<18>(p, num, leader, rng));
    }
}

fn one_randtrans<const W: u8>(p: Par, num: usize, rng: &mut StdRng) -> Result<(), String> {
    let f = field::<W>();
    let d = p.d();
    let dp = p.defpos();
    let k = rng.gen_range(1..=p.l);
    let mut pos: Vec<(Vec<u32>, Vec<u32>, Vec<usize>)> = vec![];
    for _ in 0..k {
        let mut pool: Vec<u32> = (p.n as u32..(p.n + 80) as u32).collect();
        pool.shuffle(rng);
        let ol = rng.gen_range(1..=p.l);
        let nl = rng.gen_range(1..=p.l);
        let map: Vec<usize> = (0..nl).map(|_| rng.gen_range(0..ol)).collect();
        pos.push((pool[..ol].to_vec(), pool[10..10 + nl].to_vec(), map));
    }
    let rs: Vec<Vec<u32>> = (0..num * (p.n + p.t)).map(|_| f.share(d, p.n, &secrets_at(&dp, &(0..p.l).map(|_| f.rnd(rng)).collect::<Vec<_>>()), rng)).collect();
    let zs: Vec<Vec<u32>> = (0..num * 2 * p.n).map(|_| f.share(p.n - 1, p.n, &secrets_at(&dp, &vec![0; p.l]), rng)).collect();
    let (r, z) = (by_party::<W>(p.n, &rs), by_party::<W>(p.n, &zs));
    let conv = |v: &Vec<u32>| v.iter().map(|&x| g::<W>(x)).collect::<Vec<GF<W>>>();
    let (order, gaps) = sched(rng, p.n);
    let pos2 = pos.clone();
    let out = run_async(60, async move {
        let ps = parties::<W>(p).await;
        let mut futs = vec![];
        for (i, (_, net, ctx)) in ps.into_iter().enumerate() {
            let tf = core::RandSharingTransform::new(
                &pos2.iter().map(|x| conv(&x.0)).collect::<Vec<_>>(),
                &pos2.iter().map(|x| conv(&x.1)).collect::<Vec<_>>(),
                &pos2.iter().map(|x| Combination::new(x.2.clone())).collect::<Vec<_>>(),
                &ctx,
            );
            let rr: VecDeque<_> = r[i].to_vec().into();
            let zz: VecDeque<_> = z[i].to_vec().into();
            futs.push(core::randtrans(b"rt".to_vec(), rr, zz, tf, ctx, net));
        }
        join_all(futs, &order, &gaps).await
    })?;
    let mut all = std::collections::HashSet::new();
    for (q, (opos, npos, map)) in pos.iter().enumerate() {
        for j in 0..num {
            for o in &out {
                ens!(o.0.shape() == [p.l, num] && o.1.shape() == [p.l, num], "output shapes {:?} {:?}", o.0.shape(), o.1.shape());
            }
            let lo: Vec<u32> = out.iter().map(|o| u(o.0[[q, j]])).collect();
            let hi: Vec<u32> = out.iter().map(|o| u(o.1[[q, j]])).collect();
            let old = f.open(p.n - 1, &hi, opos).unwrap();
            let new = f.open(d, &lo, npos);
            let exp: Vec<u32> = map.iter().map(|&i| old[i]).collect();
            ens!(new.as_ref() == Some(&exp), "{p:?} pair {q}/{j}: {opos:?} -> {npos:?} by {map:?}: values {old:?} became {new:?}, expected {exp:?}");
            all.insert(old);
        }
    }
    ens!(num * k < 3 || all.len() > 1, "all random pairs carry the same values");
    Ok(())
}

pub fn randtrans(c: &mut Ctx) {
    let sets = param_sets();
    for k in 0..(if c.thorough { 120 } else { 40 }) {
        let p = sets[k % sets.len()];
        let num = [2, 1, 3][k % 3];
        c.case(format!("r{k}/n{}t{}l{}", p.n, p.t, p.l), &format!("l{}", p.l), |rng| one_randtrans::<18>(p, num, rng));
    }
}

type Mats<const W: u8> = (Arc<Array2<GF<W>>>, Arc<Array2<GF<W>>>, Arc<Array2<GF<W>>>);

/// Extraction matrices: full-field ones and a binary one with t binary rows removed.
fn mats<const W: u8>(p: Par) -> Mats<W> {
    GF::<W>::init().unwrap();
    let s = Arc::new(math::super_inv_matrix::<W>(p.n, p.n - p.t));
    // A binary matrix with one output row is super-invertible for any number of columns.
    let rows = if p.n == 16 && p.t == 5 { 0 } else { 1 };
    let b = if rows == 0 {
        match std::path::Path::new("/repo/tests/data/n16_t5.txt") {
            x if x.exists() => math::binary_super_inv_matrix::<W>(x),
            _ => Array2::from_elem((1, p.n), GF::ONE),
        }
    } else {
        let mut m = Array2::from_elem((2, p.n), GF::ONE);
        for i in 0..p.n {
            if i % 2 == 0 {
                m[[1, i]] = GF::ZERO;
            }
        }
        m
    };
    (s.clone(), s, Arc::new(b))
}

fn one_random<const W: u8>(kind: usize, p: Par, num: usize, rng: &mut StdRng) -> Result<(), String> {
    let f = field::<W>();
    let dp = p.defpos();
    let (order, gaps) = sched(rng, p.n);
    let (sr, sz, sb) = mats::<W>(p);
    let out: Vec<Array1<GF<W>>> = run_async(60, async move {
        let ps = parties::<W>(p).await;
        let mut futs = vec![];
        for (_, net, ctx) in ps {
            let (sr, sz, sb) = (sr.clone(), sz.clone(), sb.clone());
            futs.push(async move {
                match kind {
                    0 => pp::rand(b"x".to_vec(), num, pp::RandContext::new(sr, &ctx), net).await,
                    1 => pp::zero(b"x".to_vec(), num, pp::ZeroContext::new(sz, &ctx), net).await,
                    _ => pp::randbit(b"x".to_vec(), num, pp::RandBitContext::new(sb, &ctx), net).await,
                }
            });
        }
        join_all(futs, &order, &gaps).await
    })?;
    let len = out[0].len();
    ens!(len >= num, "{num} sharings requested, {len} produced");
    ens!(out.iter().all(|o| o.len() == len), "parties disagree on how many sharings were produced");
    let name = ["random", "zero", "bit"][kind];
    let mut distinct = std::collections::HashSet::new();
    let mut bits = [0usize; 2];
    for k in 0..len {
        let col = column(&out, k);
        let deg = if kind == 1 { p.n - 1 } else { p.d() };
        let o = f.open(deg, &col, &dp);
        ens!(o.is_some(), "{p:?} {name} sharing {k} has degree above {deg}");
        let o = o.unwrap();
        match kind {
            1 => ens!(o.iter().all(|&x| x == 0), "{p:?} zero sharing {k} opens to {o:?}"),
            2 => {
                ens!(o.iter().all(|&x| x < 2), "{p:?} bit sharing {k} opens to {o:?}");
                for x in &o {
                    bits[*x as usize] += 1;
                }
            }
            _ => {}
        }
        ens!(distinct.insert(col), "{p:?} two identical {name} sharings were produced");
    }
    if kind == 2 && len * p.l >= 60 {
        ens!(bits[0] > 0 && bits[1] > 0, "all {} shared bits are equal", bits[0] + bits[1]);
    }
    Ok(())
}

pub fn randomness(c: &mut Ctx) {
    let sets = param_sets();
    for (i, p) in sets.iter().cloned().enumerate() {
        for kind in 0..3 {
            for num in [1usize, 2 + i, 31] {
                c.case(format!("k{kind}/n{}t{}l{}/{num}", p.n, p.t, p.l), ["rand", "zero", "bit"][kind], |rng| one_random::<18>(kind, p, num, rng));
            }
        }
    }
    for kind in 0..3 {
        for p in [Par::new(5, 1, 2), Par::new(7, 2, 2), Par::new(4, 1, 1)] {
            c.case(format!("contribution/{kind}/n{}", p.n), "contribution", |rng| contribution(kind, p, rng));
        }
    }
    // Every honest contribution matters: with party inputs fixed the outputs are the extraction
    // matrix applied to them, so two honest runs never agree.
    for kind in 0..3 {
        c.case(format!("fresh/{kind}"), "fresh", |rng| {
            let p = Par::new(7, 2, 2);
            let a = one_run_cols(kind, p, 12, rng)?;
            let b = one_run_cols(kind, p, 12, rng)?;
            ens!(a != b, "two executions produced identical sharings");
            Ok(())
        });
    }
}

/// One party of the protocol on a scripted network: what the other parties send is chosen here.
fn scripted(kind: usize, p: Par, me: usize, num: usize, mat: Arc<Array2<GF<18>>>, mssgs: Vec<Vec<GF<18>>>, order: Vec<usize>) -> Result<Vec<u32>, String> {
    use scalable_mpc::protocol::network::{ReceivedMessage, SendMessage};
    run_async(20, async move {
        let ctx = contexts::<18>(p)[me].clone();
        let (s, _keep) = tokio::sync::mpsc::unbounded_channel::<SendMessage>();
        let (q, mut rq) = tokio::sync::mpsc::unbounded_channel::<(Vec<u8>, tokio::sync::oneshot::Sender<ReceivedMessage>)>();
        spawn(async move {
            let mut at = 0;
            while let Some((id, tx)) = rq.recv().await {
                if at < order.len() {
                    let from = order[at];
                    let _ = tx.send(ReceivedMessage { proto_id: id, from: from as u16, data: bincode::serialize(&mssgs[from]).unwrap() });
                    at += 1;
                }
            }
        });
        let net = scalable_mpc::protocol::network::Network::new(s, q);
        let out = match kind {
            0 => pp::rand(b"x".to_vec(), num, pp::RandContext::new(mat, &ctx), net).await,
            1 => pp::zero(b"x".to_vec(), num, pp::ZeroContext::new(mat, &ctx), net).await,
            _ => pp::randbit(b"x".to_vec(), num, pp::RandBitContext::new(mat, &ctx), net).await,
        };
        Ok(out.iter().map(|&x| u(x)).collect())
    })
}

/// Changing what any single party contributes changes every result.
fn contribution(kind: usize, p: Par, rng: &mut StdRng) -> Result<(), String> {
    let f = field::<18>();
    let rows = p.n - p.t;
    let num = rows * 2 + 1;
    let batches = 3;
    let mat = Arc::new(Array2::from_shape_fn((rows, p.n), |_| g::<18>(rng.gen_range(1..f.order))));
    let base: Vec<Vec<GF<18>>> = (0..p.n).map(|_| (0..batches).map(|_| g(f.rnd(rng))).collect()).collect();
    let me = rng.gen_range(0..p.n);
    let mut order: Vec<usize> = (0..p.n).collect();
    order.shuffle(rng);
    let a = scripted(kind, p, me, num, mat.clone(), base.clone(), order.clone())?;
    ens!(a.len() >= num, "{} results for {num}", a.len());
    // Arrival order is irrelevant.
    order.shuffle(rng);
    let b = scripted(kind, p, me, num, mat.clone(), base.clone(), order.clone())?;
    ens!(a == b, "results depend on the order in which contributions arrive");
    for j in 0..p.n {
        let mut m = base.clone();
        for x in m[j].iter_mut() {
            *x += g(rng.gen_range(1..f.order));
        }
        let b = scripted(kind, p, me, num, mat.clone(), m, order.clone())?;
        for (k, (x, y)) in a.iter().zip(&b).enumerate() {
            ens!(x != y, "{p:?}: result {k} does not depend on the contribution of party {j}");
        }
    }
    Ok(())
}

fn one_run_cols(kind: usize, p: Par, num: usize, rng: &mut StdRng) -> Result<Vec<Vec<u32>>, String> {
    let (order, gaps) = sched(rng, p.n);
    let (sr, sz, sb) = mats::<18>(p);
    let out: Vec<Array1<GF<18>>> = run_async(60, async move {
        let ps = parties::<18>(p).await;
        let mut futs = vec![];
        for (_, net, ctx) in ps {
            let (sr, sz, sb) = (sr.clone(), sz.clone(), sb.clone());
            futs.push(async move {
                match kind {
                    0 => pp::rand(b"x".to_vec(), num, pp::RandContext::new(sr, &ctx), net).await,
                    1 => pp::zero(b"x".to_vec(), num, pp::ZeroContext::new(sz, &ctx), net).await,
                    _ => pp::randbit(b"x".to_vec(), num, pp::RandBitContext::new(sb, &ctx), net).await,
                }
            });
        }
        join_all(futs, &order, &gaps).await
    })?;
    Ok(out.iter().map(|o| o.iter().map(|&x| u(x)).collect()).collect())
}

/// Opens every share of the material of all parties and checks it against its meaning.
pub fn check_material<const W: u8>(p: Par, desc: pp::PreProcCount, all: &[pp::PreProc<W>], real_errors: bool) -> Result<(), String> {
    let f = field::<W>();
    let dp = p.defpos();
    let d = p.d();
    let first = &all[0];
    for (i, m) in all.iter().enumerate() {
        ens!(m.masks.len() == desc.masks, "party {i}: {} masks, {} described", m.masks.len(), desc.masks);
        ens!(m.keys.dim() == desc.keys, "party {i}: key shape {:?}, {:?} described", m.keys.dim(), desc.keys);
        ens!(m.errors.len() == desc.errors, "party {i}: {} errors, {} described", m.errors.len(), desc.errors);
        ens!(m.randoms.len() >= desc.randoms, "party {i}: {} random sharings, {} described", m.randoms.len(), desc.randoms);
        ens!(m.zeros.len() >= desc.zeros, "party {i}: {} zero sharings, {} described", m.zeros.len(), desc.zeros);
        ens!(m.randoms.len() == first.randoms.len() && m.zeros.len() == first.zeros.len(), "parties hold different amounts");
    }
    let open = |deg: usize, what: &str, k: usize, col: Vec<u32>| -> Result<Vec<u32>, String> {
        let o = f.open(deg, &col, &dp);
        ens!(o.is_some(), "{p:?}: {what} {k} is not a sharing of degree {deg}: {col:?}");
        Ok(o.unwrap())
    };
    let step = |n: usize| (n / 400).max(1);
    for k in 0..desc.masks {
        let o = open(d, "mask", k, all.iter().map(|m| u(m.masks[k])).collect())?;
        ens!(o.iter().all(|&x| x < 2), "mask {k} opens to {o:?}, not bits");
    }
    let mut keyset = std::collections::HashSet::new();
    for b in 0..desc.keys.0 {
        for i in 0..desc.keys.1 {
            for k in (0..desc.keys.2).step_by(step(desc.keys.2 * desc.keys.1)) {
                let o = open(d, "key", k, all.iter().map(|m| u(m.keys[[b, i, k]])).collect())?;
                ens!(keyset.insert(o.clone()) || p.l == 1, "two key elements are identical: {o:?}");
            }
        }
    }
    for k in (0..first.randoms.len()).step_by(step(first.randoms.len())) {
        open(d, "random", k, all.iter().map(|m| u(m.randoms[k])).collect())?;
    }
    for k in (0..first.zeros.len()).step_by(step(first.zeros.len())) {
        let o = open(p.n - 1, "zero", k, all.iter().map(|m| u(m.zeros[k])).collect())?;
        ens!(o.iter().all(|&x| x == 0), "zero sharing {k} opens to {o:?}");
    }
    let mut zero_slots = 0usize;
    let mut slots = 0usize;
    for k in 0..desc.errors {
        let o = open(d, "error", k, all.iter().map(|m| u(m.errors[k])).collect())?;
        zero_slots += o.iter().filter(|&&x| x == 0).count();
        slots += o.len();
    }
    if real_errors && slots >= 120 {
        // Each error is zero with probability 3/4 + 2^-20; 12 standard deviations either side.
        let mean = slots as f64 * 0.75;
        let sd = (slots as f64 * 0.1875).sqrt();
        ens!((zero_slots as f64 - mean).abs() < 12.0 * sd, "{zero_slots} of {slots} error elements are zero, expected about {mean}");
    }
    Ok(())
}

pub async fn run_preproc<const W: u8>(p: Par, desc: pp::PreProcCount, order: Vec<usize>, gaps: Vec<u8>) -> Result<Vec<pp::PreProc<W>>, String> {
    let (sr, sz, sb) = mats::<W>(p);
    let ps = parties::<W>(p).await;
    let mut futs = vec![];
    for (_, net, ctx) in ps {
        let (rc, zc, bc) = (pp::RandContext::new(sr.clone(), &ctx), pp::ZeroContext::new(sz.clone(), &ctx), pp::RandBitContext::new(sb.clone(), &ctx));
        futs.push(pp::preproc(b"pre".to_vec(), desc, ctx, rc, zc, bc, net));
    }
    join_all(futs, &order, &gaps).await
}

pub fn preproc(c: &mut Ctx) {
    let sets = param_sets();
    for k in 0..(if c.thorough { 60 } else { 22 }) {
        let p = sets[k % sets.len()];
        c.case(format!("p{k}/n{}t{}l{}", p.n, p.t, p.l), &format!("n{}", p.n), |rng| {
            let big = p.n <= 9;
            let desc = pp::PreProcCount {
                masks: rng.gen_range(0..9),
                keys: (2, rng.gen_range(1..4), rng.gen_range(0..7)),
                randoms: rng.gen_range(0..40),
                zeros: rng.gen_range(0..40),
                // Fewer errors than parties, multiples of the number of parties and remainders.
                errors: [0, 1, p.n - 1, p.n, p.n + 1, 2 * p.n + 3, if big { 120 } else { 40 }][k % 7],
            };
            let (o, gp) = sched(rng, p.n);
            let all = run_async(90, run_preproc::<18>(p, desc, o, gp))?;
            check_material(p, desc, &all, true)
        });
    }
    for k in 0..2 {
        c.case(format!("bias/{k}"), "bias", |rng| {
            let p = Par::new(5, 1, 2);
            let desc = pp::PreProcCount { masks: 3, keys: (2, 2, 3), randoms: 5, zeros: 5, errors: 300 };
            let (o, gp) = sched(rng, p.n);
            let all = run_async(90, run_preproc::<18>(p, desc, o, gp))?;
            check_material(p, desc, &all, true)
        });
    }
}

pub fn dummy(c: &mut Ctx) {
    let sets = [Par::new(3, 1, 1), Par::new(5, 1, 2), Par::new(7, 2, 2), Par::new(7, 1, 3)];
    for (k, p) in sets.iter().cloned().enumerate() {
        c.case(format!("d{k}"), &format!("n{}", p.n), |rng| {
            let desc = pp::PreProcCount { masks: rng.gen_range(1..20), keys: (2, 3, rng.gen_range(1..9)), randoms: 50, zeros: 40, errors: 30 };
            let ctx = contexts::<18>(p);
            let seed = rng.gen();
            let all: Vec<_> = ctx.iter().map(|x| pp::PreProc::dummy(seed, desc, x)).collect();
            for m in &all {
                ens!(m.randoms.len() == desc.randoms && m.zeros.len() == desc.zeros, "amounts {} {}", m.randoms.len(), m.zeros.len());
            }
            check_material(p, desc, &all, false)?;
            // Same seed, same material.
            let again = pp::PreProc::dummy(seed, desc, &ctx[1]);
            ens!(again.masks == all[1].masks && again.keys == all[1].keys && again.randoms == all[1].randoms && again.zeros == all[1].zeros && again.errors == all[1].errors, "same seed gives different material");
            // Seeds that differ in one bit, wherever it is.
            for bit in 0..64u32 {
                let other = pp::PreProc::dummy(seed ^ (1 << bit), desc, &ctx[1]);
                ens!(other.keys != all[1].keys, "seeds {seed} and {} give the same keys", seed ^ (1 << bit));
            }
            Ok(())
        });
    }
}

pub fn preproc_roundtrip(c: &mut Ctx) {
    for k in 0..80 {
        c.case(format!("m{k}"), if k % 4 == 0 { "transposed-layout" } else { "standard-layout" }, |rng| {
            let f = field::<18>();
            let mut v = |n: usize| (0..n).map(|_| g::<18>(f.rnd(rng))).collect::<Vec<GF<18>>>();
            // Every third list of masks is held backwards, every other third with gaps.
            let masks = match k % 3 {
                0 => Array1::from_vec(v(k % 7)),
                1 => Array1::from_vec(v(k % 7)).slice_move(s![..;-1]),
                _ => Array1::from_vec(v(2 * (k % 7))).slice_move(s![..;2]),
            };
            let (kl, kb) = (1 + k % 4, if k < 70 { k % 7 } else { 0 });
            let data = v(2 * kl * kb);
            let keys = if k % 4 == 0 {
                // Same logical contents held in a different memory layout.
                let a = Array3::from_shape_vec((2, kl, kb), data).unwrap();
                let mut b = Array3::from_elem((kb, kl, 2), GF::ZERO).reversed_axes();
                b.assign(&a);
                b
            } else {
                Array3::from_shape_vec((2, kl, kb), data).unwrap()
            };
            let m = pp::PreProc::<18> { masks, keys, randoms: v(k % 5).into(), zeros: { let mut d: VecDeque<_> = v(9).into(); d.rotate_left(k % 9); d.pop_front(); d.push_back(g(5)); d }, errors: v((k * 3) % 8).into() };
            let bytes = bincode::serialize(&m).map_err(|e| e.to_string())?;
            ens!(bincode::serialized_size(&m).unwrap() == bytes.len() as u64, "announced size");
            let back: pp::PreProc<18> = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
            ens!(back.masks == m.masks, "masks changed");
            ens!(back.randoms == m.randoms && back.zeros == m.zeros && back.errors == m.errors, "sharings changed");
            ens!(kb > 0 || back.keys.is_empty(), "keys without blocks");
            if kb > 0 && kb == m.masks.len() {
                ens!(back.keys.dim() == m.keys.dim(), "key table of shape {:?} comes back as {:?}", m.keys.dim(), back.keys.dim());
                ens!(back.keys == m.keys, "keys changed");
            }
            Ok(())
        });
    }
}
