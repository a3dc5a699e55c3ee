use crate::ctx::{Ctx, UNDECIDED};
use crate::ens;
use crate::oracle::*;
use crate::sim::ScriptRng;
use ndarray::ArrayView1;
use rand::Rng;
use scalable_mpc::math::galois::GF;
use scalable_mpc::sharing::PackedSharing;
use scalable_mpc::ProtoErrorKind;

/// (number of parties, degree, number of secrets)
fn params(thorough: bool) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    let top = if thorough { 9 } else { 6 };
    for n in 1..=top {
        for d in 0..n {
            for l in 1..=(d + 1).min(4) {
                v.push((n, d, l));
            }
        }
    }
    v.extend([(16, 7, 3), (16, 15, 3), (11, 5, 4), (13, 12, 6), (20, 9, 5), (8, 7, 8)]);
    v
}

fn positions<R: Rng>(f: &Field, n: usize, l: usize, kind: usize, rng: &mut R) -> Vec<u32> {
    let base = n as u32;
    match kind {
        0 => (base..base + l as u32).collect(),
        1 => (0..l as u32).map(|i| base + l as u32 + 3 * i).collect(),
        _ => {
            let mut v = vec![];
            while v.len() < l {
                let x = rng.gen_range(base..f.order);
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        }
    }
}

fn vu<const W: u8>(v: &[GF<W>]) -> Vec<u32> {
    v.iter().map(|&x| u(x)).collect()
}

fn gv<const W: u8>(v: &[u32]) -> Vec<GF<W>> {
    v.iter().map(|&x| g(x)).collect()
}

fn rt<const W: u8>(c: &mut Ctx) {
    for (n, d, l) in params(c.thorough) {
        if n + 4 * l >= 1 << W {
            continue;
        }
        for kind in 0..3 {
            c.case(format!("w{W}/n{n}d{d}l{l}/pos{kind}"), &format!("{}{}{}", if d + 1 == n { "full" } else { "low" }, if l == d + 1 { "tight" } else { "slack" }, kind), |rng| {
                let f = field::<W>();
                let pos = positions(&f, n, l, kind, rng);
                let pss = PackedSharing::<W>::new(d as u32, n as u32, &gv(&pos));
                ens!(pss.num_parties() as usize == n && pss.num_secrets() as usize == l && pss.degree() as usize == d,
                    "declared parameters {} {} {}", pss.num_parties(), pss.num_secrets(), pss.degree());
                for r in 0..4 {
                    let sec: Vec<u32> = (0..l).map(|i| match r { 0 => 0, 1 => i as u32 % f.order, _ => f.rnd(rng) }).collect();
                    let gs = gv::<W>(&sec);
                    let sh = pss.share(ArrayView1::from(&gs), rng);
                    ens!(sh.len() == n, "{} shares for {n} parties", sh.len());
                    let raw = vu(&sh);
                    let o = f.open(d, &raw, &pos);
                    ens!(o.as_ref() == Some(&sec), "n={n} degree={d} positions={pos:?} secrets={sec:?}: shares {raw:?} open to {o:?} (None: not a degree-{d} sharing)");
                    ens!(pss.recon(ArrayView1::from(&sh)) == Ok(gs.clone()), "reconstruction of {sec:?} fails: {:?}", pss.recon(ArrayView1::from(&sh)).map(|v| vu(&v)));
                    ens!(vu(&pss.semihon_recon(ArrayView1::from(&sh))) == sec, "semi-honest reconstruction of {sec:?}");
                    let rc = pss.recon_coeffs();
                    ens!(rc.shape() == [l, d + 1], "reconstruction coefficients have shape {:?}", rc.shape());
                    ens!(vu(&PackedSharing::recon_using_coeffs(ArrayView1::from(&sh), rc)) == sec, "reconstruction with exported coefficients");
                    // Stand-alone coefficient matrices.
                    let sc = PackedSharing::<W>::compute_share_coeffs(d as u32, n as u32, &gv(&pos));
                    let s2 = PackedSharing::share_using_coeffs(ArrayView1::from(&gs), sc.view(), l as u32, rng);
                    ens!(s2.len() == n, "{} shares from coefficients", s2.len());
                    ens!(f.open(d, &vu(&s2), &pos).as_ref() == Some(&sec), "sharing with stand-alone coefficients opens to {:?}", f.open(d, &vu(&s2), &pos));
                    let rc2 = PackedSharing::<W>::compute_recon_coeffs(d as u32, n as u32, &gv(&pos));
                    ens!(vu(&PackedSharing::recon_using_coeffs(ArrayView1::from(&s2), rc2.view())) == sec, "reconstruction with stand-alone coefficients");
                    // Fewer secrets than slots: given ones are preserved.
                    let k = rng.gen_range(0..=l);
                    let s3 = PackedSharing::share_using_coeffs(ArrayView1::from(&gs[..k]), sc.view(), l as u32, rng);
                    let o3 = f.open(d, &vu(&s3), &pos);
                    ens!(s3.len() == n && o3.is_some() && o3.as_ref().unwrap()[..k] == sec[..k], "partial block of {k} out of {l} secrets opens to {o3:?}");
                    // Random sharings have the right degree.
                    let rs = pss.rand(rng);
                    ens!(rs.len() == n && f.open(d, &vu(&rs), &pos).is_some(), "random sharing {:?} has degree above {d}", vu(&rs));
                    let orc = f.open(d, &vu(&rs), &pos);
                    ens!(pss.recon(ArrayView1::from(&rs)).ok().map(|v| vu(&v)) == orc, "random sharing reconstructs differently");
                }
                Ok(())
            });
        }
    }
}

pub fn roundtrip(c: &mut Ctx) {
    rt::<18>(c);
    rt::<5>(c);
    rt::<8>(c);
}

fn det<const W: u8>(c: &mut Ctx) {
    for (n, d, l) in params(c.thorough) {
        if n + 4 * l >= 1 << W {
            continue;
        }
        c.case(format!("w{W}/n{n}d{d}l{l}"), if d + 1 == n { "no-redundancy" } else { "redundant" }, |rng| {
            let f = field::<W>();
            let pos = positions(&f, n, l, rng.gen_range(0..3), rng);
            let pss = PackedSharing::<W>::new(d as u32, n as u32, &gv(&pos));
            let try_one = |v: Vec<u32>| -> Result<(), String> {
                let gvv = gv::<W>(&v);
                let r = pss.recon(ArrayView1::from(&gvv));
                let exp = f.open(d, &v, &pos);
                match (&r, &exp) {
                    (Ok(x), Some(e)) => ens!(vu(x) == *e, "shares {v:?} reconstruct to {:?}, expected {e:?}", vu(x)),
                    (Err(ProtoErrorKind::MaliciousBehavior), None) => ens!(true, ""),
                    _ => ens!(false, "shares {v:?} (n={n}, degree {d}): {} but reconstruction returned {:?}",
                        if exp.is_some() { "consistent" } else { "inconsistent" }, r.as_ref().map(|x| vu(x))),
                }
                Ok(())
            };
            let base = f.share(d, n, &pos.iter().map(|&p| (p, f.rnd(rng))).collect::<Vec<_>>(), rng);
            try_one(base.clone())?;
            // Every single and every pair of corrupted shares.
            for i in 0..n {
                let mut v = base.clone();
                v[i] ^= rng.gen_range(1..f.order);
                try_one(v.clone())?;
                for j in 0..i {
                    let mut v2 = v.clone();
                    v2[j] ^= rng.gen_range(1..f.order);
                    try_one(v2)?;
                }
            }
            // A sharing of the next degree up, and arbitrary vectors.
            if d + 1 < n {
                try_one(f.share(d + 1, n, &pos.iter().map(|&p| (p, f.rnd(rng))).collect::<Vec<_>>(), rng))?;
            }
            for _ in 0..5 {
                try_one((0..n).map(|_| f.rnd(rng)).collect())?;
            }
            try_one(vec![0; n])?;
            for len in [0, n - 1, n + 1, 2 * n] {
                if len == n {
                    continue;
                }
                let v: Vec<GF<W>> = (0..len).map(|i| g(base[i % n])).collect();
                ens!(matches!(pss.recon(ArrayView1::from(&v)), Err(ProtoErrorKind::Other(_))), "{len} shares for {n} parties accepted or misreported: {:?}", pss.recon(ArrayView1::from(&v)).map(|x| vu(&x)));
            }
            Ok(())
        });
    }
}

pub fn detection(c: &mut Ctx) {
    det::<18>(c);
    det::<6>(c);
}

/// All views: the map from the random elements consumed to the shares of any coalition of
/// d+1-l parties is a bijection for fixed secrets (exhaustive over a small field), hence the view is
/// uniform and independent of the secrets.
fn hid<const W: u8>(c: &mut Ctx) {
    for (n, d, l) in [(3usize, 1usize, 1usize), (3, 2, 1), (4, 2, 2), (4, 2, 1), (4, 3, 2), (5, 2, 2), (4, 3, 3), (3, 0, 1), (5, 4, 3), (6, 3, 3), (5, 1, 1), (3, 2, 3)] {
        if n + l > 1 << W {
            continue;
        }
        let k = d + 1 - l;
        if (1u64 << W).pow(k as u32) > 5000 {
            continue;
        }
        c.case(format!("view/w{W}/n{n}d{d}l{l}"), &format!("t{k}"), |rng| {
            let f = field::<W>();
            let pos: Vec<u32> = (n as u32..(n + l) as u32).collect();
            let pss = PackedSharing::<W>::new(d as u32, n as u32, &gv(&pos));
            let coeffs = PackedSharing::<W>::compute_share_coeffs(d as u32, n as u32, &gv(&pos));
            for alt in 0..2 {
                let sec: Vec<u32> = (0..l).map(|_| f.rnd(rng)).collect();
                let gs = gv::<W>(&sec);
                let total = (f.order as u64).pow(k as u32);
                let mut all = vec![];
                let mut max_used = 0;
                for r in 0..total {
                    let mut script: Vec<u32> = vec![];
                    let mut x = r;
                    for _ in 0..k {
                        script.push((x % f.order as u64) as u32);
                        x /= f.order as u64;
                    }
                    let mut srng = ScriptRng::field_elements::<W>(&script)?;
                    let sh = if alt == 0 { pss.share(ArrayView1::from(&gs), &mut srng) } else { PackedSharing::share_using_coeffs(ArrayView1::from(&gs), coeffs.view(), l as u32, &mut srng) };
                    max_used = max_used.max(srng.used());
                    all.push(vu(&sh));
                }
                // Every coalition of k parties.
                let mut idx: Vec<usize> = (0..k).collect();
                loop {
                    let mut views: Vec<Vec<u32>> = all.iter().map(|s| idx.iter().map(|&i| s[i]).collect()).collect();
                    views.sort();
                    views.dedup();
                    if views.len() as u64 != total && max_used > k {
                        return Err(format!("{UNDECIDED}more than {k} random elements are drawn"));
                    }
                    ens!(views.len() as u64 == total, "n={n} degree={d} l={l}: parties {idx:?} see only {} of {total} possible views: their shares depend on the secrets {sec:?}", views.len());
                    let mut i = k;
                    let mut more = false;
                    while i > 0 {
                        i -= 1;
                        if idx[i] < n - k + i {
                            idx[i] += 1;
                            for j in i + 1..k {
                                idx[j] = idx[j - 1] + 1;
                            }
                            more = true;
                            break;
                        }
                    }
                    if !more {
                        break;
                    }
                }
            }
            Ok(())
        });
        c.case(format!("rand/w{W}/n{n}d{d}l{l}"), "random-sharing", |_| {
            let f = field::<W>();
            if (f.order as u64).pow(d as u32 + 1) > 5000 {
                return Ok(());
            }
            let pos: Vec<u32> = (n as u32..(n + l) as u32).collect();
            let pss = PackedSharing::<W>::new(d as u32, n as u32, &gv(&pos));
            let total = (f.order as u64).pow(d as u32 + 1);
            let mut all = vec![];
            let mut max_used = 0;
            for r in 0..total {
                let mut script = vec![];
                let mut x = r;
                for _ in 0..=d {
                    script.push((x % f.order as u64) as u32);
                    x /= f.order as u64;
                }
                let mut srng = ScriptRng::field_elements::<W>(&script)?;
                let sh = vu(&pss.rand(&mut srng));
                max_used = max_used.max(srng.used());
                all.push(sh);
            }
            all.sort();
            all.dedup();
            if all.len() as u64 != total && max_used > d + 1 {
                return Err(format!("{UNDECIDED}more than {} random elements are drawn", d + 1));
            }
            ens!(all.len() as u64 == total, "only {} of {total} sharings of degree {d} can occur", all.len());
            Ok(())
        });
    }
    // Large field: the first shares are fresh random elements and the rest determined, so any
    // coalition's view matrix has full rank in the randomness.
    for (n, d, l) in [(16usize, 7usize, 3usize), (9, 4, 2), (7, 4, 3), (20, 10, 4), (6, 5, 2)] {
        c.case(format!("rank/w{W}/n{n}d{d}l{l}"), "rank", |rng| {
            if W != 18 {
                return Ok(());
            }
            let f = field::<W>();
            let k = d + 1 - l;
            let pos: Vec<u32> = (n as u32..(n + l) as u32).collect();
            let pss = PackedSharing::<W>::new(d as u32, n as u32, &gv(&pos));
            // Sharing is affine in the randomness: probe with unit vectors.
            let zero = vec![g::<W>(0); l];
            let probe = |script: &[u32]| -> Result<Vec<u32>, String> {
                let mut r = ScriptRng::field_elements::<W>(script)?;
                let v = vu(&pss.share(ArrayView1::from(&zero), &mut r));
                if r.used() > k {
                    return Err(format!("{UNDECIDED}more than {k} random elements are drawn"));
                }
                Ok(v)
            };
            let mut m = vec![];
            for i in 0..k {
                let mut s = vec![0; k];
                s[i] = 1;
                m.push(probe(&s)?);
            }
            for _ in 0..60 {
                let mut p: Vec<usize> = (0..n).collect();
                use rand::seq::SliceRandom;
                p.shuffle(rng);
                p.truncate(k);
                let sub: Vec<Vec<u32>> = m.iter().map(|row| p.iter().map(|&i| row[i]).collect()).collect();
                ens!(f.rank(sub) == k, "parties {p:?} hold shares that are not uniform given the secrets");
            }
            Ok(())
        });
    }
}

pub fn hiding(c: &mut Ctx) {
    hid::<3>(c);
    hid::<4>(c);
    hid::<18>(c);
}

pub fn positions_check<const W: u8>(c: &mut Ctx) {
    for k in 0..40 {
        c.case(format!("w{W}/{k}"), &format!("w{W}"), |rng| {
            GF::<W>::init().unwrap();
            let n: u32 = rng.gen_range(1..60);
            let l: u32 = rng.gen_range(1..12);
            let maxw = (1u32 << W) - n - l;
            let sp = vu(&PackedSharing::<W>::share_pos(n));
            let dp = vu(&PackedSharing::<W>::default_pos(n, l));
            let wires: Vec<u32> = match k % 3 {
                0 => (0..maxw.min(500)).collect(),
                1 => (0..300).map(|_| rng.gen_range(0..maxw)).collect(),
                _ => (maxw - maxw.min(200)..maxw).rev().collect(),
            };
            let wp: Vec<u32> = PackedSharing::<W>::wire_to_pos(n, l, wires.clone()).map(|x| u(x)).collect();
            ens!(sp.len() == n as usize && dp.len() == l as usize && wp.len() == wires.len(), "number of positions");
            ens!(sp == (0..n).collect::<Vec<u32>>(), "party positions {sp:?}");
            let mut fixed: Vec<u32> = sp.iter().chain(dp.iter()).cloned().collect();
            fixed.sort_unstable();
            fixed.dedup();
            ens!(fixed.len() == (n + l) as usize, "n={n} l={l}: party and default positions overlap: {sp:?} {dp:?}");
            let mut by_wire = std::collections::HashMap::new();
            let mut by_pos = std::collections::HashMap::new();
            for (&w, &p) in wires.iter().zip(&wp) {
                ens!(fixed.binary_search(&p).is_err(), "n={n} l={l}: wire {w} is placed at {p}, which is a party or default position");
                ens!(*by_wire.entry(w).or_insert(p) == p, "wire {w} has two positions");
                ens!(*by_pos.entry(p).or_insert(w) == w, "wires {} and {w} share position {p}", by_pos[&p]);
            }
            Ok(())
        });
    }
}

pub fn positions_all(c: &mut Ctx) {
    positions_check::<18>(c);
    positions_check::<8>(c);
    positions_check::<16>(c);
}
