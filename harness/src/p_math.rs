use crate::ctx::Ctx;
use crate::ens;
use crate::oracle::*;
use ndarray::{Array1, ArrayView1};
use rand::seq::SliceRandom;
use rand::Rng;
use scalable_mpc::math::{self, Combination};
use std::io::Write;

fn distinct<R: Rng>(f: &Field, k: usize, rng: &mut R) -> Vec<u32> {
    if f.order as usize <= 4 * k {
        let mut v: Vec<u32> = (0..f.order).collect();
        v.shuffle(rng);
        v.truncate(k);
        return v;
    }
    let mut v: Vec<u32> = vec![];
    while v.len() < k {
        let x = if rng.gen_bool(0.3) { rng.gen_range(0..f.order.min(2 * k as u32 + 8)) } else { f.rnd(rng) };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn lag<const W: u8>(c: &mut Ctx, kmax: usize, reps: usize) {
    for r in 0..reps {
        for k in 1..=kmax {
            if k > 1 << W {
                continue;
            }
            c.case(format!("w{W}/k{k}/r{r}"), &format!("w{W}k{}", k.min(9)), |rng| {
                let f = field::<W>();
                let cp = distinct(&f, k, rng);
                let m = rng.gen_range(1..=(k + 4).min(f.order as usize));
                // New positions: mixture of fresh ones and ones shared with the old positions.
                let mut np = distinct(&f, m, rng);
                for i in 0..np.len() {
                    if rng.gen_bool(0.3) {
                        let x = cp[rng.gen_range(0..k)];
                        if !np.contains(&x) {
                            np[i] = x;
                        }
                    }
                }
                let gc: Vec<_> = cp.iter().map(|&x| g::<W>(x)).collect();
                let gn: Vec<_> = np.iter().map(|&x| g::<W>(x)).collect();
                let mat = math::lagrange_coeffs(&gc, &gn);
                ens!(mat.shape() == [m, k], "shape {:?} for {k} -> {m} positions", mat.shape());
                // Monomials form a basis of the polynomials of degree < k.
                for d in 0..k {
                    let ev: Vec<u32> = cp.iter().map(|&x| f.pow(x, d as u64)).collect();
                    for (i, &x) in np.iter().enumerate() {
                        let row: Vec<u32> = mat.row(i).iter().map(|&v| u(v)).collect();
                        let got = f.dot(&row, &ev);
                        let exp = f.pow(x, d as u64);
                        ens!(got == exp, "positions {cp:?} -> {np:?}: x^{d} interpolated at {x} gives {got}, expected {exp}");
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn lagrange(c: &mut Ctx) {
    let m = if c.thorough { 4 } else { 1 };
    lag::<18>(c, 9, 4 * m);
    lag::<3>(c, 8, 6 * m);
    lag::<8>(c, 20, 2 * m);
    lag::<18>(c, 24, m);
    lag::<2>(c, 4, 6 * m);
    lag::<5>(c, 32, m);
}

fn check_gen<const W: u8>(mssg: usize, code: usize, rng: &mut impl Rng, thorough: bool) -> Result<(), String> {
    let f = field::<W>();
    let m = math::rs_gen_mat::<W>(mssg, code);
    ens!(m.shape() == [code, mssg], "code matrix shape {:?}", m.shape());
    let rows: Vec<Vec<u32>> = m.outer_iter().map(|r| r.iter().map(|&x| u(x)).collect()).collect();
    let s = math::super_inv_matrix::<W>(code, mssg);
    ens!(s.shape() == [mssg, code], "super-invertible matrix shape {:?}", s.shape());
    let cols: Vec<Vec<u32>> = s.columns().into_iter().map(|r| r.iter().map(|&x| u(x)).collect()).collect();
    let check = |idx: &[usize]| -> Result<(), String> {
        let sub: Vec<Vec<u32>> = idx.iter().map(|&i| rows[i].clone()).collect();
        ens!(f.rank(sub) == mssg, "code ({mssg},{code}): message not determined by symbols {idx:?}");
        let sub: Vec<Vec<u32>> = idx.iter().map(|&i| cols[i].clone()).collect();
        ens!(f.rank(sub) == mssg, "matrix {mssg}x{code}: columns {idx:?} are dependent");
        Ok(())
    };
    // All subsets when few, random ones otherwise.
    let total: f64 = (0..mssg).fold(1.0, |a, i| a * (code - i) as f64 / (i + 1) as f64);
    if total < if thorough { 3000.0 } else { 300.0 } {
        let mut idx: Vec<usize> = (0..mssg).collect();
        loop {
            check(&idx)?;
            let mut i = mssg;
            loop {
                if i == 0 {
                    return Ok(());
                }
                i -= 1;
                if idx[i] < code - mssg + i {
                    idx[i] += 1;
                    for j in i + 1..mssg {
                        idx[j] = idx[j - 1] + 1;
                    }
                    break;
                }
            }
        }
    }
    let mut all: Vec<usize> = (0..code).collect();
    for k in 0..40 {
        if k == 0 {
            check(&all[..mssg].to_vec())?;
            check(&all[code - mssg..].to_vec())?;
        }
        all.shuffle(rng);
        check(&all[..mssg].to_vec())?;
    }
    Ok(())
}

pub fn matrices(c: &mut Ctx) {
    let th = c.thorough;
    for mssg in 1..=8usize {
        for extra in [0usize, 1, 2, 5, 11] {
            c.case(format!("gen/w18/{mssg}x{}", mssg + extra), if extra == 0 { "square" } else { "wide" }, |rng| check_gen::<18>(mssg, mssg + extra, rng, th));
            if mssg + extra < 16 {
                c.case(format!("gen/w4/{mssg}x{}", mssg + extra), "w4", |rng| check_gen::<4>(mssg, mssg + extra, rng, th));
            }
        }
    }
    c.case("gen/w8/12x255".into(), "full-length", |rng| check_gen::<8>(12, 255, rng, th));
    c.case("gen/w3/3x7".into(), "full-length", |rng| check_gen::<3>(3, 7, rng, th));
    for k in 0..12 {
        c.case(format!("binfile/{k}"), "binary-file", |rng| {
            let rows = rng.gen_range(1..9usize);
            let cols = rng.gen_range(1..9usize);
            let m: Vec<Vec<u8>> = (0..rows).map(|_| (0..cols).map(|_| rng.gen_range(0..2)).collect()).collect();
            let text: Vec<String> = m.iter().map(|r| r.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ")).collect();
            let p = crate::sim::scratch_file("mat", &(text.join("\n") + if rng.gen() { "\n" } else { "" }));
            let got = math::binary_super_inv_matrix::<18>(&p);
            let _ = std::fs::remove_file(&p);
            ens!(got.shape() == [cols, rows], "{rows}x{cols} file loads as {:?}", got.shape());
            for i in 0..rows {
                for j in 0..cols {
                    ens!(u(got[[j, i]]) == m[i][j] as u32, "entry ({i},{j}) of the file loads as {}", u(got[[j, i]]));
                }
            }
            Ok(())
        });
    }
    c.case("binfile/reject".into(), "binary-file", |_| {
        for bad in ["0 1\n2 0\n", "0 1\nx 0\n", "0 1 1\n0 1\n"] {
            let p = crate::sim::scratch_file("mat", bad);
            let r = std::panic::catch_unwind(|| math::binary_super_inv_matrix::<18>(&p));
            let _ = std::fs::remove_file(&p);
            ens!(r.is_err(), "malformed matrix file {bad:?} accepted");
        }
        Ok(())
    });
}

pub fn combination(c: &mut Ctx) {
    let _ = std::io::stdout().flush();
    for k in 0..60 {
        c.case(format!("map/{k}"), "map", |rng| {
            let n = rng.gen_range(1..12usize);
            let m = if k < 3 { 0 } else { rng.gen_range(0..15usize) };
            let map: Vec<usize> = (0..m).map(|_| rng.gen_range(0..n)).collect();
            let inp: Vec<u64> = (0..n).map(|_| rng.gen()).collect();
            let s = Combination::new(map.clone());
            ens!(s.len() == m, "length {}", s.len());
            let exp: Vec<u64> = map.iter().map(|&i| inp[i]).collect();
            ens!(s.apply(ArrayView1::from(&inp)) == exp, "selection {map:?} of {inp:?}");
            ens!(s.clone().apply(ArrayView1::from(&inp)) == exp, "cloned selection {map:?}");
            // Strided and reversed views select by logical index.
            let big = Array1::from_vec(inp.iter().flat_map(|&x| [x, 0]).collect::<Vec<u64>>());
            ens!(s.apply(big.slice(ndarray::s![..;2])) == exp, "selection through a strided view");
            Ok(())
        });
        c.case(format!("infer/{k}"), "infer", |rng| {
            let n = rng.gen_range(1..10usize);
            let mut inp: Vec<u32> = (0..40).collect();
            inp.shuffle(rng);
            inp.truncate(n);
            // Entries may occur more than once in the example input.
            let repeated = k % 4 == 1;
            if repeated {
                inp.iter_mut().for_each(|v| *v %= 5);
            }
            if k % 3 == 0 {
                inp.sort_unstable();
            }
            let m = rng.gen_range(0..14usize);
            let out: Vec<u32> = (0..m).map(|_| inp[rng.gen_range(0..n)]).collect();
            let s = Combination::from_instance(&inp, &out);
            ens!(s.len() == m, "inferred length {}", s.len());
            ens!(s.apply(ArrayView1::from(&inp)) == out, "selection inferred from {inp:?} -> {out:?} gives {:?}", s.apply(ArrayView1::from(&inp)));
            if repeated {
                return Ok(());
            }
            let other: Vec<u64> = (0..n).map(|_| rng.gen()).collect();
            let exp: Vec<u64> = out.iter().map(|o| other[inp.iter().position(|i| i == o).unwrap()]).collect();
            ens!(s.apply(ArrayView1::from(&other)) == exp, "selection inferred from {inp:?} -> {out:?} applied to other data");
            Ok(())
        });
    }
}
