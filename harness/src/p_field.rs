use crate::ctx::Ctx;
use crate::ens;
use crate::oracle::*;
use num::*;
use rand::Rng;
use scalable_mpc::math::galois::GF;

mod num {
    pub use rand::rngs::StdRng;
}

macro_rules! widths {
    ($c:expr, $f:ident, [$($w:literal),*]) => { $( $f::<$w>($c); )* };
}

/// All operator forms of one binary operation.
fn forms<const W: u8>(a: GF<W>, b: GF<W>) -> [[u32; 6]; 4] {
    let assign = |f: &dyn Fn(&mut GF<W>)| {
        let mut x = a;
        f(&mut x);
        u(x)
    };
    [
        [u(a + b), u(a + &b), u(&a + b), u(&a + &b), assign(&|x| *x += b), assign(&|x| *x += &b)],
        [u(a - b), u(a - &b), u(&a - b), u(&a - &b), assign(&|x| *x -= b), assign(&|x| *x -= &b)],
        [u(a * b), u(a * &b), u(&a * b), u(&a * &b), assign(&|x| *x *= b), assign(&|x| *x *= &b)],
        if u(b) == 0 { [0; 6] } else {
            [u(a / b), u(a / &b), u(&a / b), u(&a / &b), assign(&|x| *x /= b), assign(&|x| *x /= &b)]
        },
    ]
}

fn check_pair<const W: u8>(f: &Field, x: u32, y: u32) -> Result<(), String> {
    let r = forms::<W>(g(x), g(y));
    let exp = [x ^ y, x ^ y, f.mul(x, y), if y == 0 { 0 } else { f.div(x, y) }];
    let names = ["+", "-", "*", "/"];
    for k in 0..4 {
        ens!(r[k] == [exp[k]; 6], "GF(2^{W}): {x} {} {y} must be {} in every operator form, got {:?}", names[k], exp[k], r[k]);
    }
    Ok(())
}

fn laws<const W: u8>(c: &mut Ctx) {
    c.case(format!("laws/w{W}"), &format!("w{W}"), |rng: &mut StdRng| {
        let f = field::<W>();
        ens!(u(GF::<W>::ZERO) == 0 && u(GF::<W>::ONE) == 1 % f.order.max(2), "neutral elements");
        ens!(GF::<W>::ORDER == f.order, "order");
        if W <= 6 {
            for x in 0..f.order {
                for y in 0..f.order {
                    check_pair::<W>(&f, x, y)?;
                }
            }
        } else {
            // Every element against the generator-like small constants (covers every table entry),
            // then pairs drawn from boundary values and at random.
            let all = f.order;
            for i in 0..all {
                let x = i;
                check_pair::<W>(&f, x, 2)?;
                let y = f.rnd(rng).max(1);
                check_pair::<W>(&f, y, x)?;
            }
            let edge = [0, 1, 2, 3, f.order / 2, f.order / 2 - 1, f.order - 2, f.order - 1, f.inv(2), f.inv(3)];
            for &x in &edge {
                for &y in &edge {
                    check_pair::<W>(&f, x, y)?;
                }
            }
        }
        Ok(())
    });
    // Exhaustive in one operand for the production width.
    if W == 18 {
        c.case("table/w18".into(), "w18-exhaustive", |_| {
            let f = field::<18>();
            let y = g::<18>(f.order - 1);
            for x in 0..f.order {
                ens!(u(g::<18>(x) * y) == f.mul(x, f.order - 1), "{x} * {}", f.order - 1);
                if x > 0 {
                    ens!(u(g::<18>(x) * (GF::<18>::ONE / g::<18>(x))) == 1, "{x} * (1/{x}) must be 1");
                    ens!(u(g::<18>(x) / g::<18>(2)) == f.div(x, 2), "{x} / 2");
                }
            }
            Ok(())
        });
    }
}

pub fn field_laws(c: &mut Ctx) {
    widths!(c, laws, [18, 3, 4, 5, 6, 2, 8, 7, 10, 12, 16, 9, 11, 13, 14, 15, 17, 19, 20]);
}

pub fn init(c: &mut Ctx) {
    // Each case runs in its own process so that the one-time initialisation really is exercised.
    let mut orders: Vec<Vec<u8>> = vec![vec![18], vec![18, 18, 18], vec![8, 18], vec![18, 8], vec![3, 4, 5, 6], vec![6, 5, 4, 3], vec![4, 18, 4, 10, 16], vec![16, 8, 16], vec![12, 3]];
    // Every width whose tables take at most one gigabyte.
    orders.push((1..=20).collect());
    orders.extend((21..=26).map(|w| vec![w]));
    for (i, o) in orders.iter().enumerate() {
        for conc in [false, true] {
            if conc && o[0] > 20 {
                continue;
            }
            let name = format!("order{i}/{}", if conc { "concurrent" } else { "sequential" });
            c.case(name, if conc { "concurrent" } else { "sequential" }, |_| {
                let exe = std::env::current_exe().unwrap();
                let list: Vec<String> = o.iter().map(|x| x.to_string()).collect();
                let out = std::process::Command::new(exe)
                    .env("VH_INIT_CHILD", list.join(","))
                    .env("VH_INIT_CONC", if conc { "1" } else { "0" })
                    .args(["C02child"])
                    .output()
                    .unwrap();
                ens!(out.status.success(), "initialising widths {o:?} ({}) then using each: {}", if conc { "concurrently" } else { "in order" }, String::from_utf8_lossy(&out.stdout).trim());
                Ok(())
            });
        }
    }
}

pub fn init_child() -> ! {
    fn one<const W: u8>() -> Result<(), String> {
        if GF::<W>::init().is_err() {
            return Err(format!("init failed for width {W}"));
        }
        Ok(())
    }
    fn usew<const W: u8>() -> Result<(), String> {
        let poly = if W > 1 { u(g::<W>(1 << (W - 1)) * g::<W>(2)) } else { 0 };
        for (a, b) in [(3u32, 5u32), (7, 6), ((1 << W) - 1, 3), (1, (1 << W) - 2), (1, 1)] {
            if a >> W != 0 || b >> W != 0 || b == 0 {
                continue;
            }
            let e = shift_mul(a, b, W as u32, poly);
            let r = u(g::<W>(a) * g::<W>(b));
            if e != r {
                return Err(format!("width {W}: {a}*{b} = {r}, expected {e}"));
            }
            if u((g::<W>(a) * g::<W>(b)) / g::<W>(b)) != a {
                return Err(format!("width {W}: {a}*{b}/{b} != {a}"));
            }
        }
        Ok(())
    }
    macro_rules! pick {
        ($w:expr, $f:ident) => {
            match $w { 1 => $f::<1>(), 2 => $f::<2>(), 3 => $f::<3>(), 4 => $f::<4>(), 5 => $f::<5>(), 6 => $f::<6>(), 7 => $f::<7>(), 8 => $f::<8>(), 9 => $f::<9>(), 10 => $f::<10>(), 11 => $f::<11>(), 12 => $f::<12>(), 13 => $f::<13>(), 14 => $f::<14>(), 15 => $f::<15>(), 16 => $f::<16>(), 17 => $f::<17>(), 18 => $f::<18>(), 19 => $f::<19>(), 20 => $f::<20>(), 21 => $f::<21>(), 22 => $f::<22>(), 23 => $f::<23>(), 24 => $f::<24>(), 25 => $f::<25>(), 26 => $f::<26>(), _ => Err("width".into()) }
        };
    }
    let ws: Vec<u8> = std::env::var("VH_INIT_CHILD").unwrap().split(',').map(|x| x.parse().unwrap()).collect();
    let conc = std::env::var("VH_INIT_CONC").unwrap() == "1";
    let run = |w: u8| -> Result<(), String> {
        pick!(w, one)?;
        pick!(w, usew)
    };
    let mut res: Result<(), String> = Ok(());
    if conc {
        let hs: Vec<_> = ws.iter().chain(ws.iter()).map(|&w| std::thread::spawn(move || {
            let r = pick!(w, one);
            r.and_then(|_| pick!(w, usew))
        })).collect();
        for h in hs {
            res = res.and(h.join().unwrap_or(Err("panic".into())));
        }
    } else {
        for &w in &ws {
            res = res.and(run(w));
        }
    }
    // Everything still works after all initialisations.
    for &w in &ws {
        res = res.and(pick!(w, usew));
    }
    match res {
        Ok(()) => std::process::exit(0),
        Err(m) => {
            println!("{m}");
            std::process::exit(1)
        }
    }
}

fn canon<const W: u8>(c: &mut Ctx) {
    c.case(format!("from_u32/w{W}"), &format!("w{W}"), |rng: &mut StdRng| {
        GF::<W>::init().unwrap();
        let order = 1u64 << W;
        let mut vals: Vec<u32> = (0..order.min(1 << 12) as u32).collect();
        vals.extend([order as u32 - 1, order as u32 / 2]);
        for v in vals {
            ens!(u(g::<W>(v)) == v, "an integer below the field size must convert to itself: {v} -> {}", u(g::<W>(v)));
        }
        // Integers outside the field must still give field elements.
        let mut big: Vec<u32> = vec![order as u32, order as u32 + 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1];
        for _ in 0..200 {
            big.push(rng.gen());
        }
        for v in big {
            let e = u(g::<W>(v));
            ens!((e as u64) < order, "integer {v} converts to {e}, which is not an element of GF(2^{W})");
        }
        Ok(())
    });
    c.case(format!("rand/w{W}"), &format!("rand-w{W}"), |rng: &mut StdRng| {
        let order = 1u64 << W;
        let mut hi = 0u32;
        let mut seen = 0u32;
        let mut and = u32::MAX;
        for _ in 0..4000 {
            let e = u(GF::<W>::rand(rng));
            ens!((e as u64) < order, "sampled {e}, which is not an element of GF(2^{W})");
            hi = hi.max(e);
            seen |= e;
            and &= e;
        }
        // Every bit takes both values (fails with probability 2^-3999 per bit for uniform samples).
        ens!(seen as u64 == order - 1 && and == 0, "samples never reach all of GF(2^{W}): or={seen:#x} and={and:#x}");
        Ok(())
    });
    // All residues occur with the right frequency when the field is tiny.
    if W <= 4 {
        c.case(format!("uniform/w{W}"), &format!("uniform-w{W}"), |rng: &mut StdRng| {
            let k = 1usize << W;
            let mut h = vec![0u64; k];
            let total = 4000 * k as u64;
            for _ in 0..total {
                let e = u(GF::<W>::rand(rng)) as usize;
                ens!(e < k, "sampled {e} outside GF(2^{W})");
                h[e] += 1;
            }
            for (e, &n) in h.iter().enumerate() {
                ens!((n as i64 - 4000).abs() < 1200, "element {e} sampled {n} times out of {total}");
            }
            Ok(())
        });
    }
}

pub fn canonical(c: &mut Ctx) {
    widths!(c, canon, [18, 3, 4, 8, 16, 12, 5, 10, 2, 20, 6, 7, 9, 11, 13, 14, 15, 17, 19]);
}

fn enc<const W: u8>(c: &mut Ctx) {
    let nb = (W as usize + 7) / 8;
    c.case(format!("roundtrip/w{W}"), &format!("w{W}"), |rng: &mut StdRng| {
        GF::<W>::init().unwrap();
        let order = 1u32 << W;
        ens!(GF::<W>::NUM_BYTES == nb, "declared size {}", GF::<W>::NUM_BYTES);
        let mut vals: Vec<u32> = (0..order.min(600)).collect();
        vals.extend([order - 1, order / 2, order - 2]);
        for _ in 0..400 {
            vals.push(rng.gen_range(0..order));
        }
        for &v in &vals {
            let b = bincode::serialize(&g::<W>(v)).unwrap();
            ens!(b.len() == nb, "{v} encodes to {} bytes, expected {nb}", b.len());
            let d: GF<W> = bincode::deserialize(&b).map_err(|e| format!("decoding the encoding of {v}: {e}"))?;
            ens!(u(d) == v, "{v} decodes to {}", u(d));
        }
        // Vectors of elements: fixed overhead, order preserved.
        for len in [0usize, 1, 2, 3, 7, 64] {
            let v: Vec<GF<W>> = (0..len).map(|_| g::<W>(rng.gen_range(0..order))).collect();
            let b = bincode::serialize(&v).unwrap();
            ens!(b.len() == 8 + nb * len, "vector of {len} encodes to {} bytes", b.len());
            let b2 = bincode::serialize(v.as_slice()).unwrap();
            ens!(b == b2, "slice and vector encodings differ");
            let d: Vec<GF<W>> = bincode::deserialize(&b).unwrap();
            ens!(d == v, "vector of {len} elements changed in transit");
        }
        Ok(())
    });
    c.case(format!("decode/w{W}"), &format!("decode-w{W}"), |rng: &mut StdRng| {
        // Any byte string either decodes to an element of the field or is rejected.
        let order = 1u64 << W;
        let mut inputs: Vec<Vec<u8>> = vec![vec![0; nb], vec![0xff; nb], vec![0x80; nb], vec![], vec![1; nb - 1]];
        for _ in 0..300 {
            inputs.push((0..nb).map(|_| rng.gen()).collect());
        }
        for b in inputs {
            let full = b.len() >= nb;
            let raw = b.iter().take(nb).enumerate().fold(0u64, |a, (i, &x)| a | (x as u64) << (8 * i));
            match bincode::deserialize::<GF<W>>(&b) {
                Ok(e) => {
                    ens!(full, "short input {b:?} accepted");
                    ens!((u(e) as u64) < order, "{b:?} decodes to {}, not an element of GF(2^{W})", u(e));
                    ens!(raw >= order || u(e) as u64 == raw, "{b:?} decodes to {}", u(e));
                }
                Err(_) => ens!(!full || raw >= order, "valid encoding {b:?} rejected"),
            }
        }
        // Formats that carry their own sequence lengths.
        for len in 0..nb + 2 {
            let v: Vec<u8> = (0..len).map(|i| if i + 1 < nb { rng.gen() } else { 0 }).collect();
            let text = serde_json::to_string(&v).unwrap();
            match serde_json::from_str::<GF<W>>(&text) {
                Ok(e) => ens!(len == nb && (u(e) as u64) < order && v.iter().enumerate().fold(0u64, |a, (i, &x)| a | (x as u64) << (8 * i)) == u(e) as u64, "sequence {text} decodes to {}", u(e)),
                Err(m) => ens!(len != nb, "sequence {text} rejected: {m}"),
            }
        }
        Ok(())
    });
}

pub fn encoding(c: &mut Ctx) {
    widths!(c, enc, [18, 8, 3, 16, 4, 12, 17, 9, 5, 20, 10, 7, 6, 2, 19, 15, 14, 13, 11]);
}
