//! Reference mathematics, written independently of the code under verification.
use rand::Rng;
use scalable_mpc::math::galois::GF;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn u<const W: u8>(x: GF<W>) -> u32 {
    x.into()
}

pub fn g<const W: u8>(x: u32) -> GF<W> {
    GF::from(x)
}

/// Carry-less product of a and b modulo the polynomial x^w + poly.
pub fn shift_mul(a: u32, b: u32, w: u32, poly: u32) -> u32 {
    let mut a = a as u64;
    let full = (1u64 << w) | poly as u64;
    let mut r = 0u64;
    let mut b = b;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a >> w & 1 == 1 {
            a ^= full;
        }
        b >>= 1;
    }
    r as u32
}

/// Binary field given by a reduction polynomial, with its own tables.
pub struct Field {
    pub w: u32,
    pub order: u32,
    log: Vec<u32>,
    exp: Vec<u32>,
}

impl Field {
    /// Tables from any generator of the multiplicative group; None if x^w+poly is not irreducible.
    pub fn build(w: u32, poly: u32) -> Option<Field> {
        let order = 1u32 << w;
        if w == 1 {
            return Some(Field { w, order, log: vec![0, 0], exp: vec![1, 1, 1] });
        }
        'gen: for gcand in 2..order {
            let mut exp = Vec::with_capacity(2 * order as usize);
            let mut log = vec![u32::MAX; order as usize];
            let mut x = 1u32;
            for k in 0..order - 1 {
                if log[x as usize] != u32::MAX {
                    if gcand > 64 {
                        return None;
                    }
                    continue 'gen;
                }
                log[x as usize] = k;
                exp.push(x);
                x = shift_mul(x, gcand, w, poly);
                if x == 0 {
                    return None;
                }
            }
            if x != 1 {
                return None;
            }
            let e2 = exp.clone();
            exp.extend(e2);
            return Some(Field { w, order, log, exp });
        }
        None
    }
    pub fn mul(&self, a: u32, b: u32) -> u32 {
        if a == 0 || b == 0 {
            return 0;
        }
        self.exp[(self.log[a as usize] + self.log[b as usize]) as usize]
    }
    pub fn inv(&self, a: u32) -> u32 {
        assert!(a != 0);
        let n = self.order - 1;
        self.exp[((n - self.log[a as usize]) % n) as usize]
    }
    pub fn div(&self, a: u32, b: u32) -> u32 {
        self.mul(a, self.inv(b))
    }
    pub fn pow(&self, a: u32, k: u64) -> u32 {
        let mut r = 1;
        for _ in 0..k {
            r = self.mul(r, a);
        }
        r
    }
    pub fn dot(&self, a: &[u32], b: &[u32]) -> u32 {
        assert_eq!(a.len(), b.len());
        a.iter().zip(b).fold(0, |s, (&x, &y)| s ^ self.mul(x, y))
    }
    /// Value at x of the polynomial of degree < pts.len() through pts.
    pub fn interp(&self, pts: &[(u32, u32)], x: u32) -> u32 {
        let mut acc = 0;
        for (i, &(xi, yi)) in pts.iter().enumerate() {
            if yi == 0 {
                continue;
            }
            let mut num = 1;
            let mut den = 1;
            for (j, &(xj, _)) in pts.iter().enumerate() {
                if i != j {
                    num = self.mul(num, x ^ xj);
                    den = self.mul(den, xi ^ xj);
                }
            }
            acc ^= self.mul(yi, self.div(num, den));
        }
        acc
    }
    pub fn eval(&self, coeffs: &[u32], x: u32) -> u32 {
        coeffs.iter().rev().fold(0, |acc, &c| self.mul(acc, x) ^ c)
    }
    pub fn rank(&self, mut m: Vec<Vec<u32>>) -> usize {
        let rows = m.len();
        if rows == 0 {
            return 0;
        }
        let cols = m[0].len();
        let mut r = 0;
        for c in 0..cols {
            if let Some(p) = (r..rows).find(|&i| m[i][c] != 0) {
                m.swap(r, p);
                let iv = self.inv(m[r][c]);
                for j in 0..cols {
                    m[r][j] = self.mul(m[r][j], iv);
                }
                for i in 0..rows {
                    if i != r && m[i][c] != 0 {
                        let f = m[i][c];
                        for j in 0..cols {
                            let v = self.mul(f, m[r][j]);
                            m[i][j] ^= v;
                        }
                    }
                }
                r += 1;
                if r == rows {
                    break;
                }
            }
        }
        r
    }
    pub fn rnd<R: Rng>(&self, rng: &mut R) -> u32 {
        rng.gen_range(0..self.order)
    }

    /// Random sharing for evaluation points 0..n of a polynomial of degree at most d taking the
    /// given values at the given positions.
    pub fn share<R: Rng>(&self, d: usize, n: usize, fixed: &[(u32, u32)], rng: &mut R) -> Vec<u32> {
        assert!(fixed.len() <= d + 1);
        let mut pts = fixed.to_vec();
        let mut x = 0u32;
        while pts.len() < d + 1 {
            if !fixed.iter().any(|p| p.0 == x) {
                pts.push((x, self.rnd(rng)));
            }
            x += 1;
        }
        (0..n as u32).map(|i| match pts.iter().find(|p| p.0 == i) {
            Some(p) => p.1,
            None => self.interp(&pts, i),
        }).collect()
    }

    /// Opens a sharing claimed to have degree at most d; None if it does not.
    pub fn open(&self, d: usize, shares: &[u32], pos: &[u32]) -> Option<Vec<u32>> {
        let pts: Vec<(u32, u32)> = shares.iter().take(d + 1).enumerate().map(|(i, &y)| (i as u32, y)).collect();
        for (i, &y) in shares.iter().enumerate().skip(d + 1) {
            if self.interp(&pts, i as u32) != y {
                return None;
            }
        }
        Some(pos.iter().map(|&x| match pts.iter().find(|p| p.0 == x) {
            Some(p) => p.1,
            None => self.interp(&pts, x),
        }).collect())
    }
}

thread_local! { static CACHE: RefCell<HashMap<u32, Rc<Field>>> = RefCell::new(HashMap::new()); }

/// The reference field that the implementation claims to be: its reduction polynomial is read off
/// one product (x^(w-1) * x); everything else is checked against this.
pub fn field<const W: u8>() -> Rc<Field> {
    GF::<W>::init().unwrap();
    let w = W as u32;
    if let Some(f) = CACHE.with(|c| c.borrow().get(&w).cloned()) {
        return f;
    }
    let poly = if W == 1 { 1 } else { u(g::<W>(1 << (w - 1)) * g::<W>(2)) };
    let f = Rc::new(Field::build(w, poly).expect("the implemented multiplication is not that of a field"));
    CACHE.with(|c| c.borrow_mut().insert(w, f.clone()));
    f
}
