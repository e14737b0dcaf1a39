//! Integer polynomials over atoms (symbolic inputs and floor quotients).
use std::collections::HashMap;
pub type I = bnum::BInt<14>;

pub fn i(v: u128) -> I {
    I::from(v)
}
pub fn add(a: I, b: I) -> I {
    a.checked_add(b).unwrap_or_else(|| crate::engine::incomplete("big integer width exceeded"))
}
pub fn sub(a: I, b: I) -> I {
    a.checked_sub(b).unwrap_or_else(|| crate::engine::incomplete("big integer width exceeded"))
}
pub fn mul(a: I, b: I) -> I {
    if a.is_zero() || b.is_zero() {
        return I::ZERO;
    }
    if a == I::ONE {
        return b;
    }
    if b == I::ONE {
        return a;
    }
    a.checked_mul(b).unwrap_or_else(|| crate::engine::incomplete("big integer width exceeded"))
}
pub fn gcd(a: I, b: I) -> I {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
pub fn div_floor(a: I, b: I) -> I {
    let q = a / b;
    if (a % b) != I::ZERO && (a.is_negative() != b.is_negative()) {
        q - I::ONE
    } else {
        q
    }
}

pub type Mono = Vec<u32>; // sorted atom ids with repetition; empty = 1

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct Poly(pub Vec<(Mono, I)>); // sorted by monomial, no zero coefficients

impl Poly {
    pub fn zero() -> Self {
        Poly(vec![])
    }
    pub fn konst(c: I) -> Self {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], c)])
        }
    }
    pub fn atom(a: u32) -> Self {
        Poly(vec![(vec![a], I::ONE)])
    }
    pub fn as_const(&self) -> Option<I> {
        match self.0.len() {
            0 => Some(I::ZERO),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn constant_part(&self) -> I {
        match self.0.first() {
            Some((m, c)) if m.is_empty() => *c,
            _ => I::ZERO,
        }
    }
    pub fn without_const(&self) -> Poly {
        match self.0.first() {
            Some((m, _)) if m.is_empty() => Poly(self.0[1..].to_vec()),
            _ => self.clone(),
        }
    }
    pub fn combine(&self, o: &Poly, k: I) -> Poly {
        // self + k*o
        let mut out = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut x, mut y) = (0, 0);
        while x < self.0.len() || y < o.0.len() {
            let ord = if x == self.0.len() {
                std::cmp::Ordering::Greater
            } else if y == o.0.len() {
                std::cmp::Ordering::Less
            } else {
                mono_cmp(&self.0[x].0, &o.0[y].0)
            };
            match ord {
                std::cmp::Ordering::Less => {
                    out.push(self.0[x].clone());
                    x += 1;
                }
                std::cmp::Ordering::Greater => {
                    out.push((o.0[y].0.clone(), mul(o.0[y].1, k)));
                    y += 1;
                }
                std::cmp::Ordering::Equal => {
                    let c = add(self.0[x].1, mul(o.0[y].1, k));
                    if !c.is_zero() {
                        out.push((self.0[x].0.clone(), c));
                    }
                    x += 1;
                    y += 1;
                }
            }
        }
        Poly(out)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.combine(o, I::ONE)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.combine(o, I::NEG_ONE)
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), -*c)).collect())
    }
    pub fn scale(&self, k: I) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), mul(*c, k))).collect())
    }
    pub fn addc(&self, k: I) -> Poly {
        self.add(&Poly::konst(k))
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_const() {
            return o.scale(c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(c);
        }
        if self.0.len() * o.0.len() > 4000 {
            crate::engine::incomplete("polynomial too large");
        }
        let mut m: HashMap<Mono, I> = HashMap::new();
        for (a, ca) in &self.0 {
            for (b, cb) in &o.0 {
                let mut k = a.clone();
                k.extend_from_slice(b);
                k.sort_unstable();
                let e = m.entry(k).or_insert(I::ZERO);
                *e = add(*e, mul(*ca, *cb));
            }
        }
        let mut v: Vec<(Mono, I)> = m.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        v.sort_by(|a, b| mono_cmp(&a.0, &b.0));
        Poly(v)
    }
    /// gcd of the coefficients of the non-constant terms (0 if there are none)
    pub fn content(&self) -> I {
        let mut g = I::ZERO;
        for (m, c) in &self.0 {
            if !m.is_empty() {
                g = gcd(g, *c);
                if g == I::ONE {
                    break;
                }
            }
        }
        g
    }
    pub fn div_exact(&self, g: I) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), *c / g)).collect())
    }
    /// Exact polynomial quotient, if one exists.
    pub fn try_div(&self, d: &Poly) -> Option<Poly> {
        let (lm, lc) = d.0.last()?;
        let mut rest = self.clone();
        let mut q = Poly::zero();
        let mut steps = 0;
        while let Some((m, c)) = rest.0.last() {
            steps += 1;
            if steps > 64 {
                return None;
            }
            let qm = mono_div(m, lm)?;
            if !(*c % *lc).is_zero() {
                return None;
            }
            let t = Poly(vec![(qm, *c / *lc)]);
            let p = t.mul(d);
            let before = rest.0.last().map(|x| x.0.clone());
            rest = rest.sub(&p);
            if let (Some((a, _)), Some(b)) = (rest.0.last(), before) {
                if mono_cmp(a, &b) != std::cmp::Ordering::Less {
                    return None;
                }
            }
            q = q.add(&t);
        }
        Some(q)
    }
    pub fn atoms(&self, out: &mut Vec<u32>) {
        for (m, _) in &self.0 {
            out.extend_from_slice(m);
        }
    }
}

/// graded order; an admissible monomial order
pub fn mono_cmp(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    a.len().cmp(&b.len()).then_with(|| b.cmp(a))
}

pub fn mono_div(m: &Mono, d: &Mono) -> Option<Mono> {
    let mut out = Vec::with_capacity(m.len());
    let mut j = 0;
    for &a in m {
        if j < d.len() && d[j] == a {
            j += 1;
        } else {
            out.push(a);
        }
    }
    if j == d.len() {
        Some(out)
    } else {
        None
    }
}
