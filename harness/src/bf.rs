//! Arbitrary-precision reference arithmetic: binary floating point numbers of P bits on big integers, and the elementary
//! functions on them. Written from the series, shares nothing with libm.

use num::bigint::BigInt;
use num::{One, Signed, ToPrimitive, Zero};

const P: u64 = 176;

#[derive(Clone, Debug)]
pub struct Bf {
    m: BigInt,
    e: i64,
}

fn shr_round(m: &BigInt, n: u64) -> BigInt {
    // arithmetic shift right, rounding to nearest
    if n == 0 {
        return m.clone();
    }
    let half = BigInt::one() << (n - 1) as usize;
    (m + half) >> n as usize
}

impl Bf {
    pub fn new(m: BigInt, e: i64) -> Bf {
        let b = m.bits();
        if b > P {
            let d = b - P;
            Bf { m: shr_round(&m, d), e: e + d as i64 }
        } else {
            Bf { m, e }
        }
    }
    pub fn int(i: i64) -> Bf {
        Bf { m: BigInt::from(i), e: 0 }
    }
    /// exact
    pub fn f64(x: f64) -> Bf {
        assert!(x.is_finite());
        let b = x.to_bits();
        let ex = (b >> 52 & 0x7FF) as i64;
        let fr = (b & ((1 << 52) - 1)) as i64;
        let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | 1 << 52, ex - 1075) };
        Bf { m: BigInt::from(if x < 0.0 { -m } else { m }), e }
    }
    pub fn zero(&self) -> bool {
        self.m.is_zero()
    }
    pub fn neg(&self) -> Bf {
        Bf { m: -&self.m, e: self.e }
    }
    pub fn abs(&self) -> Bf {
        Bf { m: self.m.abs(), e: self.e }
    }
    pub fn is_neg(&self) -> bool {
        self.m.is_negative()
    }
    /// floor(log2 |x|) + 1
    pub fn mag(&self) -> i64 {
        self.m.bits() as i64 + self.e
    }
    pub fn mul(&self, o: &Bf) -> Bf {
        Bf::new(&self.m * &o.m, self.e + o.e)
    }
    pub fn add(&self, o: &Bf) -> Bf {
        if self.zero() {
            return o.clone();
        }
        if o.zero() {
            return self.clone();
        }
        let (a, b) = if self.e >= o.e { (self, o) } else { (o, self) };
        let d = a.e - b.e;
        if a.mag() - b.mag() > 3 * P as i64 {
            return a.clone();
        }
        if b.mag() - a.mag() > 3 * P as i64 {
            return b.clone();
        }
        Bf::new((&a.m << d as usize) + &b.m, b.e)
    }
    pub fn sub(&self, o: &Bf) -> Bf {
        self.add(&o.neg())
    }
    pub fn div(&self, o: &Bf) -> Bf {
        assert!(!o.zero());
        let s = (P + 2 + o.m.bits()).saturating_sub(self.m.bits()) + 2;
        Bf::new((&self.m << s as usize) / &o.m, self.e - s as i64 - o.e)
    }
    pub fn scale(&self, n: i64) -> Bf {
        Bf { m: self.m.clone(), e: self.e + n }
    }
    pub fn sqrt(&self) -> Bf {
        assert!(!self.is_neg());
        if self.zero() {
            return self.clone();
        }
        let mut s = (2 * P + 4).saturating_sub(self.m.bits()) as i64;
        if (self.e - s) & 1 != 0 {
            s += 1;
        }
        Bf::new((&self.m << s as usize).sqrt(), (self.e - s) / 2)
    }
    pub fn lt(&self, o: &Bf) -> bool {
        self.sub(o).is_neg()
    }
    pub fn le(&self, o: &Bf) -> bool {
        !o.sub(self).is_neg()
    }
    /// nearest integer
    pub fn round(&self) -> BigInt {
        if self.e >= 0 {
            &self.m << self.e as usize
        } else if self.mag() < -1 {
            BigInt::zero()
        } else {
            shr_round(&self.m, (-self.e) as u64)
        }
    }
    /// for messages: not rounded correctly
    pub fn approx(&self) -> f64 {
        let b = self.m.bits() as i64;
        let d = (b - 60).max(0);
        let m = (&self.m >> d as usize).to_f64().unwrap();
        let e = self.e + d;
        if e > 2000 {
            return m * f64::INFINITY;
        }
        if e < -2000 {
            return 0.0;
        }
        // in two steps, so that neither factor leaves the range
        m * 2f64.powi((e / 2) as i32) * 2f64.powi((e - e / 2) as i32)
    }
}

fn cached(slot: &'static std::thread::LocalKey<std::cell::RefCell<Option<Bf>>>, f: impl FnOnce() -> Bf) -> Bf {
    slot.with(|c| {
        if let Some(v) = c.borrow().as_ref() {
            return v.clone();
        }
        let v = f();
        *c.borrow_mut() = Some(v.clone());
        v
    })
}
thread_local! {
    static LN2: std::cell::RefCell<Option<Bf>> = const { std::cell::RefCell::new(None) };
    static LN10: std::cell::RefCell<Option<Bf>> = const { std::cell::RefCell::new(None) };
    static PI: std::cell::RefCell<Option<Bf>> = const { std::cell::RefCell::new(None) };
    static PI_BIG: std::cell::RefCell<Option<BigInt>> = const { std::cell::RefCell::new(None) };
}
const PI_BITS: u64 = 1700;

/// pi * 2^PI_BITS by Machin's formula
fn pi_big() -> BigInt {
    PI_BIG.with(|c| {
        if let Some(v) = c.borrow().as_ref() {
            return v.clone();
        }
        let guard = 64;
        let one = BigInt::one() << (PI_BITS + guard) as usize;
        let atan_inv = |n: u64| {
            let mut t = &one / n;
            let mut s = t.clone();
            let n2 = BigInt::from(n * n);
            let mut k = 1u64;
            loop {
                t = -t / &n2;
                let d = &t / (2 * k + 1);
                if d.is_zero() {
                    break;
                }
                s += d;
                k += 1;
            }
            s
        };
        let v: BigInt = (atan_inv(5) * 16 - atan_inv(239) * 4) >> guard as usize;
        *c.borrow_mut() = Some(v.clone());
        v
    })
}
pub fn pi() -> Bf {
    cached(&PI, || Bf::new(pi_big(), -(PI_BITS as i64)))
}
pub fn e() -> Bf {
    exp(&Bf::int(1))
}
fn atanh_series(z: &Bf) -> Bf {
    let z2 = z.mul(z);
    let mut p = z.clone();
    let mut s = z.clone();
    let mut k = 3;
    while !z.zero() {
        p = p.mul(&z2);
        let t = p.div(&Bf::int(k));
        if t.zero() || t.mag() < s.mag() - P as i64 - 4 {
            break;
        }
        s = s.add(&t);
        k += 2;
    }
    s
}
fn ln2() -> Bf {
    cached(&LN2, || atanh_series(&Bf::int(1).div(&Bf::int(3))).scale(1))
}
pub fn ln10() -> Bf {
    cached(&LN10, || ln(&Bf::int(10)))
}
pub fn ln(x: &Bf) -> Bf {
    assert!(!x.is_neg() && !x.zero());
    // m in [0.75, 1.5)
    let mut k = x.mag();
    let mut m = x.scale(-k);
    if m.lt(&Bf::int(3).scale(-2)) {
        m = m.scale(1);
        k -= 1;
    }
    let one = Bf::int(1);
    let l = atanh_series(&m.sub(&one).div(&m.add(&one))).scale(1);
    if k == 0 {
        l
    } else {
        l.add(&ln2().mul(&Bf::int(k)))
    }
}
/// |x| must be moderate (the caller handles overflow)
pub fn exp(x: &Bf) -> Bf {
    if x.zero() {
        return Bf::int(1);
    }
    let k = x.div(&ln2()).round().to_i64().expect("exp argument");
    let r = x.sub(&ln2().mul(&Bf::int(k)));
    let r = r.scale(-8);
    let mut t = Bf::int(1);
    let mut s = Bf::int(1);
    let mut n = 1;
    while !r.zero() {
        t = t.mul(&r).div(&Bf::int(n));
        if t.zero() || t.mag() < -(P as i64) - 20 {
            break;
        }
        s = s.add(&t);
        n += 1;
    }
    for _ in 0..8 {
        s = s.mul(&s);
    }
    s.scale(k)
}
/// sine and cosine
pub fn sin_cos(x: &Bf) -> (Bf, Bf) {
    // x = q * pi/2 + r
    let (q, r) = if x.mag() < -1 {
        (0u8, x.clone())
    } else {
        // fixed point with enough bits of pi for the exponent of x
        let f = (x.mag().max(0) as u64 + 500).min(PI_BITS);
        let half_pi = pi_big() >> (PI_BITS - f + 1) as usize;
        let sh = x.e + f as i64;
        let fx = if sh >= 0 { &x.m << sh as usize } else { &x.m >> (-sh) as usize };
        let two = BigInt::from(2);
        let q: BigInt = num::Integer::div_floor(&(&fx * &two + &half_pi), &(&half_pi * &two));
        let r = &fx - &q * &half_pi;
        let q4 = num::Integer::mod_floor(&q, &BigInt::from(4)).to_u8().unwrap();
        (q4, Bf::new(r, -(f as i64)))
    };
    let r2 = r.mul(&r).neg();
    let series = |first: Bf, mut k: i64| {
        let mut t = first.clone();
        let mut s = first;
        while !t.zero() {
            t = t.mul(&r2).div(&Bf::int(k * (k + 1)));
            if t.zero() || t.mag() < s.mag() - P as i64 - 8 {
                break;
            }
            s = s.add(&t);
            k += 2;
        }
        s
    };
    let s = series(r.clone(), 2);
    let c = series(Bf::int(1), 1);
    match q {
        0 => (s, c),
        1 => (c, s.neg()),
        2 => (s.neg(), c.neg()),
        _ => (c.neg(), s),
    }
}
pub fn atan(x: &Bf) -> Bf {
    if x.zero() {
        return x.clone();
    }
    if x.abs().mag() > 1 || Bf::int(1).lt(&x.abs()) {
        let h = pi().scale(-1);
        let h = if x.is_neg() { h.neg() } else { h };
        return h.sub(&atan(&Bf::int(1).div(x)));
    }
    // three halvings of the angle
    let mut z = x.clone();
    let one = Bf::int(1);
    for _ in 0..3 {
        z = z.div(&one.add(&one.add(&z.mul(&z)).sqrt()));
    }
    let z2 = z.mul(&z).neg();
    let mut p = z.clone();
    let mut s = z.clone();
    let mut k = 3;
    loop {
        p = p.mul(&z2);
        let t = p.div(&Bf::int(k));
        if t.zero() || t.mag() < s.mag() - P as i64 - 8 {
            break;
        }
        s = s.add(&t);
        k += 2;
    }
    s.scale(3)
}
/// |x| <= 1
pub fn asin(x: &Bf) -> Bf {
    let one = Bf::int(1);
    let d = one.sub(x).mul(&one.add(x));
    if d.zero() {
        let h = pi().scale(-1);
        return if x.is_neg() { h.neg() } else { h };
    }
    atan(&x.div(&d.sqrt()))
}
pub fn acos(x: &Bf) -> Bf {
    let one = Bf::int(1);
    let (a, b) = (one.sub(x), one.add(x));
    if b.zero() {
        return pi();
    }
    // 2 atan(sqrt((1-x)/(1+x)))
    atan(&a.div(&b).sqrt()).scale(1)
}
/// both finite, not both zero
pub fn atan2(y: &Bf, x: &Bf, y_neg: bool) -> Bf {
    if x.zero() {
        let h = pi().scale(-1);
        return if y_neg { h.neg() } else { h };
    }
    // y/x may be astronomically large or small, Bf has no exponent limit
    let a = atan(&y.div(x));
    if !x.is_neg() {
        a
    } else if y_neg {
        a.sub(&pi())
    } else {
        a.add(&pi())
    }
}
