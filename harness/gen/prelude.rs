// Driver for generated Rust (C14); included by every generated file.

#[path = "traits.rs"]
mod wrenfold_traits;

const SENT: f64 = -98765.4375; // not the value of any output

#[derive(Clone, Copy)]
pub struct Mat<const R: usize, const C: usize> {
    d: [[f64; C]; R],
}
impl<const R: usize, const C: usize> Mat<R, C> {
    pub fn of(v: &[f64]) -> Self {
        let mut m = Mat { d: [[0.0; C]; R] };
        assert!(v.len() >= R * C);
        for i in 0..R {
            for j in 0..C {
                m.d[i][j] = v[i * C + j];
            }
        }
        m
    }
}
impl<const R: usize, const C: usize> std::ops::Index<(usize, usize)> for Mat<R, C> {
    type Output = f64;
    fn index(&self, i: (usize, usize)) -> &f64 {
        &self.d[i.0][i.1]
    }
}
impl<const R: usize, const C: usize> wrenfold_traits::Span2D<R, C> for Mat<R, C> {
    type ValueType = f64;
    fn get(&self, i: usize, j: usize) -> f64 {
        self.d[i][j]
    }
}
impl<const R: usize, const C: usize> wrenfold_traits::OutputSpan2D<R, C> for Mat<R, C> {
    type ValueType = f64;
    fn set(&mut self, i: usize, j: usize, v: f64) {
        self.d[i][j] = v;
    }
}

#[derive(Clone, Copy)]
pub struct Point {
    pub x: f64,
    pub y: f64,
}
#[derive(Clone, Copy)]
pub struct Inner {
    pub m: Mat<2, 3>,
    pub k: i64,
    pub a: f64,
}
#[derive(Clone, Copy)]
pub struct Outer {
    pub b: f64,
    pub q: Inner,
    pub v: Mat<3, 1>,
    pub p: Point,
    pub n: i64,
}

pub trait Io: Sized {
    fn ld(v: &[f64]) -> Self;
    fn st(&self, o: &mut [f64]);
    fn sentinel() -> Self {
        Self::ld(&[SENT; 64])
    }
}
impl Io for f64 {
    fn ld(v: &[f64]) -> f64 {
        v[0]
    }
    fn st(&self, o: &mut [f64]) {
        o[0] = *self
    }
}
impl Io for i64 {
    fn ld(v: &[f64]) -> i64 {
        v[0] as i64
    }
    fn st(&self, o: &mut [f64]) {
        o[0] = *self as f64
    }
}
impl<const R: usize, const C: usize> Io for Mat<R, C> {
    fn ld(v: &[f64]) -> Self {
        Mat::of(v)
    }
    fn st(&self, o: &mut [f64]) {
        for i in 0..R {
            for j in 0..C {
                o[i * C + j] = self.d[i][j];
            }
        }
    }
}
impl Io for Point {
    fn ld(v: &[f64]) -> Self {
        Point { x: v[0], y: v[1] }
    }
    fn st(&self, o: &mut [f64]) {
        o[0] = self.x;
        o[1] = self.y;
    }
}
impl Io for Inner {
    fn ld(v: &[f64]) -> Self {
        Inner { m: Mat::of(v), k: v[6] as i64, a: v[7] }
    }
    fn st(&self, o: &mut [f64]) {
        self.m.st(o);
        self.k.st(&mut o[6..]);
        o[7] = self.a;
    }
}
impl Io for Outer {
    fn ld(v: &[f64]) -> Self {
        Outer { b: v[0], q: Inner::ld(&v[1..]), v: Mat::of(&v[9..]), p: Point::ld(&v[12..]), n: v[14] as i64 }
    }
    fn st(&self, o: &mut [f64]) {
        o[0] = self.b;
        self.q.st(&mut o[1..]);
        self.v.st(&mut o[9..]);
        self.p.st(&mut o[12..]);
        o[14] = self.n as f64;
    }
}

// External functions: the formula of external_value() in funcs.h.
fn name_hash(n: &str) -> i32 {
    let mut h: u64 = 1469598103934665603;
    for c in n.bytes() {
        h = (h ^ c as u64).wrapping_mul(1099511628211);
    }
    (h % 7) as i32
}
fn ext(name: &str, idx: usize, a: &[f64]) -> f64 {
    let s = name_hash(name) as usize;
    let mut r = 0.25 * idx as f64 - 1.0;
    for k in 0..a.len() {
        r += (((k * 5 + idx * 3 + s) % 9) as i32 as f64 - 4.0 + 0.5) * a[k];
    }
    if a.len() > 0 {
        r += 0.125 * (a[0] * a[a.len() - 1]);
    }
    r
}
pub fn e1(a: f64, b: f64) -> f64 {
    ext("e1", 0, &[a, b])
}
pub fn ei(a: f64, _b: f64) -> i64 {
    (3.0 * a.floor() + 1.0) as i64
}
pub fn em(m: &Mat<2, 3>, s: f64) -> Mat<3, 2> {
    let mut v = [0.0; 7];
    m.st(&mut v);
    v[6] = s;
    let mut o = [0.0; 6];
    for i in 0..6 {
        o[i] = ext("em", i, &v);
    }
    Mat::of(&o)
}
pub fn et(s: f64, p: &Point, w: &Mat<3, 1>) -> Inner {
    let v = [s, p.x, p.y, w.d[0][0], w.d[1][0], w.d[2][0]];
    let mut o = [0.0; 8];
    for i in 0..8 {
        o[i] = ext("et", i, &v);
    }
    o[6] = 8.0;
    Inner::ld(&o)
}
pub fn ep(q: &Inner) -> Point {
    let mut v = [0.0; 8];
    q.st(&mut v);
    Point { x: ext("ep", 0, &v), y: ext("ep", 1, &v) }
}

pub struct Entry {
    id: &'static str,
    f: fn(&[f64], &mut [f64], u32),
    opt: &'static [i32],
    nin: usize,
    nout: usize,
    nm: u32,
    np: usize,
    off: usize,
}
fn drive(entries: &[Entry]) {
    let path = std::env::args().nth(1).unwrap();
    let raw = std::fs::read(path).unwrap();
    let data: Vec<f64> = raw.chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    let (mut calls, mut values) = (0u64, 0u64);
    for e in entries {
        let mut at = e.off;
        let mut failed = false;
        for _ in 0..e.np {
            let d = &data[at..at + e.nin + 2 * e.nout];
            at += e.nin + 2 * e.nout;
            for m in 0..e.nm {
                let mut out = vec![SENT; e.nout];
                (e.f)(d, &mut out, m);
                calls += 1;
                for k in 0..e.nout {
                    if failed {
                        break;
                    }
                    let (want, tol, got) = (d[e.nin + 2 * k], d[e.nin + 2 * k + 1], out[k]);
                    let o = e.opt[k];
                    if o >= 0 && (m >> o) & 1 == 0 {
                        failed = got != SENT && got != -98765.0;
                    } else if tol >= 0.0 {
                        values += 1;
                        failed = !((got - want).abs() <= tol);
                    }
                    if failed {
                        println!("FAIL {} mask {} element {} expected {:e} got {:e} at {:?}", e.id, m, k, want, got, &d[..e.nin]);
                    }
                }
            }
        }
    }
    println!("DONE {} {}", calls, values);
}
