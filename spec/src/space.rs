//! Geometry: points are compared after rounding to 1e-12; vectors and matrices follow
//! the usual 2-D algebra.
use json::{object, JsonValue};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::{Add, Div, Index, Mul};

#[derive(Clone, Copy, Debug)]
pub struct V2D {
    inner: [f64; 2],
}
impl V2D {
    pub const fn from(xy: [f64; 2]) -> Self {
        V2D { inner: xy }
    }
    pub fn dot_with(&self, other: &Self) -> f64 {
        self.inner[0] * other.inner[0] + self.inner[1] * other.inner[1]
    }
    pub fn dot(a: Self, b: Self) -> f64 {
        a.dot_with(&b)
    }
    pub fn x(&self) -> f64 {
        self.inner[0]
    }
    pub fn y(&self) -> f64 {
        self.inner[1]
    }
}
impl Default for V2D {
    fn default() -> Self {
        V2D::from([0.0, 0.0])
    }
}
impl Index<usize> for V2D {
    type Output = f64;
    fn index(&self, index: usize) -> &f64 {
        &self.inner[index]
    }
}
impl Add for V2D {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        V2D::from([self.x() + o.x(), self.y() + o.y()])
    }
}
impl Div<f64> for V2D {
    type Output = Self;
    fn div(self, d: f64) -> Self {
        V2D::from([self.x() / d, self.y() / d])
    }
}
impl Div<Self> for V2D {
    type Output = Self;
    fn div(self, d: Self) -> Self {
        V2D::from([self.x() / d.x(), self.y() / d.y()])
    }
}
impl Mul<f64> for V2D {
    type Output = Self;
    fn mul(self, c: f64) -> Self {
        V2D::from([self.x() * c, self.y() * c])
    }
}
impl Mul<Self> for V2D {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        V2D::from([self.x() * o.x(), self.y() * o.y()])
    }
}
impl Mul<&Self> for V2D {
    type Output = Self;
    fn mul(self, o: &Self) -> Self {
        V2D::from([self.x() * o.x(), self.y() * o.y()])
    }
}

/// Rows `u` and `v`.
#[derive(Clone, Copy, Debug)]
pub struct M2D {
    pub u: V2D,
    pub v: V2D,
}
impl M2D {
    pub const fn from(r0: [f64; 2], r1: [f64; 2]) -> Self {
        M2D { u: V2D::from(r0), v: V2D::from(r1) }
    }
    pub fn det(&self) -> f64 {
        self.u.x() * self.v.y() - self.v.x() * self.u.y()
    }
    pub fn inverse(&self) -> Self {
        let d = self.u.x() * self.v.y() - self.v.x() * self.u.y();
        M2D::from([self.v.y() / d, -self.u.y() / d], [-self.v.x() / d, self.u.x() / d])
    }
    pub fn transpose(&self) -> Self {
        M2D::from([self.u.x(), self.v.x()], [self.u.y(), self.v.y()])
    }
}
impl Div<f64> for M2D {
    type Output = Self;
    fn div(self, d: f64) -> Self {
        M2D::from([self.u.x() / d, self.u.y() / d], [self.v.x() / d, self.v.y() / d])
    }
}
impl Mul<Self> for M2D {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        M2D::from(
            [
                self.u.x() * o.u.x() + self.u.y() * o.v.x(),
                self.u.x() * o.u.y() + self.u.y() * o.v.y(),
            ],
            [
                self.v.x() * o.u.x() + self.v.y() * o.v.x(),
                self.v.x() * o.u.y() + self.v.y() * o.v.y(),
            ],
        )
    }
}
impl Mul<V2D> for M2D {
    type Output = V2D;
    fn mul(self, w: V2D) -> V2D {
        V2D::from([
            self.u.x() * w.x() + self.u.y() * w.y(),
            self.v.x() * w.x() + self.v.y() * w.y(),
        ])
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ParaDir {
    U,
    V,
}
impl From<ParaDir> for JsonValue {
    fn from(d: ParaDir) -> Self {
        if d == ParaDir::U {
            "U-Dir".into()
        } else {
            "V-Dir".into()
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub x: f64,
    pub y: f64,
    pub x_cmp: FloatRep,
    pub y_cmp: FloatRep,
}
impl Point {
    pub fn new(x: f64, y: f64) -> Self {
        Point { x, y, x_cmp: FloatRep::from(x), y_cmp: FloatRep::from(y) }
    }
    pub fn between(a: &Self, b: &Self) -> Self {
        Point::new(0.5 * (a.x + b.x), 0.5 * (a.y + b.y))
    }
    pub fn from(xy: [f64; 2]) -> Self {
        Point::new(xy[0], xy[1])
    }
    /// Two points that are equal have no orientation; otherwise `U` exactly when the
    /// segment is flatter than 45 degrees.
    pub fn orientation_with(&self, other: &Self) -> ParaDir {
        if self.x_cmp == other.x_cmp && self.y_cmp == other.y_cmp {
            panic!();
        }
        let angle = ((other.y - self.y).abs() / (other.x - self.x).abs()).atan();
        if angle < std::f64::consts::FRAC_PI_4 {
            ParaDir::U
        } else {
            ParaDir::V
        }
    }
    pub fn dist(&self, other: &Self) -> f64 {
        let (dx, dy) = ((other.x - self.x).abs(), (other.y - self.y).abs());
        (dx * dx + dy * dy).sqrt()
    }
    pub fn x_order(&self, other: &Self) -> Ordering {
        self.x_cmp.cmp(&other.x_cmp)
    }
    pub fn y_order(&self, other: &Self) -> Ordering {
        self.y_cmp.cmp(&other.y_cmp)
    }
}
impl Default for Point {
    fn default() -> Self {
        Point::new(0.0, 0.0)
    }
}
impl Add for Point {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Point::new(self.x + o.x, self.y + o.y)
    }
}
impl Div<f64> for Point {
    type Output = Self;
    fn div(self, d: f64) -> Self {
        Point::new(self.x / d, self.y / d)
    }
}
impl Hash for Point {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.x_cmp.hash(state);
        self.y_cmp.hash(state);
    }
}
impl PartialEq for Point {
    fn eq(&self, o: &Self) -> bool {
        self.x_cmp == o.x_cmp && self.y_cmp == o.y_cmp
    }
}
impl Eq for Point {}
impl From<Point> for JsonValue {
    fn from(p: Point) -> Self {
        object! { "x": p.x, "y": p.y }
    }
}

#[derive(Hash, PartialEq, Eq, Clone, Copy, Debug)]
pub struct FloatRep {
    sign: bool,
    bits: u64,
}
impl FloatRep {
    pub fn from(value: f64) -> Self {
        let a = value.abs();
        let rounded = a.trunc() + (a.fract() / 1e-12).round() * 1e-12;
        FloatRep {
            sign: value.is_sign_positive() || rounded == 0.0,
            bits: rounded.to_bits(),
        }
    }
}
impl Ord for FloatRep {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.sign != o.sign {
            return if self.sign { Ordering::Greater } else { Ordering::Less };
        }
        if self.sign {
            self.bits.cmp(&o.bits)
        } else {
            o.bits.cmp(&self.bits)
        }
    }
}
impl PartialOrd for FloatRep {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
