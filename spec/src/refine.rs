//! h- and p-refinement descriptions.
use crate::space::ParaDir;
use crate::*;
use json::{object, JsonValue};
use std::ops::AddAssign;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct HLevels {
    pub u: u8,
    pub v: u8,
}
impl HLevels {
    fn from(u: u8, v: u8) -> Self {
        HLevels { u, v }
    }
    /// T raises both levels, U only u, V only v.
    pub fn refined(&self, refinement: HRef) -> Self {
        let mut r = *self;
        if let HRef::T | HRef::U(_) = refinement {
            r.u += 1;
        }
        if let HRef::T | HRef::V(_) = refinement {
            r.v += 1;
        }
        r
    }
    /// Level across the edge first, level along the edge second.
    pub fn edge_ranking(self, edge_dir: ParaDir) -> [u8; 2] {
        if edge_dir == ParaDir::U {
            [self.v, self.u]
        } else {
            [self.u, self.v]
        }
    }
    pub fn node_ranking(self) -> [u8; 2] {
        [self.u, self.v]
    }
}
impl Default for HLevels {
    fn default() -> Self {
        HLevels { u: 0, v: 0 }
    }
}
impl From<HLevels> for JsonValue {
    fn from(h: HLevels) -> Self {
        object! { "u": h.u, "v": h.v }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HRef {
    T,
    U(Option<usize>),
    V(Option<usize>),
}
impl HRef {
    pub const fn t() -> Self {
        HRef::T
    }
    pub const fn u() -> Self {
        HRef::U(None)
    }
    pub const fn v() -> Self {
        HRef::V(None)
    }
    pub const fn u_extened(child_idx: u8) -> Result<Self, HRefError> {
        if child_idx < 2 {
            Ok(HRef::U(Some(child_idx as usize)))
        } else {
            Err(HRefError::BisectionIdxExceeded)
        }
    }
    pub const fn v_extened(child_idx: u8) -> Result<Self, HRefError> {
        if child_idx < 2 {
            Ok(HRef::V(Some(child_idx as usize)))
        } else {
            Err(HRefError::BisectionIdxExceeded)
        }
    }
    /// T creates 4 children, U and V create 2; ids are consecutive from the counter.
    pub fn indices_and_ids(&self, id_counter: &mut usize) -> Box<dyn Iterator<Item = (usize, usize)> + '_> {
        let first = *id_counter;
        let n = match self {
            HRef::T => 4,
            _ => 2,
        };
        *id_counter = first + n;
        Box::new((0..n).map(move |i| (i, first + i)))
    }
    pub fn loc(&self, idx: usize) -> HRefLoc {
        match (self, idx) {
            (HRef::T, 0) => HRefLoc::SW,
            (HRef::T, 1) => HRefLoc::SE,
            (HRef::T, 2) => HRefLoc::NW,
            (HRef::T, 3) => HRefLoc::NE,
            (HRef::U(_), 0) => HRefLoc::W,
            (HRef::U(_), 1) => HRefLoc::E,
            (HRef::V(_), 0) => HRefLoc::S,
            (HRef::V(_), 1) => HRefLoc::N,
            _ => unreachable!(),
        }
    }
}
impl AddAssign for HRef {
    /// Equal directions join their extensions (two different extensions make T); different
    /// directions make T; T absorbs everything.
    fn add_assign(&mut self, rhs: Self) {
        fn join(a: Option<usize>, b: Option<usize>) -> Option<Option<usize>> {
            match (a, b) {
                (None, x) => Some(x),
                (x, None) => Some(x),
                (Some(x), Some(y)) => {
                    if x == y {
                        Some(Some(x))
                    } else {
                        None
                    }
                }
            }
        }
        *self = match (*self, rhs) {
            (HRef::U(a), HRef::U(b)) => match join(a, b) {
                Some(x) => HRef::U(x),
                None => HRef::T,
            },
            (HRef::V(a), HRef::V(b)) => match join(a, b) {
                Some(x) => HRef::V(x),
                None => HRef::T,
            },
            _ => HRef::T,
        };
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HRefLoc {
    SW,
    SE,
    NW,
    NE,
    W,
    E,
    S,
    N,
}
impl HRefLoc {
    pub fn index(&self) -> usize {
        match self {
            HRefLoc::SW | HRefLoc::W | HRefLoc::S => 0,
            HRefLoc::SE | HRefLoc::E | HRefLoc::N => 1,
            HRefLoc::NW => 2,
            HRefLoc::NE => 3,
        }
    }
    pub fn sub_range(&self, r: [[f64; 2]; 2]) -> [[f64; 2]; 2] {
        [self.sub_u_range(r[0]), self.sub_v_range(r[1])]
    }
    /// The western half, the eastern half, or all of it.
    pub fn sub_u_range(&self, r: [f64; 2]) -> [f64; 2] {
        let mid = (r[0] + r[1]) / 2.0;
        match self {
            HRefLoc::SW | HRefLoc::NW | HRefLoc::W => [r[0], mid],
            HRefLoc::SE | HRefLoc::NE | HRefLoc::E => [mid, r[1]],
            HRefLoc::S | HRefLoc::N => r,
        }
    }
    /// The southern half, the northern half, or all of it.
    pub fn sub_v_range(&self, r: [f64; 2]) -> [f64; 2] {
        let mid = (r[0] + r[1]) / 2.0;
        match self {
            HRefLoc::SW | HRefLoc::SE | HRefLoc::S => [r[0], mid],
            HRefLoc::NW | HRefLoc::NE | HRefLoc::N => [mid, r[1]],
            HRefLoc::W | HRefLoc::E => r,
        }
    }
}

#[derive(Debug)]
pub enum HRefError {
    MinEdgeLength(usize),
    ElemHasChildren(usize),
    EdgeHasChildren(usize),
    UninitializedElem(usize),
    EdgeOnEqualPoints(usize),
    BisectionIdxExceeded,
    ElemDoesNotExist(usize),
    ElemNotRefineable(usize),
    DuplicateElemIds,
}
impl From<MeshAccessError> for HRefError {
    fn from(err: MeshAccessError) -> Self {
        match err {
            MeshAccessError::ElemDoesNotExist(id) => HRefError::ElemDoesNotExist(id),
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PolyOrders {
    pub ni: u8,
    pub nj: u8,
}
impl PolyOrders {
    /// Both directions are checked before either changes.
    pub fn refine(&mut self, refinement: PRef) -> Result<(), PRefError> {
        let refined = PolyOrders {
            ni: refinement.di.refine(self.ni)?,
            nj: refinement.dj.refine(self.nj)?,
        };
        *self = refined;
        Ok(())
    }
    pub fn set(&mut self, orders: [u8; 2]) -> Result<(), PRefError> {
        if orders[0] > MAX_POLYNOMIAL_ORDER || orders[1] > MAX_POLYNOMIAL_ORDER {
            Err(PRefError::ExceededMaxExpansion)
        } else if orders[0] == 0 || orders[1] == 0 {
            Err(PRefError::NegExpansion)
        } else {
            *self = PolyOrders { ni: orders[0], nj: orders[1] };
            Ok(())
        }
    }
    /// U: i in 0..ni, j in 0..=nj; V: i in 0..=ni, j in 0..nj; W: both inclusive.
    /// In each case i is the outer index.
    pub fn permutations(&self, dir: BasisDir) -> Box<dyn Iterator<Item = [u8; 2]> + '_> {
        let n_i = if dir == BasisDir::U { self.ni } else { self.ni + 1 };
        let n_j = if dir == BasisDir::V { self.nj } else { self.nj + 1 };
        Box::new((0..n_i).flat_map(move |i| (0..n_j).map(move |j| [i, j])))
    }
    pub fn max_with(&self, o: [u8; 2]) -> [u8; 2] {
        [self.ni.max(o[0]), self.nj.max(o[1])]
    }
    pub fn as_array(&self) -> [usize; 2] {
        [self.ni as usize, self.nj as usize]
    }
}
impl Default for PolyOrders {
    fn default() -> Self {
        PolyOrders { ni: 1, nj: 1 }
    }
}
impl From<PolyOrders> for JsonValue {
    fn from(o: PolyOrders) -> Self {
        object! { "u": o.ni, "v": o.nj }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PRefInt {
    Increment(u8),
    Decrement(u8),
    None,
}
impl PRefInt {
    /// n + delta, when that stays within 1..=20.
    pub fn refine(&self, n: u8) -> Result<u8, PRefError> {
        match *self {
            PRefInt::Increment(d) => {
                let wanted = n.saturating_add(d);
                if wanted <= MAX_POLYNOMIAL_ORDER {
                    Ok(wanted)
                } else {
                    Err(PRefError::ExceededMaxExpansion)
                }
            }
            PRefInt::Decrement(d) => {
                if n > d {
                    Ok(n - d)
                } else {
                    Err(PRefError::NegExpansion)
                }
            }
            PRefInt::None => Ok(n),
        }
    }
    pub const fn from_i8(delta: i8) -> Self {
        if delta == 0 {
            PRefInt::None
        } else if delta > 0 {
            PRefInt::Increment(delta as u8)
        } else {
            PRefInt::Decrement(delta.unsigned_abs())
        }
    }
    /// Saturates at the ends of i8.
    pub fn as_i8(&self) -> i8 {
        match *self {
            PRefInt::None => 0,
            PRefInt::Increment(d) => i8::try_from(d).unwrap_or(i8::MAX),
            PRefInt::Decrement(d) => i8::try_from(-i16::from(d)).unwrap_or(i8::MIN),
        }
    }
    /// Clamps to the bounds; a value within them is untouched.
    pub fn constrain(&mut self, bounds: [i8; 2]) {
        let v = self.as_i8();
        if v < bounds[0] {
            *self = PRefInt::from_i8(bounds[0]);
        } else if v > bounds[1] {
            *self = PRefInt::from_i8(bounds[1]);
        }
    }
    pub fn within(&self, bounds: [i8; 2]) -> bool {
        bounds[0] <= self.as_i8() && self.as_i8() <= bounds[1]
    }
}
impl AddAssign for PRefInt {
    /// Signed addition, saturating at +-255; a sum of zero is `None`.
    fn add_assign(&mut self, rhs: Self) {
        fn less(a: u8, b: u8) -> PRefInt {
            if a > b {
                PRefInt::Increment(a - b)
            } else if a < b {
                PRefInt::Decrement(b - a)
            } else {
                PRefInt::None
            }
        }
        *self = match (*self, rhs) {
            (PRefInt::None, r) => r,
            (s, PRefInt::None) => s,
            (PRefInt::Increment(a), PRefInt::Increment(b)) => PRefInt::Increment(a.saturating_add(b)),
            (PRefInt::Decrement(a), PRefInt::Decrement(b)) => PRefInt::Decrement(a.saturating_add(b)),
            (PRefInt::Increment(a), PRefInt::Decrement(b)) => less(a, b),
            (PRefInt::Decrement(a), PRefInt::Increment(b)) => less(b, a),
        };
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PRef {
    pub di: PRefInt,
    pub dj: PRefInt,
}
impl PRef {
    pub const fn from(delta_i: i8, delta_j: i8) -> Self {
        PRef { di: PRefInt::from_i8(delta_i), dj: PRefInt::from_i8(delta_j) }
    }
    pub fn on_dir(dir: ParaDir, delta: i8) -> Self {
        if dir == ParaDir::U {
            PRef::from(delta, 0)
        } else {
            PRef::from(0, delta)
        }
    }
    pub fn as_array(&self) -> [i8; 2] {
        [self.di.as_i8(), self.dj.as_i8()]
    }
    pub fn constrained_to(self, bounds: [[i8; 2]; 2]) -> Self {
        let mut r = self;
        r.di.constrain(bounds[0]);
        r.dj.constrain(bounds[1]);
        r
    }
    pub fn falls_within(&self, bounds: [[i8; 2]; 2]) -> bool {
        self.di.within(bounds[0]) && self.dj.within(bounds[1])
    }
    fn refine_i(&self, i: u8) -> Result<u8, PRefError> {
        self.di.refine(i)
    }
    fn refine_j(&self, j: u8) -> Result<u8, PRefError> {
        self.dj.refine(j)
    }
}
impl AddAssign for PRef {
    fn add_assign(&mut self, rhs: Self) {
        self.di += rhs.di;
        self.dj += rhs.dj;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Orders {
    pub i: u8,
    pub j: u8,
}
impl Orders {
    pub fn try_new(i: u8, j: u8) -> Result<Self, PRefError> {
        if (1..=MAX_POLYNOMIAL_ORDER).contains(&i) && (1..=MAX_POLYNOMIAL_ORDER).contains(&j) {
            Ok(Orders { i, j })
        } else {
            Err(PRefError::InvalidExpansionOrders(i, j))
        }
    }
    pub fn new(i: u8, j: u8) -> Self {
        if i >= 1 && i <= MAX_POLYNOMIAL_ORDER && j >= 1 && j <= MAX_POLYNOMIAL_ORDER {
            Orders { i, j }
        } else {
            panic!()
        }
    }
    pub fn to_array(self) -> [u8; 2] {
        [self.i, self.j]
    }
}

#[derive(Debug)]
pub enum PRefError {
    NegExpansion,
    ExceededMaxExpansion,
    DuplicateElemIds,
    ElemDoesNotExist(usize),
    RefinementOutOfBounds(usize),
    InvalidExpansionOrders(u8, u8),
}
impl From<MeshAccessError> for PRefError {
    fn from(err: MeshAccessError) -> Self {
        match err {
            MeshAccessError::ElemDoesNotExist(id) => PRefError::ElemDoesNotExist(id),
            _ => unreachable!(),
        }
    }
}
