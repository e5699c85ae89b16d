//! Element (real space), Elem (parametric space), Node and Edge.
use crate::refine::*;
use crate::space::*;
use crate::*;
use json::{array, object, JsonValue};
use num_complex::Complex64;
use smallvec::SmallVec;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Debug)]
pub struct Element {
    pub id: usize,
    pub points: [Point; 4],
    pub materials: Materials,
}
impl Element {
    pub fn new(id: usize, points: [Point; 4], materials: Materials) -> Self {
        Element { id, points, materials }
    }
    /// The Jacobian of the affine map from [-1, 1]^2 to the sub-range of the rectangle: half
    /// its width and half its height, on the diagonal.
    pub fn parametric_mapping(&self, _: V2D, range: [[f64; 2]; 2]) -> M2D {
        let (lo, hi) = (&self.points[0], &self.points[3]);
        let along = |t: f64, a: f64, b: f64| (t + 1.0) * (b - a) / 2.0 + a;
        let w = along(range[0][1], lo.x, hi.x) - along(range[0][0], lo.x, hi.x);
        let h = along(range[1][1], lo.y, hi.y) - along(range[1][0], lo.y, hi.y);
        M2D::from([w / 2.0, 0.0], [0.0, h / 2.0])
    }
    pub fn order_points(&self, p0: &Point, p1: &Point) -> std::cmp::Ordering {
        match p0.orientation_with(p1) {
            ParaDir::U => p0.x_order(p1),
            ParaDir::V => p0.y_order(p1),
        }
    }
    pub fn to_json(&self) -> JsonValue {
        object! {
            "id": self.id,
            "eps_rel": self.materials.eps_rel.re,
            "mu_rel": self.materials.mu_rel.re,
            "eps_rel_im": self.materials.eps_rel.im,
            "mu_rel_im": self.materials.mu_rel.im,
        }
    }
}

fn map_range(val: f64, in_min: f64, in_max: f64, out_min: f64, out_max: f64) -> f64 {
    out_min + (out_max - out_min) * (val - in_min) / (in_max - in_min)
}

#[derive(Clone, Debug)]
pub struct Materials {
    pub eps_rel: Complex64,
    pub mu_rel: Complex64,
}
impl Materials {
    pub fn from_array(p: [f64; 4]) -> Self {
        Materials { eps_rel: Complex64::new(p[0], p[1]), mu_rel: Complex64::new(p[2], p[3]) }
    }
}
impl Default for Materials {
    fn default() -> Self {
        Materials { eps_rel: Complex64::new(1.0, 0.0), mu_rel: Complex64::new(1.0, 0.0) }
    }
}

#[derive(Debug, Clone)]
pub struct Elem {
    pub id: usize,
    pub nodes: [usize; 4],
    pub edges: [usize; 4],
    pub element: Arc<Element>,
    pub h_levels: HLevels,
    pub poly_orders: PolyOrders,
    children: Option<SmallVec<[usize; 4]>>,
    ancestors: SmallVec<[(usize, HRefLoc); EXPECTED_NUM_H_REFINEMENTS]>,
}
impl Elem {
    pub fn new(id: usize, nodes: [usize; 4], edges: [usize; 4], element: Arc<Element>) -> Self {
        Elem {
            id,
            nodes,
            edges,
            element,
            h_levels: HLevels { u: 0, v: 0 },
            poly_orders: PolyOrders { ni: 1, nj: 1 },
            children: None,
            ancestors: SmallVec::new(),
        }
    }
    /// Refuses an Elem with children; otherwise makes 4 (T) or 2 children with consecutive
    /// ids, each of which records the parent and its own position below it.
    pub fn h_refine(&mut self, refinement: HRef, id_counter: &mut usize) -> Result<Vec<ElemUninit>, HRefError> {
        if self.children.is_some() {
            return Err(HRefError::ElemHasChildren(self.id));
        }
        let first = *id_counter;
        let count = match refinement {
            HRef::T => 4,
            HRef::U(_) | HRef::V(_) => 2,
        };
        *id_counter += count;
        let mut kids = Vec::new();
        let mut ids = SmallVec::new();
        for k in 0..count {
            kids.push(ElemUninit::new(
                (k, first + k),
                refinement,
                self.element.clone(),
                self.id,
                &self.ancestors,
                &self.h_levels,
                self.poly_orders,
            ));
            ids.push(first + k);
        }
        self.children = Some(ids);
        Ok(kids)
    }
    pub fn parent_id(&self) -> Option<usize> {
        self.ancestors.last().map(|a| a.0)
    }
    pub fn loc_stack(&self) -> &[(usize, HRefLoc)] {
        &self.ancestors
    }
    /// Sub-ranges are applied oldest ancestor first, from the given ancestor on.
    pub fn relative_parametric_range(&self, from_ancestor: usize) -> [[f64; 2]; 2] {
        let start = match self.ancestors.iter().position(|a| a.0 == from_ancestor) {
            Some(p) => p,
            None => panic!(),
        };
        let mut range = [[-1.0, 1.0], [-1.0, 1.0]];
        for (_, loc) in self.ancestors.iter().skip(start) {
            range = loc.sub_range(range);
        }
        range
    }
    pub fn parametric_range(&self) -> [[f64; 2]; 2] {
        let mut range = [[-1.0, 1.0], [-1.0, 1.0]];
        for (_, loc) in self.ancestors.iter() {
            range = loc.sub_range(range);
        }
        range
    }
    pub fn get_materials(&self) -> &Materials {
        &self.element.materials
    }
    pub fn parametric_mapping(&self, p: V2D, over_range: [[f64; 2]; 2]) -> M2D {
        self.element.parametric_mapping(p, over_range)
    }
    pub fn child_ids(&self) -> Option<SmallVec<[usize; 4]>> {
        self.children.clone()
    }
    pub fn has_children(&self) -> bool {
        self.children.is_some()
    }
    pub fn to_json(&self) -> JsonValue {
        object! {
            "id": self.id,
            "element_id": self.element.id,
            "parent": self.parent_id(),
            "active": self.children.is_none(),
            "nodes": array![self.nodes[0], self.nodes[1], self.nodes[2], self.nodes[3]],
            "edges": array![self.edges[0], self.edges[1], self.edges[2], self.edges[3]],
            "expansion": self.poly_orders,
            "h_levels": self.h_levels,
            "children": JsonValue::from(
                match &self.children {
                    Some(ids) => ids.to_vec(),
                    None => Vec::new(),
                }
            )
        }
    }
}

#[derive(Debug, Clone)]
pub struct ElemUninit {
    pub id: usize,
    pub nodes: [Option<usize>; 4],
    pub edges: [Option<usize>; 4],
    pub element: Arc<Element>,
    ancestors: SmallVec<[(usize, HRefLoc); EXPECTED_NUM_H_REFINEMENTS]>,
    h_levels: HLevels,
    poly_orders: PolyOrders,
}
impl ElemUninit {
    /// Inherits material, orders and ancestry; one more ancestor and one more h-level.
    pub fn new(
        idx_id: (usize, usize),
        refinement: HRef,
        element: Arc<Element>,
        parent_id: usize,
        parents_ancestors: &[(usize, HRefLoc)],
        parent_h_levels: &HLevels,
        poly_orders: PolyOrders,
    ) -> Self {
        let mut ancestors = SmallVec::from(parents_ancestors);
        ancestors.push((parent_id, refinement.loc(idx_id.0)));
        ElemUninit {
            id: idx_id.1,
            nodes: [None; 4],
            edges: [None; 4],
            element,
            ancestors,
            h_levels: parent_h_levels.refined(refinement),
            poly_orders,
        }
    }
    /// Setting a different node in an occupied place, or an index above 3, panics.
    pub fn set_node(&mut self, node_idx: usize, node_id: usize) {
        if node_idx >= 4 {
            panic!();
        }
        if let Some(already) = self.nodes[node_idx] {
            if already != node_id {
                panic!();
            }
        }
        self.nodes[node_idx] = Some(node_id);
    }
    pub fn set_edge(&mut self, edge_idx: usize, edge_id: usize) {
        if edge_idx >= 4 {
            panic!();
        }
        if self.edges[edge_idx].is_some() {
            panic!();
        }
        self.edges[edge_idx] = Some(edge_id);
    }
    /// An Elem exists only when all four nodes and all four edges are known.
    pub fn into_elem(self) -> Result<Elem, HRefError> {
        if let ([Some(n0), Some(n1), Some(n2), Some(n3)], [Some(e0), Some(e1), Some(e2), Some(e3)]) =
            (self.nodes, self.edges)
        {
            Ok(Elem {
                id: self.id,
                nodes: [n0, n1, n2, n3],
                edges: [e0, e1, e2, e3],
                element: self.element,
                h_levels: self.h_levels,
                poly_orders: self.poly_orders,
                children: None,
                ancestors: self.ancestors,
            })
        } else {
            Err(HRefError::UninitializedElem(self.id))
        }
    }
}

#[derive(Debug, Clone)]
pub struct Node {
    pub id: usize,
    pub coords: Point,
    pub boundary: bool,
    elems: [BTreeMap<[u8; 2], usize>; 4],
}
impl Node {
    pub fn new(id: usize, coords: Point, boundary: bool) -> Self {
        Node {
            id,
            coords,
            boundary,
            elems: [BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new()],
        }
    }
    /// Filed under the node's corner of the Elem and the Elem's h-levels; a different Elem
    /// already filed there, or an Elem without this node, panics.
    pub fn connect_elem(&mut self, elem: &Elem) {
        let corner = match elem.nodes.iter().position(|id| *id == self.id) {
            Some(c) => c,
            None => panic!(),
        };
        let key = [elem.h_levels.u, elem.h_levels.v];
        if let Some(before) = self.elems[corner].insert(key, elem.id) {
            if before != elem.id {
                panic!();
            }
        }
    }
    pub fn to_json(&self) -> JsonValue {
        object! {
            "id": self.id,
            "boundary": self.boundary,
            "point": self.coords,
            "elems": JsonValue::from(self.elems.iter().map(|elem_list| {
                elem_list.values().copied().collect()
            }).collect::<Vec<Vec<usize>>>())
        }
    }
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub id: usize,
    pub nodes: [usize; 2],
    pub boundary: bool,
    pub dir: ParaDir,
    pub length: f64,
    children: Option<[usize; 2]>,
    parent: Option<usize>,
    elems: [BTreeMap<[u8; 2], usize>; 2],
    active_elems: Option<[usize; 2]>,
    child_node: Option<usize>,
}
impl Edge {
    pub fn new(id: usize, nodes: [&Node; 2], boundary: bool) -> Self {
        Edge {
            id,
            nodes: [nodes[0].id, nodes[1].id],
            boundary,
            dir: nodes[0].coords.orientation_with(&nodes[1].coords),
            length: nodes[0].coords.dist(&nodes[1].coords),
            children: None,
            parent: None,
            elems: [BTreeMap::new(), BTreeMap::new()],
            active_elems: None,
            child_node: None,
        }
    }
    /// The Elem whose bottom or left edge this is lies on side 1, the other on side 0; filed
    /// under the Elem's edge ranking; a different Elem already filed there panics.
    pub fn connect_elem(&mut self, elem: &Elem) {
        let place = match elem.edges.iter().position(|id| *id == self.id) {
            Some(p) => p,
            None => panic!(),
        };
        let side = if place == 0 || place == 2 { 1 } else { 0 };
        let key = match self.dir {
            ParaDir::U => [elem.h_levels.v, elem.h_levels.u],
            ParaDir::V => [elem.h_levels.u, elem.h_levels.v],
        };
        if let Some(before) = self.elems[side].insert(key, elem.id) {
            if before != elem.id {
                panic!();
            }
        }
    }
    /// Two halves that share the new node, inherit boundary and direction, and point to this
    /// edge as their parent.
    pub fn h_refine(&mut self, new_ids: [usize; 2], new_node_id: usize) -> Result<SmallVec<[Self; 2]>, HRefError> {
        if self.children.is_some() {
            return Err(HRefError::EdgeHasChildren(self.id));
        }
        if self.length / 2.0 < MIN_EDGE_LENGTH {
            return Err(HRefError::MinEdgeLength(self.id));
        }
        self.children = Some(new_ids);
        self.child_node = Some(new_node_id);
        let mut halves = SmallVec::new();
        for (id, nodes) in [
            (new_ids[0], [self.nodes[0], new_node_id]),
            (new_ids[1], [new_node_id, self.nodes[1]]),
        ] {
            halves.push(Edge {
                id,
                nodes,
                boundary: self.boundary,
                dir: self.dir,
                length: self.length / 2.0,
                children: None,
                parent: Some(self.id),
                elems: [BTreeMap::new(), BTreeMap::new()],
                active_elems: None,
                child_node: None,
            });
        }
        Ok(halves)
    }
    pub fn parent_id(&self) -> Option<usize> {
        self.parent
    }
    pub fn child_ids(&self) -> Option<SmallVec<[usize; 2]>> {
        self.children.map(SmallVec::from)
    }
    pub fn has_children(&self) -> bool {
        self.children.is_some()
    }
    pub fn child_node_id(&self) -> Option<usize> {
        self.child_node
    }
    pub fn active_elem_pair(&self) -> Option<[usize; 2]> {
        self.active_elems
    }
    pub fn is_boundary(&self) -> bool {
        self.elems[0].len() == 0 || self.elems[1].len() == 0
    }
    /// Active exactly when both sides have an Elem: the pair of the highest ranked ones.
    pub fn set_activation(&mut self) -> bool {
        self.active_elems = match (self.last_entry(0), self.last_entry(1)) {
            (Some(a), Some(b)) => Some([a, b]),
            _ => None,
        };
        self.active_elems.is_some()
    }
    fn last_entry(&self, side_idx: usize) -> Option<usize> {
        self.elems[side_idx].values().next_back().copied()
    }
    pub fn reset_activation(&mut self) {
        self.active_elems = None;
    }
    pub fn other_active_elem_id(&self, elem_id: usize) -> Option<usize> {
        let [a, b] = self.active_elems?;
        if a == elem_id {
            Some(b)
        } else if b == elem_id {
            Some(a)
        } else {
            panic!()
        }
    }
    pub fn to_json(&self) -> JsonValue {
        let mut edge_json = object! {
            "id": self.id,
            "boundary": self.boundary,
            "direction": self.dir,
            "nodes": array![self.nodes[0], self.nodes[1]],
            "parent": self.parent_id(),
            "children": match self.children {
                Some(child_ids) => array![child_ids[0], child_ids[1]],
                None => array![],
            },
            "elems": array![array![], array![]],
            "active_elems": self.active_elems.map_or(array![], |[ee_bl, ee_tr]| {
                array![ee_bl, ee_tr]
            })
        };
        for side_idx in 0..2 {
            for (elem_key, elem_id) in self.elems[side_idx].iter() {
                edge_json["elems"][side_idx]
                    .push(object! {
                        "level_key": array![elem_key[0], elem_key[1]],
                        "cell_id": *elem_id,
                    })
                    .unwrap();
            }
        }
        edge_json
    }
}
