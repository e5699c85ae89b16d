//! The Mesh: construction, queries, h- and p-refinement.
use crate::parts::*;
use crate::refine::*;
use crate::space::*;
use crate::*;
use json::{object, JsonValue};
use smallvec::SmallVec;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fs::{read_to_string, File};
use std::io::{BufWriter, Write};
use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct Mesh {
    pub elements: Vec<Arc<Element>>,
    pub elems: Vec<Elem>,
    pub nodes: Vec<Node>,
    pub edges: Vec<Edge>,
}

impl Mesh {
    pub fn unit() -> Self {
        let points = [
            Point::new(-1.0, -1.0),
            Point::new(1.0, -1.0),
            Point::new(-1.0, 1.0),
            Point::new(1.0, 1.0),
        ];
        let element = Arc::new(Element::new(0, points, Materials::default()));
        let elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], element.clone());
        let mut nodes = Vec::new();
        for (id, p) in points.iter().enumerate() {
            nodes.push(Node::new(id, *p, true));
        }
        let mut edges = Vec::new();
        for (id, [a, b]) in [[0, 1], [2, 3], [0, 2], [1, 3]].into_iter().enumerate() {
            edges.push(Edge::new(id, [&nodes[a], &nodes[b]], true));
        }
        for edge in edges.iter_mut() {
            edge.connect_elem(&elem);
        }
        for node in nodes.iter_mut() {
            node.connect_elem(&elem);
        }
        Mesh { elements: vec![element], elems: vec![elem], nodes, edges }
    }
    pub fn blank() -> Self {
        Mesh { elements: Vec::new(), elems: Vec::new(), nodes: Vec::new(), edges: Vec::new() }
    }

    pub fn from_file(path: impl AsRef<str>) -> std::io::Result<Self> {
        let text = read_to_string(path.as_ref())?;
        let parsed = json::parse(&text).expect("json");
        let (mut materials, mut node_ids_of) = parse_element_information(&parsed);
        let points = parse_node_information(&parsed);

        let elements: Vec<Arc<Element>> = materials
            .drain(..)
            .zip(node_ids_of.iter())
            .enumerate()
            .map(|(id, (material, n))| {
                Arc::new(Element::new(
                    id,
                    [points[n[0]], points[n[1]], points[n[2]], points[n[3]]],
                    material,
                ))
            })
            .collect();

        // a node shared by fewer than four elements is on the boundary
        let mut uses = vec![0; points.len()];
        for n in node_ids_of.iter() {
            for id in n.iter() {
                uses[*id] += 1;
            }
        }
        let on_boundary: Vec<bool> = uses
            .iter()
            .map(|count| {
                if *count > 4 {
                    panic!();
                }
                *count < 4
            })
            .collect();
        let mut nodes: Vec<Node> =
            points.iter().enumerate().map(|(id, p)| Node::new(id, *p, on_boundary[id])).collect();

        // which element is on each side of the edge between two nodes
        let mut sides_of: BTreeMap<[usize; 2], [Option<usize>; 2]> = BTreeMap::new();
        for (element_id, n) in node_ids_of.iter().enumerate() {
            for (ends, side) in EDGE_IDX_DEFS {
                sides_of
                    .entry([n[ends[0]], n[ends[1]]])
                    .and_modify(|sides| {
                        if sides[side].is_some() {
                            panic!();
                        }
                        sides[side] = Some(element_id);
                    })
                    .or_insert(match side {
                        0 => [Some(element_id), None],
                        1 => [None, Some(element_id)],
                        _ => unreachable!(),
                    });
            }
        }
        let edge_on_boundary: Vec<bool> = sides_of
            .values()
            .map(|sides| match sides.iter().flatten().count() {
                0 => panic!(),
                1 => true,
                2 => false,
                _ => unreachable!(),
            })
            .collect();
        let mut edges: Vec<Edge> = sides_of
            .keys()
            .enumerate()
            .map(|(id, ends)| Edge::new(id, [&nodes[ends[0]], &nodes[ends[1]]], edge_on_boundary[id]))
            .collect();

        // the edges around each elem
        let mut edges_of: Vec<[Option<usize>; 4]> = vec![[None; 4]; elements.len()];
        for (edge_id, sides) in sides_of.values().enumerate() {
            for (side, elem_id) in
                sides.iter().enumerate().filter(|(_, s)| s.is_some()).map(|(side, s)| (side, s.unwrap()))
            {
                let place = match (side, edges[edge_id].dir) {
                    (0, ParaDir::U) => 1,
                    (1, ParaDir::U) => 0,
                    (0, ParaDir::V) => 3,
                    (1, ParaDir::V) => 2,
                    _ => unreachable!(),
                };
                if edges_of[elem_id][place].is_some() {
                    panic!();
                }
                edges_of[elem_id][place] = Some(edge_id);
            }
        }

        let elems: Vec<Elem> = node_ids_of
            .drain(..)
            .enumerate()
            .map(|(elem_id, n)| {
                let edge_ids: [usize; 4] = edges_of[elem_id]
                    .iter()
                    .flatten()
                    .copied()
                    .collect::<Vec<usize>>()
                    .try_into()
                    .unwrap();
                let elem = Elem::new(elem_id, n, edge_ids, elements[elem_id].clone());
                for edge_id in elem.edges.iter() {
                    edges[*edge_id].connect_elem(&elem)
                }
                for node_id in elem.nodes.iter() {
                    nodes[*node_id].connect_elem(&elem);
                }
                elem
            })
            .collect();

        let mut mesh = Mesh { elements, elems, nodes, edges };
        mesh.set_edge_activation();
        Ok(mesh)
    }

    pub fn export_to_json(&mut self, path: impl AsRef<str>) -> std::io::Result<()> {
        self.set_edge_activation();
        let file = File::create(path.as_ref())?;
        let mut out = BufWriter::new(&file);
        let tree = object! {
            "Elements": JsonValue::from(self.elements.iter().map(|x| x.to_json()).collect::<Vec<_>>()),
            "Elems": JsonValue::from(self.elems.iter().map(|x| x.to_json()).collect::<Vec<_>>()),
            "Nodes": JsonValue::from(self.nodes.iter().map(|x| x.to_json()).collect::<Vec<_>>()),
            "Edges": JsonValue::from(self.edges.iter().map(|x| x.to_json()).collect::<Vec<_>>()),
        };
        tree.write_pretty(&mut out, 4)?;
        out.flush()?;
        Ok(())
    }

    pub fn elem_points(&self, elem_id: usize) -> Result<[&Point; 4], MeshAccessError> {
        if elem_id >= self.elems.len() {
            return Err(MeshAccessError::ElemDoesNotExist(elem_id));
        }
        let n = &self.elems[elem_id].nodes;
        Ok([
            &self.nodes[n[0]].coords,
            &self.nodes[n[1]].coords,
            &self.nodes[n[2]].coords,
            &self.nodes[n[3]].coords,
        ])
    }
    pub fn elem_diag_points(&self, elem_id: usize) -> Result<[&Point; 2], MeshAccessError> {
        if elem_id >= self.elems.len() {
            return Err(MeshAccessError::ElemDoesNotExist(elem_id));
        }
        let n = &self.elems[elem_id].nodes;
        Ok([&self.nodes[n[0]].coords, &self.nodes[n[3]].coords])
    }
    pub fn edge_points(&self, edge_id: usize) -> Result<[&Point; 2], MeshAccessError> {
        if edge_id >= self.edges.len() {
            return Err(MeshAccessError::EdgeDoesNotExist(edge_id));
        }
        let n = &self.edges[edge_id].nodes;
        Ok([&self.nodes[n[0]].coords, &self.nodes[n[1]].coords])
    }

    pub fn descendant_elems(&self, elem_id: usize, include_starting_elem: bool) -> Result<Vec<usize>, MeshAccessError> {
        if elem_id >= self.elems.len() {
            return Err(MeshAccessError::ElemDoesNotExist(elem_id));
        }
        let mut found = Vec::new();
        self.rec_descendant_elems(elem_id, include_starting_elem, &mut found);
        Ok(found)
    }
    fn rec_descendant_elems(&self, elem_id: usize, include: bool, desc: &mut Vec<usize>) {
        if include {
            desc.push(elem_id);
        }
        if let Some(children) = self.elems[elem_id].child_ids() {
            for child in children {
                self.rec_descendant_elems(child, true, desc);
            }
        }
    }
    pub fn ancestor_elems(&self, elem_id: usize, include_starting_elem: bool) -> Result<Vec<usize>, MeshAccessError> {
        if elem_id >= self.elems.len() {
            return Err(MeshAccessError::ElemDoesNotExist(elem_id));
        }
        let mut found = Vec::new();
        self.rec_ancestor_elems(elem_id, include_starting_elem, &mut found);
        Ok(found)
    }
    fn rec_ancestor_elems(&self, elem_id: usize, include: bool, anc: &mut Vec<usize>) {
        if include {
            anc.push(elem_id);
        }
        if let Some(parent) = self.elems[elem_id].parent_id() {
            self.rec_ancestor_elems(parent, true, anc);
        }
    }
    pub fn descendant_edges(&self, edge_id: usize, include_starting_edge: bool) -> Result<Vec<usize>, MeshAccessError> {
        if edge_id >= self.edges.len() {
            return Err(MeshAccessError::EdgeDoesNotExist(edge_id));
        }
        let mut found = Vec::new();
        self.rec_descendant_edges(edge_id, include_starting_edge, &mut found);
        Ok(found)
    }
    fn rec_descendant_edges(&self, edge_id: usize, include: bool, desc: &mut Vec<usize>) {
        if include {
            desc.push(edge_id);
        }
        if let Some(children) = self.edges[edge_id].child_ids() {
            for child in children {
                self.rec_descendant_edges(child, true, desc);
            }
        }
    }

    pub fn max_expansion_orders(&self) -> [u8; 2] {
        let mut most = [0; 2];
        for elem in self.elems.iter() {
            most = elem.poly_orders.max_with(most);
        }
        most
    }

    /// Exists, has no children, and every edge is longer than the minimum.
    pub fn elem_is_h_refineable(&self, elem_id: usize) -> Result<bool, MeshAccessError> {
        if elem_id >= self.elems.len() {
            return Err(MeshAccessError::ElemDoesNotExist(elem_id));
        }
        let elem = &self.elems[elem_id];
        if elem.has_children() {
            return Ok(false);
        }
        Ok(elem.edges.iter().all(|id| self.edges[*id].length > MIN_EDGE_LENGTH))
    }
    /// The deltas that keep both orders within 1..=20.
    pub fn elem_p_refinement_window(&self, elem_id: usize) -> Result<[[i8; 2]; 2], MeshAccessError> {
        if elem_id >= self.elems.len() {
            return Err(MeshAccessError::ElemDoesNotExist(elem_id));
        }
        let orders = self.elems[elem_id].poly_orders;
        let window = |n: u8| [-(n as i8 - 1), (MAX_POLYNOMIAL_ORDER - n) as i8];
        Ok([window(orders.ni), window(orders.nj)])
    }

    pub fn global_h_refinement(&mut self, refinement: HRef) {
        let all: Vec<(usize, HRef)> = self
            .elems
            .iter()
            .filter(|elem| self.elem_is_h_refineable(elem.id).unwrap())
            .map(|elem| (elem.id, refinement))
            .collect();
        self.execute_h_refinements(all).unwrap()
    }
    pub fn h_refine_elems(&mut self, elems: Vec<usize>, refinement: HRef) -> Result<(), HRefError> {
        if elems.iter().enumerate().any(|(i, a)| elems.iter().skip(i + 1).any(|b| a == b)) {
            return Err(HRefError::DuplicateElemIds);
        }
        self.execute_h_refinements(elems.iter().map(|id| (*id, refinement)).collect())
    }
    pub fn h_refine_with_filter<F>(&mut self, filt: F)
    where
        F: Fn(&Elem) -> Option<HRef>,
    {
        let mut chosen = Vec::new();
        for elem in self.elems.iter() {
            if self.elem_is_h_refineable(elem.id).unwrap() {
                if let Some(refinement) = filt(elem) {
                    chosen.push((elem.id, refinement));
                }
            }
        }
        self.execute_h_refinements(chosen).unwrap()
    }
    /// All or nothing: `self` changes only when every refinement succeeds.
    pub fn execute_h_refinements(&mut self, refinements: Vec<(usize, HRef)>) -> Result<(), HRefError> {
        let mut copy = self.clone();
        match copy.apply_h_refinements(refinements) {
            Ok(()) => {
                *self = copy;
                Ok(())
            }
            Err(e) => Err(e),
        }
    }
    fn apply_h_refinements(&mut self, refinements: Vec<(usize, HRef)>) -> Result<(), HRefError> {
        let mut by_elem: BTreeMap<usize, HRef> = BTreeMap::new();
        for (elem_id, refinement) in refinements {
            if let HRef::U(Some(child)) | HRef::V(Some(child)) = refinement {
                if child > 1 {
                    return Err(HRefError::BisectionIdxExceeded);
                }
            }
            match self.elem_is_h_refineable(elem_id) {
                Err(e) => return Err(HRefError::from(e)),
                Ok(false) => return Err(HRefError::ElemNotRefineable(elem_id)),
                Ok(true) => {
                    by_elem.entry(elem_id).and_modify(|r| *r += refinement).or_insert(refinement);
                }
            }
        }

        let mut extensions: Vec<(usize, HRef)> = Vec::new();
        let mut elem_ids = self.elems.len();
        let mut node_ids = IdTracker::new(self.nodes.len());
        let mut edge_ids = IdTracker::new(self.edges.len());
        for (elem_id, refinement) in by_elem {
            let unfinished = self.elems[elem_id].h_refine(refinement, &mut elem_ids)?;
            let mut children = match refinement {
                HRef::T => self.execute_t_refinement(unfinished, elem_id, &mut node_ids, &mut edge_ids)?,
                HRef::U(extension) => {
                    let children = self.execute_u_refinement(unfinished, elem_id, &mut node_ids, &mut edge_ids)?;
                    if let Some(child) = extension {
                        extensions.push((children[child].id, HRef::V(None)));
                    }
                    children
                }
                HRef::V(extension) => {
                    let children = self.execute_v_refinement(unfinished, elem_id, &mut node_ids, &mut edge_ids)?;
                    if let Some(child) = extension {
                        extensions.push((children[child].id, HRef::U(None)));
                    }
                    children
                }
            };
            self.elems.extend(children.drain(..));
        }
        if !extensions.is_empty() {
            self.apply_h_refinements(extensions)?;
        }
        self.set_edge_activation();
        Ok(())
    }

    fn execute_t_refinement(
        &mut self,
        mut new_elems: Vec<ElemUninit>,
        parent: usize,
        node_ids: &mut IdTracker,
        edge_ids: &mut IdTracker,
    ) -> Result<Vec<Elem>, HRefError> {
        if new_elems.len() != 4 {
            panic!();
        }
        // the center of the parent becomes a node
        let corners = self.elem_points(parent).unwrap();
        let center = node_ids.next_id();
        let center_point = Point::between(corners[0], corners[3]);
        if center != self.nodes.len() {
            panic!();
        }
        self.nodes.push(Node::new(center, center_point, false));
        // child k keeps the parent's corner k; the opposite corner is the center
        for (k, child) in new_elems.iter_mut().enumerate() {
            child.set_node(3 - k, center);
            child.set_node(k, self.elems[parent].nodes[k]);
        }
        // per parent edge: its two children, the corners they share there, and the side of
        // each that faces the new inner edge
        for (edge, kids, corners, inner) in [
            (0, [0, 1], [1, 0], [3, 2]),
            (1, [2, 3], [3, 2], [3, 2]),
            (2, [0, 2], [2, 0], [1, 0]),
            (3, [1, 3], [3, 1], [1, 0]),
        ] {
            let (halves, middle) = self.h_refine_edge_if_needed(self.elems[parent].edges[edge], node_ids, edge_ids)?;
            new_elems[kids[0]].set_edge(edge, halves[0]);
            new_elems[kids[1]].set_edge(edge, halves[1]);
            new_elems[kids[0]].set_node(corners[0], middle);
            new_elems[kids[1]].set_node(corners[1], middle);
            let inner_edge = self.new_edge_between_nodes([middle, center], edge_ids, parent)?;
            new_elems[kids[0]].set_edge(inner[0], inner_edge);
            new_elems[kids[1]].set_edge(inner[1], inner_edge);
        }
        self.upgrade_uninit_elems(new_elems)
    }
    fn execute_u_refinement(
        &mut self,
        mut new_elems: Vec<ElemUninit>,
        parent: usize,
        node_ids: &mut IdTracker,
        edge_ids: &mut IdTracker,
    ) -> Result<Vec<Elem>, HRefError> {
        if new_elems.len() != 2 {
            panic!();
        }
        let mut ends = [0; 2];
        // bottom (0) and top (1) edges are halved; west and east child
        for (edge, corners, outer) in [(0, [1, 0], [0, 1]), (1, [3, 2], [2, 3])] {
            let (halves, middle) = self.h_refine_edge_if_needed(self.elems[parent].edges[edge], node_ids, edge_ids)?;
            ends[edge] = middle;
            new_elems[0].set_edge(edge, halves[0]);
            new_elems[1].set_edge(edge, halves[1]);
            new_elems[0].set_node(corners[0], middle);
            new_elems[1].set_node(corners[1], middle);
            new_elems[0].set_node(outer[0], self.elems[parent].nodes[outer[0]]);
            new_elems[1].set_node(outer[1], self.elems[parent].nodes[outer[1]]);
        }
        let inner_edge = self.new_edge_between_nodes(ends, edge_ids, parent)?;
        new_elems[0].set_edge(3, inner_edge);
        new_elems[1].set_edge(2, inner_edge);
        new_elems[0].set_edge(2, self.elems[parent].edges[2]);
        new_elems[1].set_edge(3, self.elems[parent].edges[3]);
        self.upgrade_uninit_elems(new_elems)
    }
    fn execute_v_refinement(
        &mut self,
        mut new_elems: Vec<ElemUninit>,
        parent: usize,
        node_ids: &mut IdTracker,
        edge_ids: &mut IdTracker,
    ) -> Result<Vec<Elem>, HRefError> {
        if new_elems.len() != 2 {
            panic!();
        }
        let mut ends = [0; 2];
        // left (2) and right (3) edges are halved; south and north child
        for (edge, corners, outer) in [(2, [2, 0], [0, 2]), (3, [3, 1], [1, 3])] {
            let (halves, middle) = self.h_refine_edge_if_needed(self.elems[parent].edges[edge], node_ids, edge_ids)?;
            ends[edge - 2] = middle;
            new_elems[0].set_edge(edge, halves[0]);
            new_elems[1].set_edge(edge, halves[1]);
            new_elems[0].set_node(corners[0], middle);
            new_elems[1].set_node(corners[1], middle);
            new_elems[0].set_node(outer[0], self.elems[parent].nodes[outer[0]]);
            new_elems[1].set_node(outer[1], self.elems[parent].nodes[outer[1]]);
        }
        let inner_edge = self.new_edge_between_nodes(ends, edge_ids, parent)?;
        new_elems[0].set_edge(1, inner_edge);
        new_elems[1].set_edge(0, inner_edge);
        new_elems[0].set_edge(0, self.elems[parent].edges[0]);
        new_elems[1].set_edge(1, self.elems[parent].edges[1]);
        self.upgrade_uninit_elems(new_elems)
    }
    /// An edge is halved once: later users of the same edge get the same halves and node.
    fn h_refine_edge_if_needed(
        &mut self,
        parent: usize,
        node_ids: &mut IdTracker,
        edge_ids: &mut IdTracker,
    ) -> Result<(SmallVec<[usize; 2]>, usize), HRefError> {
        if self.edges[parent].has_children() {
            return Ok((self.edges[parent].child_ids().unwrap(), self.edges[parent].child_node_id().unwrap()));
        }
        let halves = edge_ids.next_two_ids();
        let middle = node_ids.next_id();
        let mut new_edges = self.edges[parent].h_refine(halves, middle)?;
        self.edges.extend(new_edges.drain(..));
        let ends = self.edge_points(parent).unwrap();
        let at = Point::between(ends[0], ends[1]);
        if middle != self.nodes.len() {
            panic!();
        }
        self.nodes.push(Node::new(middle, at, self.edges[parent].boundary));
        Ok((SmallVec::from(halves), middle))
    }
    /// The new edge runs from the lower to the higher point and is never on the boundary.
    fn new_edge_between_nodes(
        &mut self,
        ends: [usize; 2],
        edge_ids: &mut IdTracker,
        parent_elem: usize,
    ) -> Result<usize, HRefError> {
        if ends[0] == ends[1] {
            panic!();
        }
        let id = edge_ids.next_id();
        let a = &self.nodes[ends[0]];
        let b = &self.nodes[ends[1]];
        let edge = match self.elems[parent_elem].element.order_points(&a.coords, &b.coords) {
            Ordering::Less => Edge::new(id, [a, b], false),
            Ordering::Greater => Edge::new(id, [b, a], false),
            Ordering::Equal => return Err(HRefError::EdgeOnEqualPoints(parent_elem)),
        };
        self.edges.push(edge);
        Ok(id)
    }
    fn upgrade_uninit_elems(&mut self, mut unfinished: Vec<ElemUninit>) -> Result<Vec<Elem>, HRefError> {
        let mut elems = Vec::new();
        for u in unfinished.drain(..) {
            elems.push(u.into_elem()?);
        }
        for elem in elems.iter() {
            for id in elem.edges {
                self.edges[id].connect_elem(elem);
            }
            for id in elem.nodes {
                self.nodes[id].connect_elem(elem);
            }
        }
        Ok(elems)
    }

    /// Everything is reset, then each inner root edge is activated from its leaves up.
    pub fn set_edge_activation(&mut self) {
        for edge in self.edges.iter_mut() {
            edge.reset_activation();
        }
        let roots: Vec<usize> = self
            .edges
            .iter()
            .filter(|e| e.parent_id().is_none() && !e.boundary)
            .map(|e| e.id)
            .collect();
        for root in roots.iter() {
            if !self.rec_set_edge_activation_in_tree(*root) {
                panic!();
            }
        }
    }
    fn rec_set_edge_activation_in_tree(&mut self, edge_id: usize) -> bool {
        if !self.edges[edge_id].set_activation() {
            return false;
        }
        if let Some(children) = self.edges[edge_id].child_ids() {
            let first = self.rec_set_edge_activation_in_tree(children[0]);
            let second = self.rec_set_edge_activation_in_tree(children[1]);
            if first != second {
                panic!();
            }
            if first {
                self.edges[edge_id].reset_activation();
            }
        }
        true
    }

    pub fn global_p_refinement(&mut self, refinement: PRef) {
        let mut all = Vec::new();
        for elem in self.elems.iter() {
            let window = self.elem_p_refinement_window(elem.id).unwrap();
            all.push((elem.id, refinement.constrained_to(window)));
        }
        self.execute_p_refinements(all).unwrap()
    }
    pub fn p_refine_elems(&mut self, elems: Vec<usize>, refinement: PRef) -> Result<(), PRefError> {
        if elems.iter().enumerate().any(|(i, a)| elems.iter().skip(i + 1).any(|b| a == b)) {
            return Err(PRefError::DuplicateElemIds);
        }
        self.execute_p_refinements(elems.iter().map(|id| (*id, refinement)).collect())
    }
    pub fn p_refine_with_filter<F>(&mut self, filt: F)
    where
        F: Fn(&Elem) -> Option<PRef>,
    {
        let mut chosen = Vec::new();
        for elem in self.elems.iter() {
            if let Some(refinement) = filt(elem) {
                let window = self.elem_p_refinement_window(elem.id).unwrap();
                chosen.push((elem.id, refinement.constrained_to(window)));
            }
        }
        self.execute_p_refinements(chosen).unwrap()
    }
    pub fn p_refine_with_filter_bounded<F>(&mut self, filt: F) -> Result<(), PRefError>
    where
        F: Fn(&Elem, [[i8; 2]; 2]) -> Option<PRef>,
    {
        let mut chosen = Vec::new();
        for elem in self.elems.iter() {
            let window = self.elem_p_refinement_window(elem.id).unwrap();
            if let Some(refinement) = filt(elem, window) {
                chosen.push((elem.id, refinement));
            }
        }
        self.execute_p_refinements(chosen)
    }
    /// Everything is validated before any order changes.
    pub fn execute_p_refinements(&mut self, refinements: Vec<(usize, PRef)>) -> Result<(), PRefError> {
        let mut by_elem: BTreeMap<usize, PRef> = BTreeMap::new();
        for (elem_id, refinement) in refinements {
            if elem_id >= self.elems.len() {
                return Err(PRefError::ElemDoesNotExist(elem_id));
            }
            by_elem.entry(elem_id).and_modify(|r| *r += refinement).or_insert(refinement);
        }
        for (elem_id, refinement) in by_elem.iter() {
            let window = self.elem_p_refinement_window(*elem_id)?;
            if !refinement.falls_within(window) {
                return Err(PRefError::RefinementOutOfBounds(*elem_id));
            }
        }
        for (elem_id, refinement) in by_elem {
            self.elems[elem_id].poly_orders.refine(refinement)?;
        }
        Ok(())
    }
    pub fn set_global_expansion_orders(&mut self, orders: Orders) {
        let all = self.elems.iter().map(|elem| (elem.id, orders)).collect();
        self.set_expansion_orders(all).unwrap()
    }
    pub fn set_expansion_on_elems(&mut self, elems: Vec<usize>, orders: Orders) -> Result<(), PRefError> {
        self.set_expansion_orders(elems.iter().map(|id| (*id, orders)).collect())
    }
    pub fn set_expansions_with_filter<F>(&mut self, filt: F)
    where
        F: Fn(&Elem) -> Option<Orders>,
    {
        let mut chosen = Vec::new();
        for elem in self.elems.iter() {
            if let Some(orders) = filt(elem) {
                chosen.push((elem.id, orders));
            }
        }
        self.set_expansion_orders(chosen).unwrap()
    }
    pub fn set_expansion_orders(&mut self, poly_orders: Vec<(usize, Orders)>) -> Result<(), PRefError> {
        let mut by_elem: BTreeMap<usize, [u8; 2]> = BTreeMap::new();
        for (elem_id, orders) in poly_orders {
            if elem_id >= self.elems.len() {
                return Err(PRefError::ElemDoesNotExist(elem_id));
            }
            if by_elem.insert(elem_id, [orders.i, orders.j]).is_some() {
                return Err(PRefError::DuplicateElemIds);
            }
        }
        for (elem_id, orders) in by_elem {
            self.elems[elem_id].poly_orders.set(orders)?;
        }
        Ok(())
    }
}

/// Node pairs of the edges around an elem, and the side of that edge the elem is on.
const EDGE_IDX_DEFS: [([usize; 2], usize); 4] = [([0, 1], 1), ([2, 3], 0), ([0, 2], 1), ([1, 3], 0)];

fn parse_element_information(file: &JsonValue) -> (Vec<Materials>, Vec<[usize; 4]>) {
    if !file["Elements"].is_array() {
        panic!();
    }
    let num_nodes = file["Nodes"].members().count();
    file["Elements"]
        .members()
        .map(|element| {
            if !element["node_ids"].is_array() {
                panic!();
            }
            if element["node_ids"].members().count() != 4 {
                panic!();
            }
            if !element["materials"].is_array() {
                panic!();
            }
            if element["materials"].members().count() != 4 {
                panic!();
            }
            let node_ids: [usize; 4] = element["node_ids"]
                .members()
                .map(|n| {
                    let id = n.as_usize().unwrap();
                    if id >= num_nodes {
                        panic!();
                    }
                    id
                })
                .collect::<Vec<usize>>()
                .try_into()
                .unwrap();
            if has_duplicates(&node_ids) {
                panic!();
            }
            let props: [f64; 4] = element["materials"]
                .members()
                .map(|p| p.as_f64().unwrap())
                .collect::<Vec<f64>>()
                .try_into()
                .unwrap();
            (Materials::from_array(props), node_ids)
        })
        .unzip()
}

fn parse_node_information(file: &JsonValue) -> Vec<Point> {
    if !file["Nodes"].is_array() {
        panic!();
    }
    let points: Vec<Point> = file["Nodes"]
        .members()
        .map(|n| {
            if !n.is_array() {
                panic!();
            }
            if n.members().count() != 2 {
                panic!();
            }
            Point::new(n[0].as_f64().unwrap(), n[1].as_f64().unwrap())
        })
        .collect();
    if has_duplicates(&points) {
        panic!();
    }
    points
}

fn has_duplicates<T>(values: &[T]) -> bool
where
    T: PartialEq,
{
    values.iter().enumerate().any(|(i, a)| values.iter().skip(i + 1).any(|b| a == b))
}

#[derive(Debug)]
pub enum MeshAccessError {
    ElemDoesNotExist(usize),
    EdgeDoesNotExist(usize),
    NodeDoesNotExist(usize),
}

pub struct IdTracker {
    next_id: usize,
}
impl IdTracker {
    pub fn new(start: usize) -> Self {
        IdTracker { next_id: start }
    }
    pub fn next_id(&mut self) -> usize {
        let id = self.next_id;
        self.next_id = id + 1;
        id
    }
    pub fn next_two_ids(&mut self) -> [usize; 2] {
        let id = self.next_id;
        self.next_id = id + 2;
        [id, id + 1]
    }
}
