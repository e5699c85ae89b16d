//! Degrees of freedom over a Mesh.
use crate::mesh::*;
use crate::parts::*;
use crate::*;
use smallvec::{smallvec, SmallVec};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ContinuityCondition {
    HCurl,
    HDiv,
    Discontinuous,
}

impl std::fmt::Display for ContinuityCondition {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Self::HCurl => write!(f, "H(Curl)"),
            Self::HDiv => write!(f, "H(Div)"),
            Self::Discontinuous => write!(f, "Discontinuous"),
        }
    }
}

pub struct Domain {
    pub mesh: Mesh,
    pub dofs: Vec<DoF>,
    pub basis_specs: Vec<Vec<BasisSpec>>,
    pub cc: ContinuityCondition,
}
impl Domain {
    pub fn blank(cc: ContinuityCondition) -> Self {
        Domain { mesh: Mesh::blank(), dofs: Vec::new(), basis_specs: Vec::new(), cc }
    }
    pub fn unit(cc: ContinuityCondition) -> Self {
        Domain::from_mesh(Mesh::unit(), cc)
    }
    /// One DoF per elem-type U/V function of a leaf Elem, then one per matching pair of
    /// U/V edge functions on the active Elems of each active Edge.
    pub fn from_mesh(mut mesh: Mesh, cc: ContinuityCondition) -> Self {
        mesh.set_edge_activation();
        let mut next_dof = IdTracker::new(0);
        let mut basis_specs = vec![Vec::new(); mesh.elems.len()];
        let mut dofs = Vec::new();
        let [on_elems, on_edges, _] = Domain::gen_basis_specs(&mesh, cc);

        for (elem_id, mut specs) in on_elems {
            if mesh.elems[elem_id].has_children() {
                continue;
            }
            basis_specs[elem_id] = Vec::new();
            for spec in specs.drain(..).filter(|s| s.dir == BasisDir::U || s.dir == BasisDir::V) {
                let dof = next_dof.next_id();
                let address = Domain::push_basis_spec(&mut basis_specs, spec, dof);
                dofs.push(DoF::new(dof, smallvec![address]));
            }
        }
        for (edge_id, mut specs) in on_edges {
            if let Some(active) = mesh.edges[edge_id].active_elem_pair() {
                let candidates: Vec<BasisSpec> = specs
                    .drain(..)
                    .filter(|s| {
                        (s.dir == BasisDir::U || s.dir == BasisDir::V) && active.contains(&s.elem_id)
                    })
                    .collect();
                let mut pairs: Vec<[usize; 2]> = Vec::new();
                for (a, first) in candidates.iter().enumerate() {
                    for (b, second) in candidates.iter().enumerate().skip(a + 1) {
                        if first.matches_with_edge(second) {
                            pairs.push([a, b]);
                            break;
                        }
                    }
                }
                for pair in pairs {
                    let dof = next_dof.next_id();
                    let addresses = pair
                        .iter()
                        .map(|k| Domain::push_basis_spec(&mut basis_specs, candidates[*k].clone(), dof))
                        .collect();
                    dofs.push(DoF::new(dof, addresses));
                }
            }
        }
        Domain { mesh, dofs, basis_specs, cc }
    }
    pub fn elems<'a>(&'a self) -> impl Iterator<Item = &'a Elem> + '_ {
        self.mesh.elems.iter()
    }
    pub fn edges<'a>(&'a self) -> impl Iterator<Item = &'a Edge> + '_ {
        self.mesh.edges.iter()
    }
    pub fn nodes<'a>(&'a self) -> impl Iterator<Item = &'a Node> + '_ {
        self.mesh.nodes.iter()
    }
    pub fn get_basis_spec(&self, at: BSAddress) -> Result<&BasisSpec, String> {
        if at.elem_id >= self.mesh.elems.len() {
            return Err(String::new());
        }
        if at.elem_idx >= self.basis_specs[at.elem_id].len() {
            return Err(String::new());
        }
        Ok(&self.basis_specs[at.elem_id][at.elem_idx])
    }
    /// Every function of every Elem, filed by the geometry that supports it; ids count up.
    fn gen_basis_specs(mesh: &Mesh, cc: ContinuityCondition) -> [BTreeMap<usize, Vec<BasisSpec>>; 3] {
        let mut on_elems: BTreeMap<usize, Vec<BasisSpec>> = BTreeMap::new();
        let mut on_edges: BTreeMap<usize, Vec<BasisSpec>> = BTreeMap::new();
        let mut on_nodes: BTreeMap<usize, Vec<BasisSpec>> = BTreeMap::new();
        let mut ids = IdTracker::new(0);
        for elem in mesh.elems.iter() {
            for dir in [BasisDir::U, BasisDir::V, BasisDir::W] {
                for orders in elem.poly_orders.permutations(dir) {
                    let spec = BasisSpec::new(ids.next_id(), orders, dir, elem, cc);
                    match spec.loc {
                        BasisLoc::ElemBs => on_elems
                            .entry(elem.id)
                            .and_modify(|list| list.push(spec.clone()))
                            .or_insert_with(|| vec![spec]),
                        BasisLoc::EdgeBs(_, edge_id) => on_edges
                            .entry(edge_id)
                            .and_modify(|list| list.push(spec.clone()))
                            .or_insert_with(|| vec![spec]),
                        BasisLoc::NodeBs(_, node_id) => on_nodes
                            .entry(node_id)
                            .and_modify(|list| list.push(spec.clone()))
                            .or_insert_with(|| vec![spec]),
                    };
                }
            }
        }
        [on_elems, on_edges, on_nodes]
    }
    pub fn local_basis_specs(&self, elem_id: usize) -> Result<&Vec<BasisSpec>, MeshAccessError> {
        if elem_id < self.mesh.elems.len() {
            Ok(&self.basis_specs[elem_id])
        } else {
            Err(MeshAccessError::ElemDoesNotExist(elem_id))
        }
    }
    pub fn descendant_basis_specs(&self, elem_id: usize) -> Result<Vec<(usize, &Vec<BasisSpec>)>, MeshAccessError> {
        let ids = self.mesh.descendant_elems(elem_id, false)?;
        Ok(ids.iter().map(|id| (*id, &self.basis_specs[*id])).collect())
    }
    pub fn ancestor_basis_specs(&self, elem_id: usize) -> Result<Vec<(usize, &Vec<BasisSpec>)>, MeshAccessError> {
        let ids = self.mesh.ancestor_elems(elem_id, false)?;
        Ok(ids.iter().map(|id| (*id, &self.basis_specs[*id])).collect())
    }
    /// The spec's address is its position in its Elem's list.
    fn push_basis_spec(basis_specs: &mut Vec<Vec<BasisSpec>>, mut bs: BasisSpec, dof_id: usize) -> BSAddress {
        let at = BSAddress { elem_id: bs.elem_id, elem_idx: basis_specs[bs.elem_id].len() };
        bs.set_dof_and_idx(dof_id, at.elem_idx);
        basis_specs[at.elem_id].push(bs);
        at
    }
}

pub struct DoF {
    pub id: usize,
    basis_specs: BasisSpecGroup,
}
impl DoF {
    pub fn new(id: usize, at: SmallVec<[BSAddress; 4]>) -> Self {
        let basis_specs = match at.len() {
            1 => BasisSpecGroup::ElemGroup(at[0]),
            2 => BasisSpecGroup::EdgeGroup([at[0], at[1]]),
            4 => BasisSpecGroup::NodeGroup([at[0], at[1], at[2], at[3]]),
            _ => panic!(),
        };
        DoF { id, basis_specs }
    }
    pub fn get_basis_specs(&self) -> SmallVec<[BSAddress; 4]> {
        match self.basis_specs {
            BasisSpecGroup::ElemGroup(a) => smallvec![a],
            BasisSpecGroup::EdgeGroup(a) => smallvec![a[0], a[1]],
            BasisSpecGroup::NodeGroup(a) => smallvec![a[0], a[1], a[2], a[3]],
        }
    }
}
enum BasisSpecGroup {
    ElemGroup(BSAddress),
    EdgeGroup([BSAddress; 2]),
    NodeGroup([BSAddress; 4]),
}

#[derive(Clone, Debug)]
pub struct BasisSpec {
    pub id: usize,
    pub i: u8,
    pub j: u8,
    pub dir: BasisDir,
    pub elem_id: usize,
    pub elem_idx: Option<usize>,
    pub dof_id: Option<usize>,
    pub loc: BasisLoc,
}
impl BasisSpec {
    /// H(Curl): a U function with j < 2 lives on edge j, a V function with i < 2 on edge
    /// 2 + i; W functions on node i + 2j, edge j or edge 2 + i; the rest on the Elem.
    pub fn new(id: usize, orders: [u8; 2], dir: BasisDir, elem: &Elem, cc: ContinuityCondition) -> Self {
        if cc != ContinuityCondition::HCurl {
            unimplemented!();
        }
        let [i, j] = orders;
        let loc = match dir {
            BasisDir::U if j < 2 => BasisLoc::edge_bs(elem, j),
            BasisDir::V if i < 2 => BasisLoc::edge_bs(elem, i + 2),
            BasisDir::W if i < 2 && j < 2 => BasisLoc::node_bs(elem, i + 2 * j),
            BasisDir::W if i < 2 => BasisLoc::edge_bs(elem, i + 2),
            BasisDir::W if j < 2 => BasisLoc::edge_bs(elem, j),
            _ => BasisLoc::ElemBs,
        };
        BasisSpec { id, i, j, dir, elem_id: elem.id, elem_idx: None, dof_id: None, loc }
    }
    /// Same direction and tangential order, opposite ends in the other direction, opposite
    /// edges of their own Elem.
    pub fn matches_with_edge(&self, other: &Self) -> bool {
        if let (BasisLoc::EdgeBs(side_0, edge_0), BasisLoc::EdgeBs(side_1, edge_1)) = (self.loc, other.loc) {
            if edge_0 != edge_1 {
                panic!();
            }
            let along_u = || self.i == other.i && self.j + other.j == 1 && side_0 + side_1 == 1;
            let along_v = || self.j == other.j && self.i + other.i == 1 && side_0 + side_1 == 5;
            if self.dir != other.dir {
                return false;
            }
            match self.dir {
                BasisDir::U => along_u(),
                BasisDir::V => along_v(),
                BasisDir::W => {
                    if self.i > 1 && other.i > 1 {
                        along_u()
                    } else if self.j > 1 && other.j > 1 {
                        along_v()
                    } else {
                        false
                    }
                }
            }
        } else {
            panic!()
        }
    }
    pub fn set_dof_and_idx(&mut self, dof_id: usize, elem_idx: usize) {
        if self.dof_id.is_some() || self.elem_idx.is_some() {
            panic!();
        }
        self.dof_id = Some(dof_id);
        self.elem_idx = Some(elem_idx);
    }
    pub fn integration_data(&self) -> ([usize; 2], BasisDir, usize) {
        match self.dof_id {
            Some(dof) => ([self.i as usize, self.j as usize], self.dir, dof),
            None => panic!(),
        }
    }
}
impl PartialEq for BasisSpec {
    fn eq(&self, o: &Self) -> bool {
        self.i == o.i && self.j == o.j && self.dir == o.dir && self.loc == o.loc
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BasisDir {
    U,
    V,
    W,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BasisLoc {
    ElemBs,
    EdgeBs(u8, usize),
    NodeBs(u8, usize),
}
impl BasisLoc {
    pub fn edge_bs(elem: &Elem, idx: u8) -> Self {
        BasisLoc::EdgeBs(idx, elem.edges[idx as usize])
    }
    pub fn node_bs(elem: &Elem, idx: u8) -> Self {
        BasisLoc::NodeBs(idx, elem.nodes[idx as usize])
    }
}
#[derive(Clone, Copy, Debug)]
pub struct BSAddress {
    pub elem_id: usize,
    pub elem_idx: usize,
}
impl BSAddress {
    pub fn new(elem_id: usize, elem_idx: usize) -> Self {
        BSAddress { elem_id, elem_idx }
    }
}
