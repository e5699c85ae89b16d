"""Structural rules over the resolved program (call graph, writers, must-pass, types)."""
import os, re, json, subprocess, functools
import ir, build
from ir import operands_of_rvalue, succs, short_ty

class Ctx:
    def __init__(self, R, S, full, res=None): self.R = R; self.S = S; self.full = full; self.res = res or {}
    @functools.cached_property
    def graph(self): return Graph(self.R)

def res(statement, examined, violations=(), undecided=()):
    return dict(statement=statement, instances=len(examined), examined=list(examined), violations=list(violations), undecided=list(undecided))

# ---------------------------------------------------------------- program facts
def name_of(b):
    """function a body belongs to (closures belong to the function that builds them)"""
    return ir.Program.fname(b)

class Graph:
    def __init__(self, P):
        self.P = P
        self.fns = {k: b for k, b in P.fns.items() if b.j["kind"] in ("Fn", "AssocFn", "Closure")}
        self.root = {}
        for k, b in self.fns.items():
            r = b.j.get("root") or k
            self.root[k] = r if r in self.fns else k
        self.out = {}; self.callers = {}; self.ext = {}
        for k, b in self.fns.items():
            o = set(); x = []
            for bi, bb in enumerate(b.blocks):
                if not bb: continue
                for s in bb[0]:
                    if s[0] != "=": continue
                    if s[2][0] == "closure": o.add(s[2][1])
                    for p in operands_of_rvalue(s[2]): self._op(p, o, x, bi, s[-1])
                t = bb[1]
                if t[0] == "call":
                    for p in [t[1]] + t[2]: self._op(p, o, x, bi, t[-1])
                if t[0] == "drop": self._drop(b, t, o)
            self.out[k] = {c for c in o if c in self.fns}; self.ext[k] = x
        for k, cs in self.out.items():
            for c in cs: self.callers.setdefault(c, set()).add(k)
    def _op(self, o, out, ext, bi, line):
        if o[0] == "k" and o[1][0] == "fn":
            i = o[1][1]; key = i.get("rkey", i["key"]); out.add(key)
            if key not in self.P.fns:
                ext.append((i.get("rpath") or i["path"], i, bi, line))
                # a trait method of a local trait may reach any of its local implementations
                tr = i.get("trait")
                if tr and not tr.startswith(("std::", "core::", "alloc::")):
                    for b in self.P.fns.values():
                        if b.j.get("impl_trait") == tr and b.j["name"] == i["name"]: out.add(b.key)
    def _drop(self, b, t, out):
        try: ty = place_ty(self.P, b, t[1])
        except Exception: return
        d = drop_impl(self.P, ty)
        if d: out.add(d)
    def reach(self, keys):
        seen = set(); st = list(keys)
        while st:
            k = st.pop()
            if k in seen or k not in self.out: continue
            seen.add(k); st.extend(self.out[k])
        return seen
    def by_name(self, n): return [b.key for b in self.P.names.get(n, [])]

def drop_impl(P, ty):
    if not ty or ty.get("k") != "adt": return None
    for b in P.fns.values():
        if b.j["name"] == "drop" and b.j.get("impl_trait", "").endswith("Drop"):
            if adt_base(b.j.get("impl_self", "")) == adt_base(ty["s"]): return b.key
    return None
def adt_base(s): return re.sub(r"<.*$", "", s).split("::")[-1].strip("& ")

def place_ty(P, b, p):
    ty = b.locals[p[0]]
    for e in p[1]:
        if ty is None: return None
        if e[0] == "*":
            ty = ty.get("to") if ty["k"] == "ref" else (ty["args"][0] if ty["k"] == "adt" and ty.get("args") else None)
        elif e[0] == "f":
            if ty["k"] == "adt":
                a = P.adts.get(ty["key"])
                f = None
                if a:
                    for v in a["variants"]:
                        for x in v["fields"]:
                            if x[0] == e[2]: f = x[1]
                ty = f if isinstance(f, dict) else None
            elif ty["k"] == "tuple": ty = ty["of"][e[1]]
            else: ty = None
        elif e[0] in ("i", "ci"): ty = ty.get("of") if ty["k"] in ("array", "slice") else None
        else: ty = None if e[0] != "as" else ty
    return ty

def field_touches(P, b):
    """(adt name, field, block, line, how) for every place written or mutably borrowed"""
    def scan(p, bi, line, how):
        ty = b.locals[p[0]]
        for n, e in enumerate(p[1]):
            if e[0] == "f":
                t = place_ty(P, b, [p[0], p[1][:n]])
                if t is not None and t["k"] == "adt": yield adt_base(t["s"]), e[2], bi, line, how
    for bi, bb in enumerate(b.blocks):
        if not bb: continue
        for s in bb[0]:
            if s[0] == "=":
                if s[1][1]: yield from scan(s[1], bi, s[-1], "assigned")
                r = s[2]
                if r[0] == "ref" and r[1] != "shared": yield from scan(r[2], bi, s[-1], "mutably borrowed")
        t = bb[1]
        if t[0] == "call" and t[3][1]: yield from scan(t[3], bi, t[-1], "assigned")

def callee(t):
    if t[0] == "call" and t[1][0] == "k" and t[1][1][0] == "fn": return t[1][1][1]
    return None

# ---------------------------------------------------------------- who may write
def writers(ctx, what, fields, allowed, statement):
    G = ctx.graph; P = ctx.R
    ok = set()
    for n in allowed: ok |= {k for k in G.by_name(n)}
    for k in G.fns:
        if G.root[k] in ok: ok.add(k)
    hits = {}
    for k, b in G.fns.items():
        if b.j.get("derived"): continue
        for adt, f, bi, line, how in field_touches(P, b):
            if (adt, f) in fields: hits.setdefault(k, []).append((adt, f, line, how))
    memo = {}
    def accounted(k, stack=()):
        """the function is one of the named ones, or is private and only they use it"""
        if k in ok or G.root[k] in ok: return True
        if k in stack: return True
        if k in memo: return memo[k]
        b = G.fns[G.root[k]]
        cs = G.callers.get(G.root[k], set())
        r = not b.j.get("pub") and bool(cs) and all(accounted(G.root[c], stack + (k,)) for c in cs)
        memo[k] = r
        return r
    ex = []; viol = []
    for k, hs in sorted(hits.items()):
        b = G.fns[k]
        for adt, f, line, how in hs:
            ex.append("%s:%s %s.%s %s in %s" % (b.j["file"], line, adt, f, how, name_of(G.fns[G.root[k]])))
        if not accounted(k):
            adt, f, line, how = hs[0]
            viol.append(dict(key="write:%s:%s.%s" % (name_of(G.fns[G.root[k]]), adt, f), where="%s:%s" % (b.j["file"], line),
                text="%s.%s is %s in %s, which is not part of %s" % (adt, f, how, name_of(G.fns[G.root[k]]), what)))
    und = [] if ex else ["no write to %s found" % ", ".join("%s.%s" % x for x in fields)]
    return res(statement, ex, viol, und)

REFINE = ["Mesh::unit", "Mesh::blank", "Mesh::from_file", "Mesh::execute_h_refinements", "Mesh::apply_h_refinements", "Mesh::execute_t_refinement",
          "Mesh::execute_u_refinement", "Mesh::execute_v_refinement", "Mesh::h_refine_edge_if_needed", "Mesh::new_edge_between_nodes",
          "Mesh::upgrade_uninit_elems", "Mesh::set_edge_activation", "Mesh::rec_set_edge_activation_in_tree", "Mesh::execute_p_refinements",
          "Mesh::set_expansion_orders", "Mesh::set_global_expansion_orders", "Mesh::global_p_refinement"]
def mesh_writers(ctx, tier):
    return writers(ctx, "mesh construction or refinement", {("Mesh", f) for f in ("elements", "elems", "nodes", "edges")}, REFINE,
        "the lists of elements, nodes and edges are changed only by construction, import and the refinement passes (or private helpers only they use)")
def order_writers(ctx, tier):
    return writers(ctx, "the checked order updates", {("PolyOrders", "ni"), ("PolyOrders", "nj")},
        ["PolyOrders::refine", "PolyOrders::set", "PolyOrders::max_with"],
        "an element's expansion orders are changed only by the range-checked updates (or private helpers only they use)")
def dof_writers(ctx, tier):
    return writers(ctx, "the numbering step", {("BasisSpec", "dof_id"), ("BasisSpec", "elem_idx")},
        ["BasisSpec::set_dof_and_idx", "BasisSpec::new"],
        "a basis spec's degree of freedom and index are set only by the numbering step")

# ---------------------------------------------------------------- paths
def err_block(P, b, bb):
    """the block builds the error result that is returned"""
    for s in bb[0]:
        if s[0] == "=" and s[1] == [0, []] and s[2][0] == "adt" and "Result" in str(s[2][1]) and s[2][2] in (1, "Err"): return True
    c = callee(bb[1])
    return bool(c) and c["name"] == "from_residual"

def dirty_exit(P, b, is_dirty, is_clean):
    """is there a path from a dirty call to a non-error return without a clean call?"""
    b.prep()
    start = []
    for bi in b.rpo:
        t = b.blocks[bi][1]; c = callee(t)
        if c and is_dirty(c) and t[4] is not None: start.append((bi, t[4], t[-1]))
    for bi, nx, line in start:
        seen = set(); st = [nx]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            bb = b.blocks[x]
            if err_block(P, b, bb): continue
            c = callee(bb[1])
            if c and is_clean(c): continue
            if bb[1][0] == "return": return line
            st.extend(succs(bb[1]))
    return None

# one element has no neighbour on any edge, so every edge is inactive before and after the pass
SINGLE = {"Mesh::unit": "builds a mesh of one element (compared with its reference on its own): no edge has two sides"}
def activation_after_change(ctx, tier):
    """typestate: connecting an element to an edge leaves the activation stale until the activation pass runs"""
    G = ctx.graph; P = ctx.R
    base = set(G.by_name("Edge::connect_elem")); clean = set(G.by_name("Mesh::set_edge_activation"))
    st = "after elements are connected to edges, every successful return of a public function has passed the activation pass"
    if not base or not clean: return res(st, [], undecided=["Edge::connect_elem or Mesh::set_edge_activation not found"])
    k_of = lambda c: c.get("rkey", c["key"])
    # functions that certainly run the activation pass: direct calls only
    stale = {}; changed = True
    def dirty_clos(c):
        # a call that is handed a closure which connects
        return False
    bodies = {k: b for k, b in G.fns.items() if b.j["kind"] in ("Fn", "AssocFn")}
    conn = {G.root[k] for k in G.fns for c in G.out[k] if c in base}
    while changed:
        changed = False
        for k, b in bodies.items():
            if k in stale or k in base or name_of(b) in SINGLE: continue
            l = dirty_exit(P, b, lambda c: k_of(c) in base or k_of(c) in stale, lambda c: k_of(c) in clean)
            if l: stale[k] = l; changed = True
    ex = ["%s %s" % (name_of(bodies[k]), "leaves activation stale (line %s)" % stale[k] if k in stale else "activates before returning") for k in bodies
          if k in stale or k in conn or any(c in stale for c in G.out[k])]
    viol = [dict(key="stale:" + name_of(bodies[k]), where="%s:%s" % (bodies[k].j["file"], l),
                 text="%s can return successfully after connecting elements to edges without recomputing the active edges" % name_of(bodies[k]))
            for k, l in stale.items() if bodies[k].j["pub"] and bodies[k].j.get("reach") and k not in base]
    return res(st, ex, viol)

def guard_first(ctx, tier):
    G = ctx.graph; P = ctx.R
    st = "once files may exist in the solver's temporary directory, every way out of the solve runs the removal of this run's files"
    ks = G.by_name("slepc_solve_gep")
    if not ks: return res(st, [], undecided=["slepc_solve_gep not found"])
    def reaches(k, pat):
        return any(re.search(pat, p) for f in G.reach([k]) for p, *_ in G.ext.get(f, ()))
    b = G.fns[ks[0]].prep()
    removes = lambda k: k in G.fns and reaches(k, r"fs::remove_file")
    creates = lambda k: k in G.fns and reaches(k, r"fs::File::create|OpenOptions|fs::write")
    guards = [i for i, ty in enumerate(b.locals) if ty["k"] == "adt" and (lambda d: d and removes(d))(drop_impl(P, ty))]
    sites = [(bi, b.blocks[bi][1]) for bi in b.rpo if callee(b.blocks[bi][1]) and (creates(callee(b.blocks[bi][1]).get("rkey", "")) or re.search(r"process::Command", callee(b.blocks[bi][1]).get("rpath", "") or ""))]
    ex = []; viol = []
    for bi, t in sites:
        ex.append("%s:%s call %s" % (b.j["file"], t[-1], callee(t)["name"]))
        seen = set(); st_ = [s for s in succs(t)]
        while st_:
            x = st_.pop()
            if x in seen: continue
            seen.add(x); bb = b.blocks[x]; u = bb[1]
            c = callee(u)
            if u[0] == "drop" and u[1][0] in guards and not u[1][1]: continue
            if c and removes(c.get("rkey", "")): continue
            if u[0] == "return":
                viol.append(dict(key="exit:slepc_solve_gep:%s" % callee(t)["name"], where="%s:%s" % (b.j["file"], t[-1]),
                    text="slepc_solve_gep can return after %s without removing this run's temporary files" % callee(t)["name"])); break
            st_.extend(succs(u))
    ex += ["guard local _%d: %s" % (g, short_ty(b.locals[g]["s"])) for g in guards]
    return res(st, ex, viol[:1], [] if sites else ["no file-creating call found"])

# ---------------------------------------------------------------- effects
CHANCE = r"(HashMap|HashSet|hash_map|hash_set)[^ ]*(::|>::)(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain)$|<.*(HashMap|HashSet|hash_map|hash_set).* as (std::)?(iter::)?(IntoIterator|Iterator)>|time::(SystemTime|Instant)::now|thread::current|env::(var|var_os|vars|args)|RandomState|DefaultHasher|process::id"
def deterministic(ctx, tier):
    G = ctx.graph
    st = "no public operation of meshes and domains (construction, import, refinement, numbering, queries, export) reaches hash-order iteration, clocks, thread identity or the environment"
    roots = [k for k, b in G.fns.items() if b.j.get("pub") and b.j["kind"] in ("Fn", "AssocFn") and re.match(r"src/fem_domain/domain(/mesh|/dof|\.rs)", b.j["file"])]
    seen = G.reach(roots); viol = []; n = 0
    for k in sorted(seen):
        for p, i, bi, line in G.ext[k]:
            n += 1
            full = p + " " + (i.get("path") or "")
            slf = (i.get("self") or {}).get("s", "") if isinstance(i.get("self"), dict) else ""
            targ = " ".join(t["s"] for t in i.get("targs", [])[:1])
            hashy = re.search(r"\b(HashMap|HashSet|hash_map|hash_set)\b", slf + " " + targ) and i["name"] in ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "next")
            if re.search(CHANCE, p) or hashy:
                b = G.fns[k]
                viol.append(dict(key="chance:%s:%s" % (name_of(G.fns[G.root[k]]), i["name"]), where="%s:%s" % (b.j["file"], line),
                    text="%s depends on %s, whose result differs between runs" % (name_of(G.fns[G.root[k]]), p)))
    ex = ["%d public entry points" % len(roots)] + [name_of(G.fns[k]) for k in roots]
    return res(st + " (%d functions, %d external calls examined)" % (len(seen), n), ex, viol, [] if len(roots) > 20 else ["too few entry points found"])

WORKER = r"thread::(current|park|sleep|yield)|thread_local|LocalKey"
PARALLEL = ("for_each", "for_each_with", "for_each_init", "try_for_each", "try_for_each_with", "collect", "par_extend", "reduce", "sum", "count", "collect_into_vec", "reduce_with", "fold_with")
def no_shared_state(ctx, tier):
    G = ctx.graph; P = ctx.R
    st = ("code run by the parallel assembly shares no mutable state that a schedule could make it lose: no static items or thread-local state, no atomic that is both read and stored, "
          "no second lock taken while one may be held, no try_lock / try_send whose failure skips work, and no bounded channel that is drained only after the workers have finished")
    cl = set(); par = {}
    for k, b in G.fns.items():
        for p, i, bi, line in G.ext[k]:
            if p.startswith("rayon") or "rayon::" in p or (i.get("trait") or "").startswith("rayon"):
                if i["name"] in PARALLEL: par.setdefault(G.root[k], []).append((k, bi, line))
                for t in i.get("targs", []) + i.get("rtargs", []):
                    for c in re.findall(r'"key": "([^"]+)"', json.dumps(t)):
                        if c in G.fns and G.fns[c].j["kind"] == "Closure": cl.add(c)
        if b.j["kind"] == "Closure" and G.root[k] in G.by_name("galerkin_sample_gep_hcurl"): cl.add(k)
    seen = G.reach(cl); viol = []; ex = []; und = []
    owner = lambda k: name_of(G.fns[G.root[k]])
    atoms = {}
    islock = lambda p, i: re.search(r"sync::(poison::)?((mutex|rwlock)::)?(Mutex|RwLock)", p) and i["name"] in ("lock", "read", "write")
    lockers = {k for k in seen if any(islock(p, i) for p, i, *_ in G.ext[k])}
    locking = {k for k in seen if G.reach([k]) & lockers}
    for k in sorted(seen):
        b = G.fns[k]; ex.append(name_of(b) if b.j["kind"] != "Closure" else owner(k) + " closure")
        at = lambda line: "%s:%s" % (b.j["file"], line)
        for p, i, bi, line in G.ext[k]:
            if re.search(WORKER, p):
                viol.append(dict(key="shared:%s:%s" % (owner(k), i["name"]), where=at(line), text="%s uses %s on a worker thread" % (owner(k), p)))
            if re.search(r"sync::atomic", p) and i["name"] in ("load", "store"): atoms.setdefault(G.root[k], {}).setdefault(i["name"], at(line))
            if re.search(r"sync::(poison::)?((mutex|rwlock)::)?(Mutex|RwLock)", p) and i["name"].startswith("try_") and owner(k) != "BasisFnSampler::sample_basis_fn":
                viol.append(dict(key="try:%s" % owner(k), where=at(line), text="%s skips work on a worker thread when a lock is taken (%s)" % (owner(k), i["name"])))
            if re.search(r"mpsc::(SyncSender|Sender)", p) and i["name"] == "try_send":
                viol.append(dict(key="try:%s" % owner(k), where=at(line), text="%s drops a result on a worker thread when the channel is full (try_send)" % owner(k)))
            if islock(p, i):
                ex.append("%s: lock at line %s" % (owner(k), line))
                nx = held_lock(P, b, bi, lambda c: islock(c.get("rpath") or c["path"], c) or c.get("rkey", c["key"]) in locking)
                if nx: viol.append(dict(key="lock:%s" % owner(k), where=at(nx), text="%s takes a lock on a worker thread while it may hold another (first taken at line %s)" % (owner(k), line)))
        for bb in b.blocks:
            if bb and '"static"' in json.dumps(bb):
                viol.append(dict(key="static:%s" % owner(k), where=b.where, text="%s uses a static item on a worker thread" % owner(k)))
    for k, d in atoms.items():
        if len(d) == 2: viol.append(dict(key="atomic:%s" % name_of(G.fns[k]), where=d["store"], text="%s reads and stores an atomic on worker threads in separate steps: updates can be lost" % name_of(G.fns[k])))
    for k, sites in par.items():
        b = G.fns[k]
        for p, i, bi, line in G.ext[k]:
            if not (re.search(r"mpsc::sync_channel", p) or i["name"] == "sync_channel"): continue
            ex.append("%s: bounded channel at line %s" % (name_of(b), line))
            conc = [q for f in G.reach([k]) for q, j, *_ in G.ext[f] if re.search(r"thread::(spawn|scope|Builder|Scope)|rayon(_core)?::(join|scope|spawn|in_place_scope)", q)]
            if conc: und.append("%s: bounded channel with another thread involved" % name_of(b)); continue
            viol.append(dict(key="bounded:%s" % name_of(b), where="%s:%s" % (b.j["file"], line),
                text="%s passes results over a bounded channel that nothing drains until the parallel iteration (line %s) has finished: with more results than places it never ends" % (name_of(b), sites[0][2])))
    for k, b in P.fns.items():
        if b.j["kind"].startswith("Static"):
            t = b.locals[0]["s"]; ex.append("static %s: %s" % (k.split("::")[-1], t))
            if re.search(r"\*mut|UnsafeCell", t): viol.append(dict(key="static:" + k.split("::")[-1], where=b.where, text="static item %s holds unsynchronised shared state" % k.split("::")[-1]))
    return res(st, ex, viol, und + ([] if cl else ["no closure passed to the parallel iterator found"]))

def held_lock(P, b, bi, locks):
    """line of a call that may take another lock before the guard obtained at block bi is dropped"""
    b.prep()
    t = b.blocks[bi][1]
    guardy = lambda ty: ty["k"] == "adt" and re.search(r"(Mutex|RwLock(Read|Write)?)Guard|PoisonError", ty["s"])
    if t[4] is None: return None
    gl = {i for i, ty in enumerate(b.locals) if guardy(ty)}
    seen = set(); st = [t[4]]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); u = b.blocks[x][1]
        if u[0] == "drop" and u[1][0] in gl and not b.locals[u[1][0]]["s"].startswith(("std::result::Result", "core::result::Result")): continue
        c = callee(u)
        if c and c["name"] == "drop" and any(guardy(ty) for ty in c.get("targs", [])): continue
        if c and locks(c): return u[-1]
        st.extend(succs(u))
    return None

def io_discipline(ctx, tier):
    G = ctx.graph; P = ctx.R
    st = "the result of every fallible I/O call is used (propagated or examined), and every buffered writer is flushed with its result used before a successful return"
    ex = []; viol = []
    IO = r"^std::result::Result<.*(std::io::Error|std::boxed::Box<dyn std::error::Error.*)>$"
    for k, b in G.fns.items():
        if b.j.get("derived"): continue
        root = G.fns[G.root[k]]
        if root.j["name"] == "drop" and root.j.get("impl_trait", "").endswith("Drop"): continue
        uses = {}
        for bi, bb in enumerate(b.blocks):
            if not bb: continue
            for s in bb[0]:
                if s[0] == "=":
                    for p in ir.places_of_rvalue(s[2]): uses.setdefault(p[0], []).append(s[-1])
            t = bb[1]
            if t[0] == "call":
                for o in t[2]:
                    for p in ir.places_of_operand(o): uses.setdefault(p[0], []).append(t[-1])
            if t[0] == "switch":
                for p in ir.places_of_operand(t[1]): uses.setdefault(p[0], []).append(0)
        bufs = []
        for bi, bb in enumerate(b.blocks):
            if not bb: continue
            t = bb[1]; c = callee(t)
            if not c or t[4] is None: continue
            ty = b.locals[t[3][0]] if not t[3][1] else None
            if ty and re.match(IO, ty["s"]):
                ex.append("%s:%s %s in %s" % (b.j["file"], t[-1], c["name"], name_of(root)))
                if t[3][0] != 0 and not uses.get(t[3][0]):
                    viol.append(dict(key="dropped:%s:%s" % (name_of(root), c["name"]), where="%s:%s" % (b.j["file"], t[-1]),
                        text="%s ignores the result of %s" % (name_of(root), c["name"])))
                elif c["name"] not in ("branch",):
                    # handed to .ok()/is_ok()/unwrap_or_default() and then forgotten
                    pass
            if ty and ty["k"] == "adt" and adt_base(ty["s"]) in ("BufWriter", "LineWriter") and c["name"] in ("new", "with_capacity"): bufs.append((bi, t))
            if c["name"] in ("ok", "unwrap_or_default", "unwrap_or", "is_ok", "is_err", "err") and c.get("targs") and any("std::io::Error" in x["s"] for x in c["targs"]) and not uses.get(t[3][0]) and t[3][0] != 0:
                viol.append(dict(key="dropped:%s:%s" % (name_of(root), c["name"]), where="%s:%s" % (b.j["file"], t[-1]), text="%s discards an I/O error with %s()" % (name_of(root), c["name"])))
        if bufs:
            b.prep()
            for bi, t in bufs:
                ex.append("%s:%s buffered writer in %s" % (b.j["file"], t[-1], name_of(root)))
                flush = lambda c: c["name"] in ("flush", "into_inner", "into_parts") or (c.get("rkey") in G.fns and any(i["name"] in ("flush", "into_inner") for f in G.reach([c["rkey"]]) for _, i, _, _ in G.ext[f]))
                moved = False
                seen = set(); stk = [t[4]]; leak = None
                while stk:
                    x = stk.pop()
                    if x in seen: continue
                    seen.add(x); bb = b.blocks[x]
                    if err_block(P, b, bb): continue
                    c = callee(bb[1])
                    if c and flush(c): continue
                    if bb[1][0] == "return": leak = True; break
                    stk.extend(succs(bb[1]))
                # a writer that is returned or stored is flushed elsewhere
                if leak and re.search(r"BufWriter|LineWriter", b.locals[0]["s"]): leak = None
                if leak:
                    viol.append(dict(key="flush:%s" % name_of(root), where="%s:%s" % (b.j["file"], t[-1]),
                        text="%s can return successfully without flushing its buffered writer, so a write error is lost" % name_of(root)))
    return res(st, ex, viol, [] if len(ex) >= 10 else ["too few I/O calls found (%d)" % len(ex)])

# ---------------------------------------------------------------- numerics preconditions
def symmetric_eigen(ctx, tier):
    G = ctx.graph; P = ctx.R
    st = "the argument of every symmetric eigen-decomposition is not a product of two different matrices (which is not symmetric in general)"
    ex = []; viol = []
    for k, b in G.fns.items():
        for p, i, bi, line in G.ext[k]:
            if "SymmetricEigen" in p and i["name"] == "new" or i["name"] in ("symmetric_eigen", "symmetric_eigenvalues"):
                t = b.blocks[bi][1]; ex.append("%s:%s %s" % (b.j["file"], line, name_of(G.fns[G.root[k]])))
                loc = next(iter(ir.places_of_operand(t[2][0])), None)
                src = trace(b, loc)
                if src and src["name"] == "mul":
                    viol.append(dict(key="eigen:" + name_of(G.fns[G.root[k]]), where="%s:%s" % (b.j["file"], line),
                        text="%s applies a symmetric eigen-decomposition to a matrix product" % name_of(G.fns[G.root[k]])))
    return res(st, ex, viol, [] if ex else ["no symmetric eigen-decomposition found"])
def trace(b, p, n=0):
    """the call a place's value comes from, through plain moves and borrows"""
    if p is None or n > 12: return None
    for bb in b.blocks:
        if not bb: continue
        for s in bb[0]:
            if s[0] == "=" and s[1] == [p[0], []]:
                r = s[2]
                if r[0] == "use":
                    q = next(iter(ir.places_of_operand(r[1])), None); return trace(b, q, n + 1)
                if r[0] == "ref": return trace(b, r[2], n + 1)
        t = bb[1]
        if t[0] == "call" and t[3] == [p[0], []]:
            c = callee(t)
            if c and c["name"] in ("clone", "into", "deref", "to_owned") and t[2]:
                return trace(b, next(iter(ir.places_of_operand(t[2][0])), None), n + 1) or c
            return c
    return None

def q_weights(ctx, tier):
    st = "each row of the tangential weight table sums to zero at both ends of the interval (P_k(1) = 1, P_k(-1) = (-1)^k)"
    P = ctx.R
    def table(n):
        for b in P.fns.values():
            if b.j["kind"] == "Const" and b.key.endswith("max_ortho::" + n): return b
        return None
    b = table("Q_NUMERATORS")
    if not ctx.full or b is None: return res(st, [], undecided=["the max_ortho_basis tables were not found"])
    den = table("Q_DENOMINATORS")
    def ints(body):
        out = []
        for bb in body.blocks:
            if not bb: continue
            for s in bb[0]:
                if s[0] == "=" and s[2][0] == "array":
                    row = []
                    for o in s[2][1]:
                        if o[0] == "k" and o[1][0] == "int": row.append(o[1][1])
                    if row: out.append([int(x) for x in row])
        return out
    rows = []
    proms = sorted((i, pb) for (k, i), pb in P.prom.items() if k == b.key)
    for i, pb in proms: rows += ints(pb)
    rows.sort(key=len)  # row k weights P_0..P_k+2
    dd = ints(den) if den else []
    dd = dd[0] if dd else []
    ex = []; viol = []
    for i, r in enumerate(rows):
        ex.append("row %d: %s" % (i, r))
        if sum(r) or sum(x if k % 2 == 0 else -x for k, x in enumerate(r)):
            viol.append(dict(key="row:%d" % i, where=b.where, text="weight row %d of the tangential functions does not vanish at the ends of the interval: %s" % (i, r)))
        elif i < len(dd) and r and dd[i] != r[-1]:
            viol.append(dict(key="den:%d" % i, where=den.where, text="weight row %d is not normalised: leading numerator %d over %d" % (i, r[-1], dd[i])))
    return res(st, ex, viol, [] if len(rows) >= 11 else ["only %d weight rows could be read" % len(rows)])

# ---------------------------------------------------------------- the compiler as the analysis
def declared_features():
    t = open(os.path.join(build.REPO, "Cargo.toml")).read()
    m = re.search(r"^\[features\]\s*\n(.*?)(?=^\[|\Z)", t, re.M | re.S)
    return [l.split("=")[0].strip() for l in (m.group(1).splitlines() if m else []) if "=" in l and not l.strip().startswith("#") and l.split("=")[0].strip() != "default"]
def features(ctx, tier):
    st = "the library type-checks with every subset of its features"
    fs = declared_features(); ex = []; viol = []
    import itertools
    subsets = [c for n in range(len(fs) + 1) for c in itertools.combinations(fs, n)] if len(fs) <= 5 else [()] + [(f,) for f in fs] + [tuple(fs)]
    with build.lock():
        for c in subsets:
            e = build.env(wrapper=False)
            rc, out = build.cargo_check(build.REPO, "repo", e, ["--no-default-features"] + (["--features", ",".join(c)] if c else []))
            ex.append("features {%s}: %s" % (", ".join(c), "type-checks" if rc == 0 else "fails"))
            if rc:
                m = re.search(r"error[^\n]*\n[^\n]*--> ([^\n]*)", out)
                viol.append(dict(key="features:" + "+".join(c), where=m.group(1).strip() if m else "Cargo.toml", text="the library does not type-check with features {%s}: %s" % (", ".join(c), (re.search(r"^error[^\n]*", out, re.M) or [out[-200:]])[0])))
    return res(st, ex, viol)

def witnesses(ctx, tier):
    """client programs that must (not) type-check; each rejected one has an accepted twin"""
    st = "each misuse is rejected by the compiler with the expected error, and its correct twin is accepted"
    wd = os.path.join(build.V, "witness"); ex = []; viol = []; und = []
    want = {}
    for f in sorted(os.listdir(os.path.join(wd, "src", "bin"))):
        src = open(os.path.join(wd, "src", "bin", f)).read()
        m = re.match(r"// expect: (\w+)(?: (.*))?", src)
        want[f[:-3]] = (m.group(1), (m.group(2) or "").strip())
    with build.lock():
        e = build.env(wrapper=False)
        lf = build.lockfile(build.REPO, "witness")
        # the path dependency is given on the command line so that the tree under test is used
        man = os.path.join(build.B, "witness"); os.makedirs(os.path.join(man, "src"), exist_ok=True)
        import shutil
        shutil.rmtree(man); shutil.copytree(wd, man)
        t = open(os.path.join(man, "Cargo.toml")).read().replace("@REPO@", build.REPO)
        open(os.path.join(man, "Cargo.toml"), "w").write(t)
        p = subprocess.run(["cargo", "+nightly", "check", "--bins", "--offline", "--keep-going", "--message-format=json", "--manifest-path", os.path.join(man, "Cargo.toml"),
             "--config", 'resolver.lockfile-path="%s"' % lf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=build.B)
    errs = {n: [] for n in want}; built = set()
    for l in p.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        tgt = (m.get("target") or {}).get("name")
        if m.get("reason") == "compiler-message" and tgt in errs and m["message"]["level"] == "error" and m["message"].get("code"): errs[tgt].append(m["message"]["code"]["code"])
        if m.get("reason") == "compiler-artifact" and tgt in want: built.add(tgt)
    if not built: return res(st, [], undecided=["the witness crate could not be built: " + p.stderr[-300:]])
    for n, (code, what) in want.items():
        ex.append("%s: %s (expected %s, got %s)" % (n, what, code, "accepted" if n in built else ",".join(sorted(set(errs[n])))))
        if code == "OK":
            if n not in built: und.append("twin %s no longer type-checks (%s)" % (n, ",".join(errs[n])))
        elif n in built:
            viol.append(dict(key="witness:" + n, where="witness/src/bin/%s.rs" % n, text="a client program that must be rejected type-checks: " + what))
        elif code not in errs[n] : und.append("%s is rejected with %s instead of %s" % (n, ",".join(errs[n]), code))
    return res(st, ex, viol, und)

PRIVATE = [("SparseMatrix", "entries"), ("Elem", "children"), ("Elem", "ancestors"), ("Edge", "children"), ("Edge", "parent"), ("Edge", "elems"), ("Edge", "active_elems"),
           ("Edge", "child_node"), ("Node", "elems"), ("DoF", "basis_specs"), ("UniformFieldSpace", "quantities"), ("UniformFieldSpace", "domain"), ("UniformFieldSpace", "densities"),
           ("UniformFieldSpace", "parametric_points"), ("BasisFnSampler", "computed"), ("FieldQuantity", "values"), ("Orders", "i"), ("Orders", "j"),
           ("PRef", "di"), ("PRef", "dj"), ("Point", "x_cmp"), ("Point", "y_cmp"), ("BasisFnSampler", "u_points"), ("BasisFnSampler", "v_points"),
           ("HierCurlBasisFn", "u_shapes"), ("HierCurlBasisFn", "v_shapes"), ("CurlCurl", "u_weights"), ("CurlCurl", "v_weights"), ("L2Inner", "u_weights"), ("L2Inner", "v_weights")]
def private_fields(ctx, tier):
    st = "state with an invariant is not writable from outside the crate: the field is private, or its type is"
    ex = []; viol = []; und = []
    for a, f in PRIVATE:
        hit = False
        for k, d in ctx.R.adts.items():
            if k.split("::")[-1] == a and k.startswith("fem_2d"):
                for v in d["variants"]:
                    for x in v["fields"]:
                        if x[0] == f:
                            hit = True; ex.append("%s.%s %s" % (a, f, "pub" if x[2] else "private"))
                            if x[2] and d.get("pub"): viol.append(dict(key="pub:%s.%s" % (a, f), where=k, text="%s.%s can be written from outside the crate" % (a, f)))
        if not hit: und.append("%s.%s not found" % (a, f))
    return res(st, ex, viol, und)

def no_unsafe(ctx, tier):
    st = "the crate type-checks with unsafe code forbidden"
    with build.lock():
        build.forget("fem_2d")
        lf = build.lockfile(build.REPO, "repo")
        rc, out = build.sh(["cargo", "+nightly", "rustc", "--lib", "--profile", "check", "--all-features", "--offline", "--manifest-path", os.path.join(build.REPO, "Cargo.toml"),
            "--config", 'resolver.lockfile-path="%s"' % lf, "--", "-F", "unsafe_code"], env=build.env(wrapper=False), cwd=build.B)
    viol = []
    if rc:
        m = re.search(r"error: usage of an `unsafe`[^\n]*\n[^\n]*--> ([^\n]*)", out) or re.search(r"unsafe[^\n]*\n[^\n]*--> ([^\n]*)", out)
        if m: viol.append(dict(key="unsafe", where=m.group(1).strip(), text="unsafe code in the crate"))
        else: return res(st, [], undecided=["the crate does not build: " + out[-200:]])
    return res(st, ["crate fem_2d, all features"], viol)

# ---------------------------------------------------------------- all or nothing
def is_mut_ref(ty): return ty.get("k") == "ref" and ty.get("mut") in (True, "true")
def holds_mut_ref(ty):
    """a value through which the borrowed thing can be written"""
    if ty.get("k") == "ref": return is_mut_ref(ty) or holds_mut_ref(ty["to"])
    if re.search(r"&(?:'\w+ )?mut |IterMut|RefMut|Entry<|Drain<|ValuesMut|ChunksMut", ty.get("s", "")): return True
    return False

class Atomic:
    """typestate over one body: has something reachable from the first parameter been written, and can an error be returned
    after that?  A failing call is taken to have left its argument alone when its own body is all-or-nothing."""
    def __init__(self, ctx): self.ctx = ctx; self.P = ctx.R; self.memo = {}
    def summary(self, key):
        """-> None or (line, what): an error exit that is reached after a write"""
        if key in self.memo: return self.memo[key]
        self.memo[key] = None
        self.memo[key] = self.run(self.P.fns[key])
        return self.memo[key]
    def closure_writes(self, b, taint, loc):
        return None
    def run(self, b):
        b.prep(); P = self.P
        taint = {1}; clos = set()
        ch = True
        while ch:
            ch = False
            for bi in b.rpo:
                for s in b.blocks[bi][0]:
                    if s[0] != "=" or s[1][1]: continue
                    d = s[1][0]; r = s[2]; hit = False
                    if r[0] == "ref" and r[1] != "shared" and r[2][0] in taint and (any(e[0] == "*" for e in r[2][1]) or holds_mut_ref(b.locals[r[2][0]]) and not is_mut_ref(b.locals[r[2][0]])): hit = True
                    elif r[0] in ("use", "cast"):
                        hit = any(p[0] in taint for p in (q for o in operands_of_rvalue(r) for q in ir.places_of_operand(o))) and holds_mut_ref(b.locals[d])
                    elif r[0] == "closure":
                        if any(p[0] in taint for o in r[2] for p in ir.places_of_operand(o)):
                            if d not in clos: clos.add(d); ch = True
                    elif r[0] in ("tuple", "adt"):
                        hit = any(p[0] in taint for o in operands_of_rvalue(r) for p in ir.places_of_operand(o)) and holds_mut_ref(b.locals[d])
                    if hit and d not in taint: taint.add(d); ch = True
                    if r[0] in ("use",) and any(p[0] in clos for o in operands_of_rvalue(r) for p in ir.places_of_operand(o)) and d not in clos: clos.add(d); ch = True
                t = b.blocks[bi][1]
                if t[0] == "call" and not t[3][1]:
                    args = [p[0] for o in t[2] for p in ir.places_of_operand(o)]
                    if any(a in taint for a in args) and holds_mut_ref(b.locals[t[3][0]]) and t[3][0] not in taint:
                        taint.add(t[3][0]); ch = True
        selfty = adt_base(b.locals[1].get("to", {}).get("s", "")) if b.nargs else ""
        states = {0: {(False, None)}}
        work = [0]; found = []
        def result_ty(l): return b.locals[l].get("s", "").startswith(("std::result::Result", "core::result::Result", "Result"))
        while work:
            bi = work.pop()
            bb = b.blocks[bi]
            for st in list(states[bi]):
                dirty, pend = st; disc = {}
                for s in bb[0]:
                    if s[0] != "=": continue
                    p, r = s[1], s[2]
                    if p[0] in taint and any(e[0] == "*" for e in p[1]): dirty = True
                    if r[0] == "discr": disc[p[0]] = r[1][0]
                    if pend and r[0] == "use":
                        ps = ir.places_of_operand(r[1])
                        if ps and ps[0] == [pend[0], []] and not p[1]: pend = (p[0],) + pend[1:]
                    if p == [0, []] and r[0] == "adt" and "Result" in str(r[1]) and r[2] in (1, "Err") and dirty:
                        found.append((s[-1], "an error is returned after part of the change was applied"))
                t = bb[1]; outs = []
                if t[0] == "call":
                    c = callee(t); args = [p[0] for o in t[2] for p in ir.places_of_operand(o)]
                    dst = t[3][0]
                    if pend and pend[0] in args and c and c["name"] in ("branch", "map_err", "map", "and_then", "is_err", "is_ok", "as_ref", "as_mut", "ok", "err", "or_else"):
                        if c["name"] == "branch" or result_ty(dst): pend = (dst,) + pend[1:]
                    elif c and c["name"] == "from_residual":
                        if dst == 0 and dirty: found.append((t[-1], "an error is passed on after part of the change was applied"))
                    else:
                        key = c and c.get("rkey", c["key"])
                        writes = False; sub = None; whole = False
                        if any(a in clos for a in args): writes = True; sub = ("closure",)
                        if any(a in taint for a in args):
                            gives = not t[3][1] and dst in taint and not result_ty(dst)
                            if c and key in P.fns and is_mut_ref(b.locals[args[0]]) if args else False:
                                writes = not gives; sub = self.summary(key) if args[0] in taint else None
                                whole = adt_base(b.locals[args[0]]["to"].get("s", "")) == selfty
                            elif not gives: writes = c is None or c["name"] not in ("len", "is_empty", "iter", "get", "next", "deref", "deref_mut", "index", "clone")
                        if writes:
                            if not t[3][1] and result_ty(dst):
                                if dst == 0:
                                    if sub or dirty and whole: found.append((t[-1], "the result of a change is returned after part of another was applied" if not sub else "the error of a call that may already have changed something is returned"))
                                    dirty = True
                                else:
                                    if pend: dirty = True
                                    pend = (dst, dirty, bool(sub), whole); 
                            else: dirty = True
                    if t[4] is not None: outs = [(t[4], (dirty, pend))]
                elif t[0] == "switch" and pend and t[1][0] in ("c", "m") and disc.get(t[1][1][0]) == pend[0]:
                    loc, prior, sub, whole = pend
                    seen = set()
                    for v, x in t[2] + [[None, t[3]]]:
                        if v is None:
                            if {0, 1} <= seen: continue
                            v = 0 if 1 in seen else 1
                        seen.add(int(v))
                        if int(v) == 0: outs.append((x, (True, None)))
                        else: outs.append((x, ((prior and whole) or sub, None)))
                else:
                    outs = [(x, (dirty or bool(pend) and t[0] == "return", pend)) for x in succs(t)]
                for x, s2 in outs:
                    if s2 not in states.setdefault(x, set()):
                        states[x].add(s2); work.append(x)
        return found[0] if found else None

def atomic_refinements(ctx, tier):
    st = "in every public refinement operation of a mesh (one that can fail with HRefError or PRefError), no path writes part of the mesh and then returns an error (an update of a single element that fails leaves that element alone)"
    P = ctx.R; A = Atomic(ctx); ex = []; viol = []
    for k, b in sorted(P.fns.items()):
        if b.j["kind"] not in ("Fn", "AssocFn") or not b.j.get("reach") or not b.nargs: continue
        ty = b.locals[1]
        if not (is_mut_ref(ty) and adt_base(ty["to"].get("s", "")) == "Mesh"): continue
        if not re.match(r"(std::result::|core::result::)?Result<.*\b[HP]RefError>", b.locals[0].get("s", "")): continue
        n = name_of(b); ex.append("%s at %s" % (n, b.where))
        r = A.run(b)
        if r and ctx.res.get(n, {}).get("status") != "same":
            viol.append(dict(key="partial:" + n, where="%s:%s" % (b.j["file"], r[0]), text="%s: %s" % (n, r[1])))
    return res(st, ex, viol, [] if ex else ["no mesh operation found"])

RULES = dict(atomic_refinements=atomic_refinements, mesh_writers=mesh_writers, order_writers=order_writers, dof_writers=dof_writers, activation_after_change=activation_after_change,
    guard_first=guard_first, deterministic=deterministic, no_shared_state=no_shared_state, io_discipline=io_discipline, symmetric_eigen=symmetric_eigen,
    q_weights=q_weights, features=features, witnesses=witnesses, private_fields=private_fields, no_unsafe=no_unsafe)
