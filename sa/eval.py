"""Gated value-graph construction over MIR (one pass per function, no path enumeration).

`Ev.function(body)` returns the normalised value graph of a function: the returned value, the
final value of everything reachable through its `&mut` parameters, the effects on the outside
world, and the conditions under which it diverges.  Branches become decision nodes at their
join point, loops become comprehension / sum / search / fold terms, local callees and closures
are inlined, calls that leave the crate are given by `models.py` or stay uninterpreted.
"""
import re
from fractions import Fraction
import term as tm
from term import (mk, q, ZERO, ONE, BOT, UNIT, NIL, T, apply, add, sub, mul, div, neg, inv, ite, tb, b_not, b_and, b_or,
                  lt, le, eq, fld, vfield, discr, idx, upd, length, cat, arr, mk_tup, mk_st, mk_en, en, flat_v, sum_v,
                  any_v, first_v, fold_close, subst, fresh, with_depth, vapply, isq, qv, typed, peel, short, ins, mget, has,
                  is_seq, bind_seq, map_seq, regular, slice_seq, rev_seq, any_seq, sum_seq, insall)
from ir import short_ty, strip_generics, Program

class Undecided(Exception): pass

INF = mk("inf")
PAN = ("panic",)
WORLD = ("W",)

def mkref(cell, path=()): return mk("ref", cell, path)
def NONE(): return en("Option", 0)
def SOME(x): return mk("en", "Option", ONE, ((1, (x,)),))
def opt(c, x):
    c = tb(c)
    if c is ZERO: return NONE()
    return mk_en("Option", c, ((1, (x,)),))
def OK(x): return mk("en", "Result", ZERO, ((0, (x,)),))
def ERR(x): return mk("en", "Result", ONE, ((1, (x,)),))
tm.ENUMS.update({"Option": [("None", 0), ("Some", 1)], "Result": [("Ok", 1), ("Err", 1)], "ControlFlow": [("Continue", 1), ("Break", 1)]})
tm.STRUCTS.update({"Range": ["start", "end"], "RangeFrom": ["start"], "RangeTo": ["end"], "RangeInclusive": ["start", "end"], "RangeFull": [], "RangeToInclusive": ["end"]})

def ref_leaves(t):
    if t.op == "dec": return all(k is BOT or ref_leaves(k) for k in t.args[2])
    return t.op == "ref"
def is_refy(t):
    if t.op == "ref": return True
    return t.op == "dec" and any(is_refy(k) for k in t.args[2])

class Frame:
    __slots__ = ("id", "body", "tsub", "inter", "depth")
_fid = [0]

class Ev:
    def __init__(self, prog, opaque=(), strict=(), pure=()):
        self.prog = prog
        self.opaque = set(opaque)      # function names kept uninterpreted
        self.pure = set(pure)          # uninterpreted and treated as not mutating their &mut arguments
        self.strict = set(strict)      # panic kinds that are tracked (e.g. "overflow", "index")
        self.used_opaque = set()
        self.unfold = set()            # recursive functions whose first step is expanded
        self.used_rec = set()
        self.stack = []
        self.inlined = set()
        self.externs = set()
        self.unmodelled = set()
        self.consts = {}
        self.steps = 0
        self.panics = None
        self.lost = []                  # calls reached with a value the evaluation has lost track of
        self.model_state = {}
        import models
        self.models = models

    # ---------------------------------------------------------------- entry point
    def function(self, body, fixed={}):
        """value graph of a whole function on symbolic parameters"""
        body.prep()
        tm._depth[0] = 0
        st = {WORLD: mk("world")}
        vals = []
        cells = []
        tsub = {n: {"k": "param", "name": "T%d" % i, "s": "T%d" % i} for i, n in enumerate(body.j.get("generics", []))}
        for i in range(body.nargs):
            ty = body.locals[i + 1]
            p = fixed.get(i) or typed(mk("param", "a%d" % i, short_ty(ty["s"]).replace("&", "").replace("mut ", "")), ty)
            if ty["k"] == "ref" and ty["mut"]:
                c = ("arg", i)
                st[c] = p
                vals.append(mkref(c)); cells.append((i, c))
            else: vals.append(p)
        r = self.call_body(body, vals, st, tsub)
        ret, st2, cond, pan = r
        if self.lost: raise Undecided("a value is not tracked: " + self.lost[0])
        out = {}
        if ret is not None: out["return"] = self.deep(ret, st2)
        else: out["return"] = BOT
        for i, c in cells:
            if st2 is not None: out["*a%d" % i] = self.deep(st2[c], st2)
        if st2 is not None and st2.get(WORLD) is not None and st2[WORLD].op != "world": out["world"] = self.deep(st2[WORLD], st2)
        for k, c in pan.items():
            if c is not ZERO: out["panic:" + k] = c
        return out

    def deep(self, v, st):
        """replace references by what they denote"""
        def rep(x):
            if x.op == "ref":
                return self.deep(self.read_ref(x, st), st)
            if x.op == "iter" : return None
            return None
        hasref = {}
        def contains(x):
            r = hasref.get(x)
            if r is not None: return r
            r = x.op == "ref"
            if not r:
                s = []
                for a in x.args: tm._walk(a, s)
                r = any(contains(y) for y in s)
            hasref[x] = r
            return r
        return tm.transform(v, rep, lambda x: not contains(x))

    # ---------------------------------------------------------------- calls
    def call_body(self, body, vals, st, tsub):
        """inline `body`; returns (value|None, state|None, cond, panics)"""
        body.prep()
        if len(self.stack) > 60: raise Undecided("inlining too deep: " + body.key)
        fr = Frame(); _fid[0] += 1
        fr.id = _fid[0]; fr.body = body; fr.tsub = tsub; fr.inter = {}; fr.depth = len(self.stack)
        self.stack.append(body.key)
        self.inlined.add(body.key)
        try:
            st = dict(st)
            for i, v in enumerate(vals):
                typed(v, body.locals[i + 1])
                st[(fr.id, i + 1)] = v
            res = self.region(fr, 0, st, None)
        finally:
            self.stack.pop()
        if not res.rets: return None, None, ZERO, res.pan
        cond, st2 = self.merge(fr, res.rets, keep={0})
        v = st2.get((fr.id, 0), UNIT)
        st2 = {k: x for k, x in st2.items() if k[0] != fr.id}
        return v, st2, cond, res.pan

    # ---------------------------------------------------------------- regions
    class Res:
        def __init__(self): self.rets = []; self.outs = []; self.pan = {}; self.cont = []
    def addpan(self, pan, kind, c):
        if c is ZERO or c is BOT: return
        pan[kind] = b_or(pan.get(kind, ZERO), c)

    def merge(self, fr, edges, bb=None, keep=None):
        if len(edges) == 1: 
            return edges[0]
        cond = ZERO
        for c, _ in edges: cond = b_or(cond, c)
        keys = {}
        for _, s in edges:
            for k in s: keys[k] = 1
        if bb is not None: live = fr.body.live[bb] | fr.body.borrowed
        elif keep is not None: live = keep
        else: live = None
        out = {}
        for k in keys:
            if live is not None and k[0] == fr.id and k[1] not in live: continue
            vals = [s.get(k) for _, s in edges]
            real = [v for v in vals if v is not None and v is not BOT]
            if not real: continue
            if all(v is real[0] for v in real): out[k] = real[0]; continue
            v = BOT
            for (c, s), x in reversed(list(zip(edges, vals))):
                if x is None: x = BOT
                v = self.vite(c, x, v)
            out[k] = v
        return cond, out
    def vite(self, c, a, b):
        return ite(c, a, b)

    def region(self, fr, entry, st, loop):
        """execute blocks from `entry`; loop=(header, blocks) restricts to one iteration"""
        body = fr.body
        res = Ev.Res()
        pend = {entry: [(ONE, st)]}
        first = True
        order = body.rpo
        header, L = loop if loop else (None, None)
        i0 = body.rpoi[entry]
        done = set()
        for b in order[i0:]:
            if b not in pend: continue
            if L is not None and b not in L: continue
            edges = pend.pop(b)
            if b in body.loops and b != header and b not in done:
                cond, s = self.merge(fr, edges, b)
                if cond is ZERO: continue
                lr = self.loop(fr, b, s)
                for k, c in lr.pan.items(): self.addpan(res.pan, k, b_and(cond, c))
                for c, s2 in lr.rets: res.rets.append((b_and(cond, c), s2))
                for t, c, s2 in lr.outs:
                    self.edge(res, pend, loop, t, b_and(cond, c), s2)
                done |= body.loops[b]
                continue
            cond, s = self.merge(fr, edges, b)
            if cond is ZERO or cond is BOT: continue
            if len(edges) == 1: s = s   # states are copied on write below
            self.block(fr, b, cond, dict(s), res, pend, loop)
        return res

    def edge(self, res, pend, loop, t, cond, st):
        if cond is ZERO or cond is BOT: return
        if loop:
            if t == loop[0]: res.cont.append((cond, st)); return
            if t not in loop[1]: res.outs.append((t, cond, st)); return
        pend.setdefault(t, []).append((cond, st))

    def block(self, fr, b, cond, st, res, pend, loop):
        body = fr.body
        stm, t = body.blocks[b]
        self.steps += 1
        if self.steps > 400000: raise Undecided("too many steps")
        for s in stm:
            if s[0] == "=": self.assign(fr, st, s[1], self.rvalue(fr, st, s[2]))
            elif s[0] == "setd":
                r = self.locate(fr, st, s[1]); 
                raise Undecided("SetDiscriminant")
        k = t[0]
        if k == "goto": self.edge(res, pend, loop, t[1], cond, st)
        elif k == "drop": self.edge(res, pend, loop, t[2], cond, st)
        elif k == "return": res.rets.append((cond, st))
        elif k == "unreachable": return
        elif k == "assert":
            msg = t[3]
            if "overflow" in self.strict and ("Overflow" in msg or "Division" in msg or "Remainder" in msg):
                c = tb(self.operand(fr, st, t[1]))
                bad = b_not(c) if t[2] else c
                self.addpan(res.pan, "overflow", b_and(cond, bad))
            elif "index" in self.strict and "BoundsCheck" in msg:
                c = tb(self.operand(fr, st, t[1]))
                bad = b_not(c) if t[2] else c
                self.addpan(res.pan, "index", b_and(cond, bad))
            self.edge(res, pend, loop, t[4], cond, st)
        elif k == "switch":
            v = self.operand(fr, st, t[1])
            ty = t[4]
            rest = cond
            tgts = {}
            for val, tgt in t[2]:
                val = self.switchval(val, ty)
                c = tb(v) if ty == "bool" else None
                if ty == "bool": cc = b_not(c) if val == 0 else c
                else: cc = eq(v, q(val))
                e = b_and(rest, cc)
                rest = b_and(rest, b_not(cc))
                if e is ZERO: continue
                tgts[tgt] = b_or(tgts[tgt], e) if tgt in tgts else e
            if rest is not ZERO: tgts[t[3]] = b_or(tgts[t[3]], rest) if t[3] in tgts else rest
            n = len(tgts)
            for tgt, e in tgts.items():
                self.edge(res, pend, loop, tgt, e, st if n == 1 else dict(st))
        elif k == "call":
            r = self.call_term(fr, st, t, res, cond, b)
            if r is None: return
            v, st2, c2 = r
            if t[4] is None: return
            self.assign(fr, st2, t[3], v)
            self.edge(res, pend, loop, t[4], b_and(cond, c2), st2)
        else: raise Undecided("terminator " + k)

    def switchval(self, v, ty):
        v = int(v)
        if ty in ("i8", "i16", "i32", "i64", "isize", "i128"):
            bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[ty]
            if v >= 1 << (bits - 1): v -= 1 << bits
        return v

    # ---------------------------------------------------------------- loops
    def find_next(self, fr, h):
        """block of the loop whose call of Iterator::next drives it"""
        body = fr.body
        L = body.loops[h]
        cands = []
        for b in body.rpo:
            if b not in L: continue
            t = body.blocks[b][1]
            if t[0] == "call" and t[1][0] == "k" and t[1][1][0] == "fn":
                f = t[1][1][1]
                if f["name"] == "next" and f.get("trait", "").endswith("Iterator") and f.get("rkey", "") not in self.prog.fns:
                    if all(body.dominates(b, x) for x in body.latches[h]):
                        # innermost loop containing b must be this one
                        if any(hh != h and b in LL and LL < L for hh, LL in body.loops.items()): continue
                        cands.append(b)
        return cands[0] if cands else None

    def loop(self, fr, h, st):
        body = fr.body
        L = body.loops[h]
        nb = self.find_next(fr, h)
        lp = (h, L)
        if nb is not None:
            # iterator value on entry: run to the call with a probe
            probe = {}
            def hook(ev, s, args):
                it = args[0]
                v = ev.models.deref(ev, s, it)
                probe["it"] = v; probe["ref"] = it
                raise _Probe()
            old = fr.inter.get(nb)
            fr.inter[nb] = hook
            try:
                try: self.region(fr, h, dict(st), lp)
                except _Probe: pass
            finally:
                if old is None: fr.inter.pop(nb, None)
                else: fr.inter[nb] = old
            if "it" in probe:
                seq = self.models.iter_seq(self, st, probe["it"])
                if seq is not None:
                    def run(s, item):
                        old = fr.inter.get(nb)
                        fr.inter[nb] = lambda ev, s2, args: SOME(item)
                        try: return self.region(fr, h, dict(s), lp)
                        finally:
                            if old is None: fr.inter.pop(nb, None)
                            else: fr.inter[nb] = old
                    def end(s):
                        old = fr.inter.get(nb)
                        fr.inter[nb] = lambda ev, s2, args: NONE()
                        try: return self.region(fr, h, dict(s), lp)
                        finally:
                            if old is None: fr.inter.pop(nb, None)
                            else: fr.inter[nb] = old
                    return self.over(fr, seq, st, run, end)
        return self.while_loop(fr, h, st, lp)

    def over(self, fr, seq, st, run, end):
        res = Ev.Res()
        fin = self.foreach(fr, seq, st, run, res)
        if fin is not None:
            c, s = fin
            r = end(s)
            self.absorb(res, r, c)
            for c2, s2 in r.cont: raise Undecided("loop does not stop on None")
        return res

    def absorb(self, res, r, c):
        for k, x in r.pan.items(): self.addpan(res.pan, k, b_and(c, x))
        for c2, s2 in r.rets: res.rets.append((b_and(c, c2), s2))
        for t, c2, s2 in r.outs: res.outs.append((t, b_and(c, c2), s2))

    def foreach(self, fr, seq, st, run, res, cond=ONE):
        """run `run` for every item; side exits are put in res; returns (cond, state) of completion"""
        if seq.op == "arr" and len(seq.args) < tm.ROLL[0]:
            for x in seq.args:
                r = run(st, x)
                self.absorb(res, r, cond)
                if not r.cont: return None
                c, st = self.merge(fr, r.cont)
                cond = b_and(cond, c)
                if cond is ZERO: return None
            return cond, st
        if seq.op == "cat":
            for x in seq.args:
                f = self.foreach(fr, x, st, run, res, cond)
                if f is None: return None
                cond, st = f
            return cond, st
        if seq.op == "dec":
            p, cuts, kids = seq.args
            ends = []
            for i, k in enumerate(kids):
                if k is BOT: continue
                c = tm.dec(p, cuts, tuple(ONE if j == i else ZERO for j in range(len(kids))))
                sub_ = Ev.Res()
                f = self.foreach(fr, k, dict(st), run, sub_)
                self.absorb(res, sub_, b_and(cond, c))
                if f is not None: ends.append((b_and(cond, b_and(c, f[0])), f[1]))
            if not ends: return None
            return self.merge(fr, ends)
        v = tm.fresh()
        if seq.op == "flat":
            hgt, n, b = seq.args
            def step(s):
                inner = tm.subst_bv(b, hgt, v)
                if inner.op == "arr" and len(inner.args) == 1: return run(s, inner.args[0])
                r = Ev.Res()
                f = self.foreach(fr, inner, s, run, r)
                if f is not None: r.cont.append(f)
                return r
        else:
            n = length(seq)
            def step(s): return run(s, idx(seq, v))
        if n.op == "dec":
            ends = []
            p, cuts, kids = n.args
            for i, k in enumerate(kids):
                if k is BOT: continue
                c = tm.dec(p, cuts, tuple(ONE if j == i else ZERO for j in range(len(kids))))
                sub_ = Ev.Res()
                f = self.generic(fr, k, v, step, dict(st), sub_)
                self.absorb(res, sub_, b_and(cond, c))
                if f is not None: ends.append((b_and(cond, b_and(c, f[0])), f[1]))
            if not ends: return None
            return self.merge(fr, ends)
        sub_ = Ev.Res()
        f = self.generic(fr, n, v, step, st, sub_)
        self.absorb(res, sub_, cond)
        if f is None: return None
        return b_and(cond, f[0]), f[1]

    def diff(self, a, b, cell, path, out, known):
        """field-level locations at which state value a was changed to b"""
        if a is b: return
        if (cell, path) in known: return
        if len(path) < 6 and b is not BOT and a is not BOT:
            if b.op == "st" and (a.op == "st" and a.args[0] == b.args[0] or a.op not in ("st", "dec", "en") and b.args[0] in tm.STRUCTS):
                key = b.args[0]
                x = a if a.op == "st" else tm.expand_st(a, key)
                if x.op == "st" and len(x.args[1]) == len(b.args[1]):
                    ns = tm.STRUCTS.get(key) or list(range(len(b.args[1])))
                    for n, p, r in zip(ns, x.args[1], b.args[1]): self.diff(p, r, cell, path + (("f", n),), out, known)
                    return
            if b.op == "tup" and (a.op == "tup" and len(a.args) == len(b.args)):
                for n, (p, r) in enumerate(zip(a.args, b.args)): self.diff(p, r, cell, path + (("f", n),), out, known)
                return
            if b.op == "arr" and 0 < len(b.args) <= 8 and (a.op == "arr" and len(a.args) == len(b.args) and a.args[0].op != "tx"):
                for n, (p, r) in enumerate(zip(a.args, b.args)): self.diff(p, r, cell, path + (("i", q(n)),), out, known)
                return
        out.append((cell, path))

    def generic(self, fr, n, v, step, st, res):
        """a loop of symbolic trip count n with index variable v"""
        if isq(n) and qv(n) <= 0: return ONE, st
        small = isq(n) and qv(n) <= min(tm.UNROLL, tm.ROLL[0] - 1)
        carried, r, mus = self.stabilise(fr, step, st)
        # results of one iteration
        exits = [(("ret", None), c, s) for c, s in r.rets] + [(("out", t), c, s) for t, c, s in r.outs]
        if r.cont: ccond, cst = self.merge(fr, r.cont)
        else: ccond, cst = ZERO, None
        bodies = {}
        for loc in carried:
            bodies[loc] = self.get(cst, loc) if cst is not None else mus[loc]
        inits = {loc: self.get(st, loc) for loc in carried}
        closed = self.solve(carried, mus, bodies, inits, v)      # loc -> function(count term) -> value
        def at(x, cnt):
            """value of iteration-level term x at iteration number cnt"""
            x = self.sub_mus(x, carried, mus, closed, v)
            return x if cnt is v else subst(x, {v: cnt})
        def final():
            s = dict(st)
            for loc in carried: self.put_loc(s, loc, closed(loc, n))
            return s
        # panics
        if not exits:
            for k, c in r.pan.items():
                self.addpan(res.pan, k, any_v(n, v, at(c, v)))
            if cst is None: 
                return (tb(le(n, ZERO)), st) if not isq(n) else None
            return ONE, final()
        tot = ZERO
        for _, c, _ in exits: tot = b_or(tot, c)
        tot = at(tot, v)
        anyx = any_v(n, v, tot)
        k = first_v(n, v, tot)
        for kd, c in r.pan.items():
            self.addpan(res.pan, kd, any_v(n, v, at(c, v)))
        def fixst(s):
            out = {}
            for cell, val in s.items():
                if not isinstance(val, T): continue
                if val.fv: val = at(val, k)
                out[cell] = val
            return out
        for (kind, t), c, s in exits:
            cc = anyx if len(exits) == 1 else b_and(anyx, at(c, k))
            if cc is ZERO: continue
            s2 = fixst(s)
            if kind == "ret": res.rets.append((cc, s2))
            else: res.outs.append((t, cc, s2))
        if anyx is ONE: return None
        if cst is None: return b_not(anyx), st
        return b_not(anyx), final()

    def get(self, st, loc):
        cell, path = loc
        if cell not in st: return BOT
        return self.read_path(st[cell], path)
    def put_loc(self, st, loc, v):
        cell, path = loc
        st[cell] = self.put_path(st.get(cell, BOT), path, v)

    def stabilise(self, fr, step, st):
        """find the locations a loop body changes; returns (locations, result with μ's, μ's)"""
        carried = []; mus = {}
        flagged = set()
        for _ in range(40):
            s0 = dict(st)
            for loc in carried: self.put_loc(s0, loc, mus[loc])
            nlost = len(self.lost)
            r = with_depth(lambda: step(dict(s0)))
            if not r.cont: return carried, r, mus
            c, s1 = with_depth(lambda: self.merge(fr, r.cont))
            out = []
            for cell, val in s1.items():
                if cell in s0: self.diff(s0[cell], val, cell, (), out, set(carried))
            again = False
            for loc in out:
                if loc in mus: continue
                # drop carried locations nested inside a now wholly replaced one
                for l2 in list(carried):
                    if l2[0] == loc[0] and l2[1][:len(loc[1])] == loc[1]: carried.remove(l2)
                m = with_depth(lambda: tm.fresh("mu"))
                iv = self.get(st, loc)
                nv = self.get(s1, loc)
                if (iv is not BOT and is_seq(iv)) or is_seq(nv): tm.SEQATOMS.add(m)
                if iv in tm.TY: typed(m, tm.TY[iv])
                elif nv in tm.TY: typed(m, tm.TY[nv])
                if loc[1] == () and loc[0][0] == fr.id and isinstance(loc[0][1], int): typed(m, fr.body.locals[loc[0][1]])
                mus[loc] = m; carried.append(loc); again = True
            if not again:
                # boolean flags
                for loc in carried:
                    m = mus[loc]
                    if m in tm.FLAGS or m in flagged: continue
                    iv = self.get(st, loc); nv = self.get(s1, loc)
                    if bool_leaves(iv, m) and bool_leaves(nv, m):
                        flagged.add(m)
                        tm.FLAGS.add(m); again = True
                    elif m not in tm.TY and nv.op != "mu":
                        # a location whose μ has an enum or product shape
                        pass
                if not again: return carried, r, mus
            del self.lost[nlost:]       # a tentative pass
        raise Undecided("loop does not stabilise")

    def solve(self, carried, mus, bodies, inits, v):
        mset = {mus[l]: l for l in carried}
        deps = {l: {mset[m] for m in bodies[l].fv if m in mset} for l in carried}
        memo = {}
        scc = sccs(carried, deps)
        comp = {}
        for c in scc:
            for l in c: comp[l] = c
        group = {}
        def closed(loc, cnt):
            key = (loc, cnt)
            if key in memo: return memo[key]
            c = comp[loc]
            m = mus[loc]
            # private index variable for this closed form
            w = with_depth(tm.fresh)
            if len(c) == 1:
                b = bodies[loc]
                sb = {}
                for m2 in b.fv:
                    if m2 in mset and m2 is not m: sb[m2] = closed(mset[m2], v)
                if sb: b = subst(b, sb)
                b = subst(b, {v: w}) if v in b.fv else b
                r = fold_close(cnt, w, m, inits[loc], b)
            else:
                key2 = (tuple(c), cnt)
                if key2 not in group:
                    locs = list(c)
                    mm = with_depth(lambda: tm.fresh("mu"))
                    tm.TUPN[mm] = len(locs)
                    bs = []
                    for l in locs:
                        b = bodies[l]; sb = {}
                        for m2 in b.fv:
                            if m2 in mset:
                                if mset[m2] in c:
                                    f = fld(mm, locs.index(mset[m2])); tm._flagcopy(f, m2)
                                    sb[m2] = f
                                else: sb[m2] = closed(mset[m2], v)
                        b = subst(b, sb) if sb else b
                        bs.append(subst(b, {v: w}) if v in b.fv else b)
                    group[key2] = fold_close(cnt, w, mm, mk_tup(*[inits[l] for l in locs]), mk_tup(*bs))
                r = fld(group[key2], list(c).index(loc))
            memo[key] = r
            return r
        return closed

    def sub_mus(self, x, carried, mus, closed, v):
        mset = {mus[l]: l for l in carried}
        sb = {m: closed(mset[m], v) for m in x.fv if m in mset}
        return subst(x, sb) if sb else x

    def while_loop(self, fr, h, st, lp):
        res = Ev.Res()
        # concrete unrolling while the exit test is decided
        cur = dict(st); cond = ONE
        for i in range(65):
            r = self.region(fr, h, dict(cur), lp)
            if not r.cont:
                self.absorb(res, r, cond); return res
            outs = b_or_all([c for c, _ in r.rets] + [c for _, c, _ in r.outs])
            if outs is not ZERO and i == 0: break
            if outs is not ZERO: break
            self.absorb(res, r, cond)
            c, cur = self.merge(fr, r.cont)
            cond = b_and(cond, c)
        if i == 64: raise Undecided("unbounded loop")
        st = cur
        v = tm.fresh()
        step = lambda s: self.region(fr, h, dict(s), lp)
        carried, r, mus = self.stabilise(fr, step, st)
        exits = [(("ret", None), c, s) for c, s in r.rets] + [(("out", t), c, s) for t, c, s in r.outs]
        ccond, cst = self.merge(fr, r.cont)
        bodies = {loc: self.get(cst, loc) for loc in carried}
        inits = {loc: self.get(st, loc) for loc in carried}
        closed = self.solve(carried, mus, bodies, inits, v)
        def at(x, cnt):
            x = self.sub_mus(x, carried, mus, closed, v)
            return subst(x, {v: cnt}) if cnt is not v else x
        tot = ZERO
        for _, c, _ in exits: tot = b_or(tot, c)
        tot = at(tot, v)
        k = self.trip(tot, v)
        exact = k is not None
        if k is None:
            # several exits: a monotone bound plus searches inside it
            bound, rest = self.split_bound([at(c, v) for _, c, _ in exits], v)
            if bound is not None:
                n, which = bound
                anyx = any_v(n, v, rest); kk = first_v(n, v, rest)
                k = ite(anyx, kk, n)
            else:
                k = first_v(INF, v, tot)
        for kd, c in r.pan.items():
            self.addpan(res.pan, kd, b_and(cond, any_v(k, v, at(c, v))))
        for (kind, t), c, s in exits:
            cc = ONE if len(exits) == 1 else at(c, v)
            cc = subst(cc, {v: k}) if len(exits) > 1 else ONE
            if cc is ZERO: continue
            s2 = {cell: (vapply(lambda kk: at(val, kk), k) if val.fv else val) for cell, val in s.items()}
            if kind == "ret": res.rets.append((b_and(cond, cc), s2))
            else: res.outs.append((t, b_and(cond, cc), s2))
        return res

    def trip(self, e, v):
        """least v >= 0 with e(v) when e is monotone in v (v >= N)"""
        if e is ONE: return ZERO
        if e.op != "dec": return None
        p, cuts, kids = e.args
        if v not in p.fv:
            ks = [BOT if x is BOT or x is ZERO else self.trip(x, v) for x in kids]
            if any(x is None for x in ks): return None
            return tm.sel(p, cuts, tuple(ks))
        ts = tm._terms(p)
        c = ts.get(((v, 1),))
        if c is None or abs(c) != 1: return None
        if any(v in x.fv for m in ts if m != ((v, 1),) for x, _ in m): return None
        rest = sub(p, tm.scale(v, c))
        if len(cuts) == 1:
            if c == 1 and kids == (ZERO, ONE): n = sub(q(cuts[0]), rest)
            elif c == -1 and kids == (ONE, ZERO): n = sub(rest, q(cuts[0] - 1))
            else: return None
            return n
        if len(cuts) == 2 and kids == (ZERO, ONE, ZERO) and cuts[1] == cuts[0] + 1:
            return sub(q(cuts[0]), rest) if c == 1 else sub(rest, q(cuts[0]))
        return None

    def split_bound(self, conds, v):
        for i, c in enumerate(conds):
            n = self.trip(c, v)
            if n is not None and n.op != "dec":
                rest = ZERO
                for j, x in enumerate(conds):
                    if j != i: rest = b_or(rest, drop_bound(x, c))
                return (n, i), rest
        return None, None

    # ---------------------------------------------------------------- places
    def locate(self, fr, st, place):
        """place -> ref term (possibly a decision of refs)"""
        loc = mkref((fr.id, place[0]))
        proj = place[1]
        for e in proj: loc = vapply(lambda l: self.proj_ref(fr, st, l, e), loc)
        return loc
    def proj_ref(self, fr, st, l, e):
        cell, path = l.args
        k = e[0]
        if k == "*":
            v = self.read_path(st[cell], path) if cell in st else BOT
            if is_refy(v): return vapply(lambda x: x if x.op == "ref" else l, v)
            return l
        if k == "f":
            if path and path[-1][0] == "dc": return mkref(cell, path[:-1] + (("v", path[-1][1], e[1]),))
            v = self.read_path(st[cell], path) if cell in st else None
            name = e[2]
            if name is None or name.isdigit(): name = e[1]
            return mkref(cell, path + (("f", name),))
        if k == "dc": return mkref(cell, path + (("dc", e[1]),))
        if k == "i":
            i = st[(fr.id, e[1])]
            return vapply(lambda j: mkref(cell, path + (("i", j),)), i)
        if k == "ci":
            i = q(e[1])
            if e[3]:
                v = self.read_path(st[cell], path)
                i = sub(length(v), q(e[1]))
            return mkref(cell, path + (("i", i),))
        if k == "ss": return mkref(cell, path + (("s", e[1], e[2], e[3]),))
        raise Undecided("projection %r" % (e,))
    def read_path(self, v, path):
        for e in path:
            k = e[0]
            if v is BOT: return BOT
            if k == "f": v = fld(v, e[1])
            elif k == "v": v = vfield(v, e[1], e[2])
            elif k == "i": v = idx(v, e[1])
            elif k == "m": v = mget(v, e[1])
            elif k == "dc": pass
            elif k == "s":
                n = length(v)
                hi = apply(lambda x: sub(x, q(e[2])), n) if e[3] else q(e[2])
                v = slice_seq(v, q(e[1]), apply(lambda x: sub(x, q(e[1])), hi))
            elif k == "sl":
                v = slice_seq(v, e[1], e[2])
                if v is None: raise Undecided("slice of irregular sequence")
        return v
    def put_path(self, v, path, x):
        if not path: return x
        e = path[0]; k = e[0]
        if k == "f": return self.set_field(v, e[1], self.put_path(fld(v, e[1]) if v is not BOT else BOT, path[1:], x))
        if k == "v": return self.set_vfield(v, e[1], e[2], self.put_path(vfield(v, e[1], e[2]), path[1:], x))
        if k == "i":
            inner = x if len(path) == 1 else self.put_path(idx(v, e[1]), path[1:], x)
            return upd(v, e[1], inner)
        if k == "m":
            inner = x if len(path) == 1 else self.put_path(mget(v, e[1]), path[1:], x)
            return ins(v, e[1], inner)
        raise Undecided("write through %r" % (k,))
    def set_field(self, v, name, x):
        def leaf(l):
            if l.op == "st":
                ns = tm.STRUCTS.get(l.args[0]); fs = list(l.args[1])
                i = ns.index(name) if ns and name in ns else int(name)
                fs[i] = x
                return mk_st(l.args[0], tuple(fs))
            if l.op == "tup":
                fs = list(l.args); fs[name] = x; return mk_tup(*fs)
            if l.op == "clo":
                fs = list(l.args[1]); fs[name] = x; return mk("clo", l.args[0], tuple(fs))
            ty = tm.TY.get(l)
            if ty is not None and ty["k"] == "adt":
                key = short(ty["key"])
                if key in tm.STRUCTS: return leaf(tm.expand_st(l, key))
            if l in tm.TUPN: return leaf(mk("tup", *[fld(l, i) for i in range(tm.TUPN[l])]))
            return mk("setf", l, name, x)
        if v is BOT: raise Undecided("write to a field of an uninitialised value")
        return vapply(leaf, v)
    def set_vfield(self, v, var, j, x):
        def leaf(l):
            if l.op != "en":
                ty = tm.TY.get(l)
                if ty is not None and ty["k"] == "adt": l = tm.expand_en(l, short(ty["key"]))
            if l.op == "en":
                pay = []
                for vv, fs in l.args[2]:
                    if vv == var:
                        fs = list(fs); fs[j] = x; fs = tuple(fs)
                    pay.append((vv, fs))
                return mk_en(l.args[0], l.args[1], tuple(pay))
            return mk("setv", l, var, j, x)
        return vapply(leaf, v)
    def read_ref(self, r, st):
        """value denoted by a reference term (identity on plain values)"""
        def leaf(l):
            if l.op != "ref": return l
            cell, path = l.args
            if cell not in st: return BOT
            return self.read_path(st[cell], path)
        return vapply(leaf, r)
    def write_ref(self, r, st, x):
        if r.op == "ref":
            cell, path = r.args
            st[cell] = self.put_path(st.get(cell, BOT), path, x) if path else x
            return
        if r.op == "dec":
            # conditional target
            cells = set()
            def coll(t):
                if t.op == "dec":
                    for k in t.args[2]: coll(k)
                elif t.op == "ref": cells.add(t.args[0])
                elif t is not BOT: raise Undecided("write through unknown reference")
            coll(r)
            news = {}
            def go(t, c, x, old):
                # what is written where a reference is chosen is stated for that choice alone
                if t is BOT: return BOT
                if t.op != "dec": return (self.put_path(old, t.args[1], x) if t.args[1] else x) if t.args[0] == c else st[c]
                p, cuts, kids = t.args
                out = []
                for i, k in enumerate(kids):
                    lo = cuts[i - 1] if i else None; hi = cuts[i] if i < len(cuts) else None
                    out.append(go(k, c, chosen(x, p, lo, hi), old))
                return tm.sel(p, cuts, tuple(out))
            for c in cells: news[c] = go(r, c, x, st.get(c, BOT))
            st.update(news)
            return
        raise Undecided("write through unknown reference")

    def read(self, fr, st, place):
        v = st.get((fr.id, place[0]), BOT)
        pr = place[1]
        pend = None
        for e in pr:
            if v is BOT: return BOT
            k = e[0]
            if k == "*":
                if is_refy(v): v = self.read_ref(v, st)
            elif k == "f":
                if pend is not None: v = vfield(v, pend, e[1]); pend = None
                else:
                    name = e[2]
                    if name is None or name.isdigit(): name = e[1]
                    v = fld(v, name)
            elif k == "dc": pend = e[1]
            elif k == "i": v = idx(v, st[(fr.id, e[1])])
            elif k == "ci":
                i = q(e[1])
                if e[3]: i = apply(lambda n: sub(n, q(e[1])), length(v))
                v = idx(v, i)
            elif k == "ss": v = self.read_path(v, (("s", e[1], e[2], e[3]),))
            else: raise Undecided("projection %r" % (e,))
        return v

    def assign(self, fr, st, place, v):
        if not place[1]:
            st[(fr.id, place[0])] = v
            typed(v, fr.body.locals[place[0]])
            return
        r = self.locate(fr, st, place)
        self.write_ref(r, st, v)

    # ---------------------------------------------------------------- operands, rvalues
    def operand(self, fr, st, o):
        if o[0] in ("c", "m"): return self.read(fr, st, o[1])
        if o[0] == "k": return self.const(fr, o[1])
        raise Undecided("operand %r" % (o[:1],))

    def const(self, fr, c):
        k = c[0]
        if k == "int":
            if c[2] == "bool": return ONE if c[1] in (True, "true", 1) else ZERO
            return q(int(c[1]))
        if k == "float":
            r = c[1]
            if r in ("inf", "-inf", "NaN", "nan"): return mk("fconst", r)
            return q(Fraction(r))
        if k == "char": return q(c[1])
        if k == "str": return self.text(c[1])
        if k == "bytes": return self.decode(c[1], c[2])
        if k == "raw": return self.decode(c[1], c[2])
        if k == "zst":
            ty = c[1]
            if ty["k"] == "tuple": return UNIT
            if ty["k"] == "closure": return mk("clo", ty["key"], ())
            if ty["k"] == "adt":
                s = short(ty["key"])
                if s in tm.STRUCTS: return mk_st(s, ())
            if ty["k"] == "array": return NIL
            return mk("zst", short_ty(ty["s"]))
        if k == "promoted": return self.const_body(self.prog.prom[(c[1], c[2])], fr)
        if k == "const":
            b = self.prog.fns.get(c[1])
            if b is None: return mk("const", short(c[1]))
            return self.const_body(b, fr)
        if k == "extconst": return self.extconst(c[1])
        if k == "bits":
            if "Ordering" in c[2]: v = int(c[1]); return q(v - 256 if v > 127 else v)
            s = short(strip_generics(c[2]))
            if s in tm.ENUMS: return en(s, int(c[1]))
            return mk("bits", int(c[1]), short_ty(c[2]))
        if k == "fn":
            return mk("fnref", c[1].get("rkey", c[1]["key"]), c[1]["path"])
        return mk("const?", repr(c))
    def extconst(self, p):
        s = short(p)
        M = {"EPSILON": mk("fconst", "EPSILON"), "INFINITY": mk("fconst", "inf"), "PI": mk("fconst", "PI"), "NAN": mk("fconst", "NaN")}
        return M.get(s, mk("extconst", "::".join(p.split("::")[-2:])))
    def text(self, s): return NIL if s == "" else mk("arr", mk("tx", s))
    def decode(self, by, ty):
        t = ty.replace("&", "").strip()
        m = re.match(r"^(?:'\w+ )?\[(\w+)(?:; (\d+))?\]$", t)
        import struct
        sz = {"u8": ("B", 1), "i8": ("b", 1), "u16": ("<H", 2), "u32": ("<I", 4), "i32": ("<i", 4), "u64": ("<Q", 8), "usize": ("<Q", 8), "i64": ("<q", 8), "f64": ("<d", 8), "f32": ("<f", 4)}
        if m and m.group(1) in sz:
            f, n = sz[m.group(1)]
            vals = [struct.unpack(f, bytes(by[i:i + n]))[0] for i in range(0, len(by), n)]
            return arr(*[q(Fraction(repr(v)) if isinstance(v, float) else v) for v in vals])
        return mk("rawconst", bytes(by).hex(), short_ty(t))
    def const_body(self, b, fr):
        k = (b.key, b.j["promoted"])
        if k in self.consts: return self.consts[k]
        self.consts[k] = mk("const", short(b.key))
        v, st, c, pan = self.call_body(b, [], {WORLD: mk("world")}, fr.tsub if fr else {})
        if v is None: v = BOT
        v = self.deep(v, st) if st is not None else v
        self.consts[k] = v
        return v

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use": return self.operand(fr, st, r[1])
        if k == "ref":
            if r[1] == "shared":
                v = self.read(fr, st, r[2])
                return self.snapshot(v, st)
            return self.locate(fr, st, r[2])
        if k == "bin": return self.binop(r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), r[4])
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if r[3] == "bool": return b_not(v)
                return apply(lambda x: mk("bnot", x), v)
            if r[1] == "Neg": return apply(neg, v)
            if r[1] == "PtrMetadata":
                v = self.read_ref(v, st) if is_refy(v) else v
                return length(v)
            raise Undecided("unary " + r[1])
        if k == "cast": return self.cast(r[1], self.operand(fr, st, r[2]), r[3], r[4])
        if k == "discr":
            v = self.read(fr, st, r[1])
            ty = peel(r[2])
            if ty["k"] == "adt" and short(ty["key"]) == "Ordering": return v
            if ty["k"] == "adt": 
                s = short(ty["key"])
                if s in tm.ENUMS and v.op != "en": v = vapply(lambda l: tm.expand_en(l, s), v)
            d = discr(v)
            if ty["k"] == "adt":
                a = tm.ADTS.get(ty["key"])
                if a and any(str(x["discr"]) != str(i) for i, x in enumerate(a["variants"])):
                    return vapply(lambda l: tm.resel(l, tuple(range(1, len(a["variants"]))), tuple(q(int(x["discr"])) for x in a["variants"])), d)
            return d
        if k == "tuple": return mk_tup(*[self.operand(fr, st, o) for o in r[1]])
        if k == "array": return arr(*[self.operand(fr, st, o) for o in r[1]])
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            if r[2] is None: return mk("repeat", v)
            if r[2] <= 64: return arr(*[v] * r[2])
            return flat_v(q(r[2]), tm.fresh(), mk("arr", v))
        if k == "adt":
            vals = tuple(self.operand(fr, st, o) for o in r[4])
            s = short(r[1])
            if s == "Ordering": return q(r[2] - 1)
            if s in tm.ENUMS: return mk("en", s, q(r[2]), ((r[2], vals),) if vals else ())
            return self.mkstruct(r[1], s, vals)
        if k == "closure": return mk("clo", r[1], tuple(self.operand(fr, st, o) for o in r[2]))
        raise Undecided("rvalue " + k)
    def mkstruct(self, key, s, vals):
        a = self.prog.adts.get(key)
        if a:
            names = [f[0] for f in a["variants"][0]["fields"]]
            canon = tm.STRUCTS.get(s)
            if canon and canon != names and sorted(canon) == sorted(names):
                vals = tuple(vals[names.index(n)] for n in canon)
        elif s not in tm.STRUCTS: pass
        return mk_st(s, vals)
    def snapshot(self, v, st):
        """a shared borrow denotes the value at this moment"""
        if v.op == "ref" or is_refy(v): return v      # & of a &mut: keep the reference, read when dereferenced
        return v

    FL = ("f64", "f32")
    def binop(self, op, a, b, ty):
        fl = ty in self.FL
        if ty in tm.UNSIGNED_TYS or ty == "bool":
            tt = {"k": "prim", "s": ty}
            for x in (a, b):
                if x.op not in ("q", "poly", "dec"): typed(x, tt)
        if op in ("Add", "AddUnchecked"): return apply(add, a, b)
        if op in ("Sub", "SubUnchecked"): return apply(sub, a, b)
        if op in ("Mul", "MulUnchecked"): return apply(mul, a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = apply({"A": add, "S": sub, "M": mul}[op[0]], a, b)
            o = ZERO
            if "overflow" in self.strict: o = self.ovf(r, ty)
            return mk_tup(r, o)
        if op == "Div": return apply(div, a, b) if fl else apply(idiv, a, b)
        if op == "Rem": return apply(lambda x, y: mk("frem", x, y), a, b) if fl else apply(irem, a, b)
        if op == "Lt": return lt(a, b, fl)
        if op == "Gt": return lt(b, a, fl)
        if op == "Le": return le(a, b, fl)
        if op == "Ge": return le(b, a, fl)
        if op == "Eq": return self.beq(a, b, ty)
        if op == "Ne": return b_not(self.beq(a, b, ty))
        if op == "Cmp": return cmp_(a, b, fl)
        if ty == "bool":
            if op == "BitAnd": return b_and(tb(a), tb(b))
            if op == "BitOr": return b_or(tb(a), tb(b))
            if op == "BitXor": return ite(tb(a), b_not(b), tb(b))
        if op in ("Shl", "ShlUnchecked") and isq(b): return apply(lambda x: tm.scale(x, 2 ** int(qv(b))), a)
        if op in ("Shr", "ShrUnchecked") and isq(b): return apply(lambda x: idiv(x, q(2 ** int(qv(b)))), a)
        if op in ("BitAnd", "BitOr", "BitXor"):
            def f(x, y):
                if isq(x) and isq(y) and qv(x) >= 0 and qv(y) >= 0:
                    i, j = int(qv(x)), int(qv(y))
                    return q({"BitAnd": i & j, "BitOr": i | j, "BitXor": i ^ j}[op])
                if op == "BitAnd":
                    if y is ONE: return irem(x, q(2))
                    if x is ONE: return irem(y, q(2))
                x, y = sorted((x, y), key=lambda t: t.dig)
                return mk(op.lower(), x, y)
            return apply(f, a, b)
        return apply(lambda x, y: mk("bin" + op, x, y), a, b)
    def beq(self, a, b, ty):
        if ty == "bool": return ite(tb(a), tb(b), b_not(b))
        return eq(a, b, ty in self.FL)
    RNG = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "usize": (0, 2**64 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}
    def ovf(self, r, ty):
        if ty not in self.RNG: return ZERO
        lo, hi = self.RNG[ty]
        if lo == 0 and hi > 2**32: return lt(r, q(lo))
        return b_or(lt(r, q(lo)), lt(q(hi), r))
    def cast(self, kind, v, to, frm):
        k = kind.split("(")[0]
        ts, fs = to["s"], frm["s"]
        if k == "IntToInt":
            if fs == "bool": return tb(v)
            if fs == "char" or ts == "char": return v
            if fs in self.RNG:
                typed(v, frm) if v.op not in ("q", "poly", "dec") else None
            if fs in self.RNG and ts in self.RNG:
                fl_, fh = self.RNG[fs]; tl, th = self.RNG[ts]
                if tl <= fl_ and fh <= th: return v
                def f(x):
                    if isq(x):
                        n = int(qv(x)); w = th - tl + 1
                        return q((n - tl) % w + tl)
                    if fl_ < 0 and tl == 0 and fh <= th: return ite(lt(x, ZERO), add(x, q(th + 1)), x)
                    return trunc(x, ts, fs)
                return apply(f, v)
            if to["k"] == "adt" or frm["k"] == "adt": 
                return v
            return v
        if k == "IntToFloat":
            return v
        if k == "FloatToInt": return apply(lambda x: x if isq(x) and qv(x).denominator == 1 else mk("ftoi", ts, x), v)
        if k == "FloatToFloat": return v if ts == "f64" else apply(lambda x: mk("f32", x), v)
        if k == "Transmute": return apply(lambda x: mk("transmute", ts, x), v) if ts != fs else v
        if k == "BoxDerefTransmute" and v.op == "fld" and v.args[0].op == "ref": return v.args[0]      # the pointer inside a Box
        return v     # pointer coercions

    # ---------------------------------------------------------------- calls
    def call_term(self, fr, st, t, res, cond, b):
        """returns (value, state, cond) or None when the call diverges"""
        args = [self.operand(fr, st, o) for o in t[2]]
        if b in fr.inter:
            return fr.inter[b](self, st, args), st, ONE
        for v in args:
            if v is BOT or v.op == "ref" and self.read_ref(v, st) is BOT: self.lost.append("%s, block %d" % (short(fr.body.key), b))
        f = t[1]
        self.curpan = (res, cond)
        if f[0] == "k" and f[1][0] == "fn":
            info = f[1][1]
            r = self.call_fn(info, args, st, fr)
        else:
            fv = self.operand(fr, st, f)
            r = self.call_value(fv, args, st)
        v, st2, c, pan = r
        for k, x in pan.items(): self.addpan(res.pan, k, b_and(cond, x))
        if v is None or st2 is None: return None
        return v, st2, c

    def tsubst(self, ty, tsub):
        if ty["k"] == "param": return tsub.get(ty["name"], ty)
        if ty["k"] == "ref": return dict(ty, to=self.tsubst(ty["to"], tsub))
        if tsub and ty["k"] == "array": return dict(ty, of=self.tsubst(ty["of"], tsub))
        return ty

    def call_fn(self, info, args, st, fr):
        key = info.get("rkey", info["key"])
        tsub = fr.tsub if fr else {}
        targs = [self.tsubst(t, tsub) for t in (info.get("rtargs") or info.get("targs", []))]
        tr = info.get("trait")
        name = info["name"]
        if tr:
            trs = short(tr)
            if trs in ("Fn", "FnMut", "FnOnce") and name in ("call", "call_mut", "call_once"):
                fv = self.read_ref(args[0], st) if is_refy(args[0]) else args[0]
                envref = args[0] if is_refy(args[0]) else None
                a = args[1]
                n = len(a.args) if a.op == "tup" else tm.TUPN.get(a, 0)
                return self.call_value(fv, [fld(a, i) for i in range(n)], st, envref)
            if trs == "Clone" and name == "clone":
                return self.models.deref(self, st, args[0]), st, ONE, {}
            self_ty = self.tsubst(info["self"], tsub) if "self" in info else None
            if "rkey" not in info and self_ty is not None:
                k2 = self.resolve_trait(tr, name, self_ty, targs)
                if k2: key = k2
        b = self.prog.fns.get(key)
        if b is not None and b.j.get("derived") and b.j.get("impl_trait", "").endswith("PartialEq"):
            x = self.deep(self.models.deref(self, st, args[0]), st); y = self.deep(self.models.deref(self, st, args[1]), st)
            r = eq(x, y)
            return (b_not(r) if name == "ne" else r), st, ONE, {}
        if tr and short(tr) == "PartialEq" and name == "ne" and b is None:
            # provided method: negation of eq
            k2 = None
            ty = peel(targs[0]) if targs else None
            if ty is not None: k2 = self.resolve_trait(tr, "eq", ty, targs)
            if k2:
                v, s2, c, p = self.call_fn(dict(info, name="eq", rkey=k2), args, st, fr)
                return (b_not(v) if v is not None else None), s2, c, p
        if b is not None:
            nm = Program.fname(b)
            rec = b.key in self.prog.recursive()
            if rec and nm not in self.opaque: self.used_rec.add(nm)
            if rec and nm in self.unfold and b.key not in self.stack: rec = False
            if nm in self.opaque or rec or nm in self.pure:
                return self.opaque_call(nm, args, st, targs if self.keeps_targs(b) else [], nm in self.pure)
            names = b.j.get("generics", [])
            ts = {n: targs[i] for i, n in enumerate(names) if i < len(targs)}
            return self.call_body(b, args, st, ts)
        m = self.models.lookup(info, key)
        if m is not None:
            r = m(self, st, args, Call(info, targs, fr))
            if isinstance(r, T): return r, st, ONE, {}
            if r is None: return None, None, ZERO, {"explicit": ONE}
            return r
        # uninterpreted
        nm = self.models.canon(info, key)
        if tr and "self" in info:
            ty = self.tsubst(info["self"], tsub)
            nm = "<%s>::" % short_ty(ty["s"]) + nm
            if peel(ty)["k"] == "param" or tr.startswith("fem_domain") or tr.startswith("fem_problem") or info["key"].startswith(self.prog.crate): pass
            else: self.unmodelled.add(nm)
        else: self.unmodelled.add(nm)
        self.externs.add(nm)
        return self.opaque_call(nm, args, st, [], False)

    def keeps_targs(self, b): return bool(b.j.get("generics"))
    def resolve_trait(self, tr, name, self_ty, targs):
        self_ty = peel(self_ty)
        s = self_ty["s"]
        for b in self.prog.names_by_method(name):
            if b.j.get("impl_trait") == tr and b.j.get("impl_self") == s:
                # same trait arguments where they matter
                return b.key
        return None

    def opaque_call(self, nm, args, st, targs, pure):
        self.used_opaque.add(nm)
        vals = []
        muts = []
        for i, a in enumerate(args):
            if is_refy(a):
                muts.append((i, a)); vals.append(self.deep(self.read_ref(a, st), st))
            else: vals.append(self.canon_arg(self.deep(a, st), st))
        # iterator/container types of a generic argument say how it is written, not what it computes
        extra = tuple(short_ty(t["s"]) for t in targs
                      if t["k"] != "closure" and "closure@" not in t["s"] and not re.match(r"&?(?:mut )?(?:std|core|alloc|rayon)::", t["s"]))
        cvals = tuple(vals)
        def f(*xs):
            return mk("call", nm, extra, tuple(xs))
        v = apply(f, *cvals) if cvals else f()
        if muts and not pure:
            st = dict(st)
            for i, a in muts:
                o = apply(lambda *xs: self.outflag(mk("out", nm, extra, i, tuple(xs)), vals[i]), *cvals)
                self.write_ref(a, st, o)
        return v, st, ONE, {}
    def outflag(self, o, old):
        if is_seq(old): tm.SEQATOMS.add(o)
        if old in tm.TY: typed(o, tm.TY[old])
        elif old.op == "st":
            for k, a in tm.ADTS.items():
                if short(k) == old.args[0]:
                    typed(o, {"k": "adt", "key": k, "s": k, "args": []}); break
        return o
    def canon_arg(self, v, st):
        """closures inside an uninterpreted argument are compared by what they compute"""
        if v.op == "clo": return self.clo_lam(v, st)
        if v.op == "iter": return mk("iter", v.args[0])
        return v
    def clo_lam(self, v, st):
        b = self.prog.fns.get(v.args[0])
        if b is None: return v
        xs = [with_depth(tm.fresh) for _ in range(b.nargs - 1)]
        for x, ty in zip(xs, b.locals[2:]): typed(x, ty)
        r, s2, c, p = with_depth(lambda: self.call_value(v, xs, st))
        if r is None: r = BOT
        else: r = self.deep(r, s2)
        for x in xs: r = tm.lam_v(ZERO, x, r)
        return r

    def call_value(self, fv, args, st, envref=None):
        """call a closure / function value"""
        if fv.op == "dec":
            p, cuts, kids = fv.args
            edges = []; pan = {}
            class F: id = -1
            for i, k in enumerate(kids):
                if k is BOT: continue
                c = tm.dec(p, cuts, tuple(ONE if j == i else ZERO for j in range(len(kids))))
                v, s, c2, pn = self.call_value(k, args, dict(st))
                for kk, x in pn.items(): self.addpan(pan, kk, b_and(c, x))
                if v is not None:
                    s = dict(s); s[("tmp", 0)] = v; edges.append((b_and(c, c2), s))
            if not edges: return None, None, ZERO, pan
            c, s = self.merge(F, edges)
            s = dict(s)
            v = s.pop(("tmp", 0))
            return v, s, c, pan
        if fv.op == "clo":
            b = self.prog.fns[fv.args[0]]
            env = envref if envref is not None and envref.op == "ref" else fv
            # a closure body takes its environment first and its arguments untupled
            root = self.prog.fns.get(b.j["root"])
            return self.call_body(b, [env] + args, st, self.clo_tsub(b))
        if fv.op == "fnref":
            key, path = fv.args
            b = self.prog.fns.get(key)
            info = {"key": key, "path": path, "name": short(path), "rkey": key, "rpath": path}
            if b is not None: return self.call_fn(info, args, st, None)
            return self.call_ctor(fv, args, st, info)
        return self.opaque_call("apply", [fv] + args, st, [], False)
    def clo_tsub(self, b):
        return {n: {"k": "param", "name": "T%d" % i, "s": "T%d" % i} for i, n in enumerate(b.j.get("generics", []))}
    def call_ctor(self, fv, args, st, info):
        """enum/struct constructors and external functions passed as values"""
        p = strip_generics(info["path"])
        parts = p.split("::")
        if len(parts) >= 2 and parts[-2] in tm.ENUMS:
            vs = [v for v, _ in tm.ENUMS[parts[-2]]]
            if parts[-1] in vs:
                i = vs.index(parts[-1])
                return mk("en", parts[-2], q(i), ((i, tuple(args)),)), st, ONE, {}
        m = self.models.lookup_path(p)
        if m is not None:
            r = m(self, st, args, Call(info, [], None))
            if isinstance(r, T): return r, st, ONE, {}
            if r is None: return None, None, ZERO, {"explicit": ONE}
            return r
        return self.opaque_call("::".join(parts[-2:]), args, st, [], False)

class Call:
    __slots__ = ("info", "targs", "fr")
    def __init__(self, info, targs, fr): self.info = info; self.targs = targs; self.fr = fr

class _Probe(Exception): pass

def names_by_method(self, name):
    if not hasattr(self, "_nbm"):
        self._nbm = {}
        for b in self.fns.values():
            if b.j["kind"] in ("Fn", "AssocFn"): self._nbm.setdefault(b.j["name"], []).append(b)
    return self._nbm.get(name, [])
Program.names_by_method = names_by_method

def b_or_all(cs):
    r = ZERO
    for c in cs: r = b_or(r, c)
    return r
def bool_leaves(t, m):
    if t is BOT or t is m: return True
    if t.op == "dec": return all(bool_leaves(k, m) for k in t.args[2])
    return t in (ZERO, ONE) or t in tm.FLAGS
def drop_bound(x, c):
    """x under not c"""
    return b_and(x, b_not(c)) if False else simplify_under_not(x, c)
def chosen(x, p, lo, hi):
    """x where lo <= p < hi: decisions on p anywhere inside are settled"""
    def f(n):
        if n.op != "dec" or n.args[0] is not p: return None
        for j, k in enumerate(n.args[2]):
            a = n.args[1][j - 1] if j else None; b = n.args[1][j] if j < len(n.args[1]) else None
            if (a is None or lo is not None and a <= lo) and (b is None or hi is not None and hi <= b): return k
        return None
    return tm.transform(x, f, lambda n: False)
def simplify_under_not(x, c):
    # x is evaluated only where c is false: cofactor away c's test
    def go(t):
        if t.op != "dec": return t
        if c.op == "dec" and t.args[0] is c.args[0]:
            vals = [k for k, cc in zip(t.args[2], c.args[2]) if cc is ZERO] if t.args[1] == c.args[1] else list(t.args[2])
            if len(vals) == 1: return vals[0]
        return tm.sel(t.args[0], t.args[1], tuple(go(k) for k in t.args[2]))
    return go(x)
def sccs(nodes, deps):
    idx_ = {}; low = {}; st = []; on = set(); out = []; c = [0]
    def go(v):
        idx_[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
        for w in sorted(deps[v], key=lambda l: nodes.index(l)):
            if w not in idx_: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx_[w])
        if low[v] == idx_[v]:
            comp = []
            while True:
                w = st.pop(); on.discard(w); comp.append(w)
                if w == v: break
            out.append(tuple(sorted(comp, key=lambda l: nodes.index(l))))
    for n in nodes:
        if n not in idx_: go(n)
    return out
def cmp_(a, b, fl):
    return ite(lt(a, b, fl), q(-1), ite(eq(a, b, fl), ZERO, ONE))
def idiv(a, b):
    if isq(b) and qv(b) != 0:
        if qv(b) == 1: return a
        if isq(a): 
            x, y = int(qv(a)), int(qv(b)); r = abs(x) // abs(y); return q(r if (x >= 0) == (y > 0) else -r)
        ts = tm._terms(a)
        if all(c % qv(b) == 0 for c in ts.values()): return tm.scale(a, Fraction(1) / qv(b))
    t = mk("idiv", a, b)
    tm.UNSIGNED.add(t) if tm.bounds(a)[0] == 0 and (isq(b) and qv(b) > 0 or tm.bounds(b)[0] == 0) else None
    return t
def irem(a, b):
    if isq(b) and isq(a) and qv(b) != 0:
        import math
        return q(int(math.fmod(int(qv(a)), int(qv(b)))))
    return sub(a, mul(b, idiv(a, b)))
def trunc(x, ts, fs):
    t = mk("trunc", ts, x)
    if ts in tm.UNSIGNED_TYS: tm.UNSIGNED.add(t)
    return t
tm.REBUILD["idiv"] = lambda a, t: apply(idiv, *a)
tm.REBUILD["iter"] = lambda a, t: mk("iter", a[0])
tm.REBUILD["trunc"] = lambda a, t: apply(lambda x: x if isq(x) else tm._flagcopy(mk("trunc", a[0], x), t), a[1])
tm.REBUILD["ftoi"] = lambda a, t: apply(lambda x: x if isq(x) and qv(x).denominator == 1 else mk("ftoi", a[0], x), a[1])
tm.REBUILD["call"] = lambda a, t: apply(lambda *xs: tm._flagcopy(mk("call", a[0], a[1], tuple(xs)), t), *a[2]) if a[2] else t
tm.REBUILD["out"] = lambda a, t: apply(lambda *xs: tm._flagcopy(mk("out", a[0], a[1], a[2], tuple(xs)), t), *a[3])
tm.REBUILD["clo"] = lambda a, t: mk("clo", a[0], a[1])

def dummy_frame(self):
    fr = Frame(); _fid[0] += 1
    fr.id = -_fid[0]
    class B: locals = []; live = {}; borrowed = set()
    fr.body = B; fr.tsub = {}; fr.inter = {}
    return fr
Ev.dummy_frame = dummy_frame
