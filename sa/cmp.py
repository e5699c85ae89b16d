"""Comparison of two value graphs under a care condition."""
import term as tm
from fractions import Fraction
from term import mk, q, qv, ZERO, ONE, BOT, ite, b_and, b_not, b_or, isq, T, apply, bind, fresh, subst_bv, eq, cof

SENT = mk("SENT")
# operators the model layer leaves uninterpreted or that denote an unrecognised loop: a
# difference that involves one of them is not decided
WEAK = {"fold", "mu", "loop", "vinsert", "sorted", "fpos", "maxof", "setf", "setv", "const?", "transmute", "mulbig",
        "vremove", "cursor", "unk", "updall", "iter"}

class Mismatch:
    def __init__(self, where, a, b, cond): self.where = where; self.a = a; self.b = b; self.cond = cond

def _kids(t):
    out = []
    for a in t.args: tm._walk(a, out)
    return out

def ops(t, seen=None, acc=None):
    """call names and weak operators used in t"""
    seen = set() if seen is None else seen
    acc = set() if acc is None else acc
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ("call", "out"): acc.add(("call", x.args[0]))
        elif x.op in WEAK: acc.add(("weak", x.op))
        elif x.op == "clo": acc.add(("weak", "clo"))
        st.extend(_kids(x))
    return acc

def intervals(care, limit=48):
    """hull of the values each tested term can take where care holds (only informative ones)"""
    vs = []; seen = set(); st = [care]
    while st:
        x = st.pop()
        if x in seen or x.op != "dec": continue
        seen.add(x)
        if x.args[0] not in vs: vs.append(x.args[0])
        st.extend(x.args[2])
    if len(seen) > 3000: return {}
    out = {}
    for p in vs[:limit]:
        cuts = sorted({c for x in seen if x.args[0] is p for c in x.args[1]})
        ok = []
        for i in range(len(cuts) + 1):
            lo = cuts[i - 1] if i else None; hi = cuts[i] if i < len(cuts) else None
            memo = {}
            def go(x):
                if x.op != "dec": return x is not ZERO and x is not BOT
                r = memo.get(x)
                if r is None:
                    r = go(cof(x, p, lo, hi)) if x.args[0] is p else any(go(k) for k in x.args[2])
                    memo[x] = r
                return r
            if go(care): ok.append((lo, hi))
        if not ok: continue
        lo, hi = ok[0][0], ok[-1][1]
        bl, bh = tm.bounds(p)
        if bl is not None and (lo is None or lo < bl): lo = bl
        if bh is not None and (hi is None or hi > bh + 1): hi = bh + 1
        if lo is None and hi is None: continue
        out[p] = (lo, hi)
    return out

FEAS = {}
RANGES = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1)}
def _row(p, lo, hi):
    """lo <= p < hi as rows sum(c*m) + k <= 0 (or < 0): (coefficients, k, strict)"""
    if p.op == "sgn":
        t, k = tm.split_const(p.args[0]); r = []
        if lo is not None and lo >= 0: r.append(({m: -c for m, c in t.items()}, -k, lo >= 1))
        if hi is not None and hi <= 1: r.append((dict(t), k, hi <= 0))
        return r
    t, k = tm.split_const(p); r = []
    if lo is not None: r.append(({m: -c for m, c in t.items()}, lo - k, False))
    if hi is not None: r.append((dict(t), k - hi + 1, False))
    return r
def feasible(lits):
    """False when the linear parts of the conjunction of the literals lo <= p < hi contradict each other (Fourier-Motzkin)"""
    key = frozenset(lits)
    r = FEAS.get(key)
    if r is None: r = FEAS[key] = _feasible(lits)
    return r
def _feasible(lits):
    rows = []
    for p, lo, hi in lits: rows += _row(p, lo, hi)
    ms = {m for t, _, _ in rows for m in t}
    for m in list(ms):
        # what every value of a short integer type, and every quotient by a constant, satisfies
        if len(m) != 1 or m[0][1] != 1: continue
        x = m[0][0]; ty = tm.TY.get(x)
        r = RANGES.get(ty["s"]) if ty is not None and ty["k"] == "prim" else RANGES.get(x.args[0]) if x.op == "trunc" else None
        if r is not None: rows += [({m: Fraction(1)}, Fraction(-r[1]), False), ({m: Fraction(-1)}, Fraction(r[0]), False)]
        if x.op == "idiv" and isq(x.args[1]) and qv(x.args[1]) > 0 and tm.bounds(x.args[0])[0] == 0:
            t, k = tm.split_const(x.args[0]); c = qv(x.args[1])
            u = {n: -v for n, v in t.items()}; u[m] = u.get(m, 0) + c
            rows.append((u, -k, False))
            u = dict(t); u[m] = u.get(m, 0) - c
            rows.append((u, k - c + 1, False))
            ms |= set(t)
    if len(rows) < 2: return True
    for m in ms:
        if all(tm.bounds(x)[0] is not None and tm.bounds(x)[0] >= 0 and e > 0 for x, e in m): rows.append(({m: Fraction(-1)}, Fraction(0), False))
    while ms:
        for t, k, s in rows:
            if not t and (k > 0 or s and k == 0): return False
        cnt = {m: (sum(1 for t, _, _ in rows if t.get(m, 0) > 0), sum(1 for t, _, _ in rows if t.get(m, 0) < 0)) for m in ms}
        m = min(ms, key=lambda m: (cnt[m][0] * cnt[m][1], repr(cnt[m])))
        ms.discard(m)
        up = [r for r in rows if r[0].get(m, 0) > 0]; dn = [r for r in rows if r[0].get(m, 0) < 0]; rest = [r for r in rows if not r[0].get(m, 0)]
        if len(up) * len(dn) > 300: return True
        for (t, k, s) in up:
            for (t2, k2, s2) in dn:
                f, g = -t2[m], t[m]
                n = {}
                for x in set(t) | set(t2):
                    c = f * t.get(x, 0) + g * t2.get(x, 0)
                    if c and x != m: n[x] = c
                rest.append((n, f * k + g * k2, s or s2))
        rows = rest
    return not any(not t and (k > 0 or s and k == 0) for t, k, s in rows)
def possible(care, limit=256):
    """False when every path of care is contradictory"""
    n = [0]
    def go(x, lits):
        if x is ZERO or x is BOT: return False
        if x.op != "dec":
            n[0] += 1
            return n[0] > limit or feasible(lits)
        p, cuts, kids = x.args
        for i, k in enumerate(kids):
            lo = cuts[i - 1] if i else None; hi = cuts[i] if i < len(cuts) else None
            if go(k, lits + ((p, lo, hi),)): return True
        return False
    return go(care, ())

def fitting(care, *ts):
    """the casts to a shorter integer type whose operand fits the type wherever care holds"""
    d = {}
    for t in [t for t in subterms(ts) if t.op == "trunc" and t.args[0] in RANGES and not tm.fbv(t)][:4]:
        lo, hi = RANGES[t.args[0]]; x = t.args[1]
        if not possible(b_and(care, tm.lt(x, q(lo)))) and not possible(b_and(care, tm.lt(q(hi), x))): d[t] = x
    return d
def with_firsts(care):
    """care with what the least index satisfying a test says of itself: the test holds there"""
    fs = [t for t in subterms([care]) if t.op == "first" and not tm.fbv(t)][:6]
    for f in fs:
        h, n, b = f.args
        holds = tm.subst_bv(b, h, f)
        some = tm.any_v_closed(n, h, b)
        if holds is None or some is None: continue
        care = tm.ite(some, tm.b_and(care, holds), care)
        if care is ZERO: return care
    return care

CASES = 3000
def nested_var(*ts):
    """the test to split on first, and its cuts: the least one that contains no test itself"""
    best = None; seen = set(); st = list(ts); inner = {}
    def has_dec(x, memo={}):
        r = memo.get(x)
        if r is None:
            r = x.op == "dec" or any(has_dec(k) for k in _kids(x))
            memo[x] = r
        return r
    cuts = {}
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "dec":
            p = x.args[0]
            if not tm.fbv(p): cuts.setdefault(p, set()).update(x.args[1])
        st.extend(_kids(x))
    best = None
    for p in cuts:
        if has_dec(p): continue
        if best is None or tm._okey(p) < tm._okey(best): best = p
    if best is None: return None
    return best, sorted(cuts[best])

class Everywhere:
    """what `no index below n satisfies body` says: each test of body, at any index, lies in a known range"""
    def __init__(self, t):
        self.facts = []
        h, n, body = t.args
        for p, (lo, hi) in intervals(b_not(body)).items():
            if h not in tm.fbv(p): continue
            ix = [x for x in subterms([p]) if x.op == "idx" and x.args[1].op == "bv" and x.args[1].args[0] == h]
            if any(h not in tm.fbv(x.args[0]) and tm.length(x.args[0]) is n for x in ix): self.facts.append((p, lo, hi, h))
    def find(self, p):
        for f, lo, hi, h in self.facts:
            if match(f, p, h, [None]): return lo, hi
        return None
def match(a, b, h, bind):
    """does b equal a with some term for the bound variable h?"""
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(match(x, y, h, bind) for x, y in zip(a, b))
    if not isinstance(a, tm.T): return a == b
    if not isinstance(b, tm.T): return False
    if h not in tm.fbv(a): return a is b
    if a.op == "bv":
        if bind[0] is None: bind[0] = b
        return bind[0] is b
    if a.op == "poly" and b.op in ("poly", "q"):
        x, y = tm._terms(a), dict(tm._terms(b)); opn = []
        for m, c in x.items():
            if any(h in tm.fbv(t) for t, _ in m): opn.append((m, c))
            elif y.pop(m, None) != c: return False
        if len(opn) != len(y) or len(opn) > 3: return False
        def go(i, left):
            if i == len(opn): return True
            m, c = opn[i]
            for k in list(left):
                if left[k] != c or len(k) != len(m): continue
                sv = bind[0]
                if match(m, k, h, bind):
                    if go(i + 1, {z: w for z, w in left.items() if z != k}): return True
                bind[0] = sv
            return False
        return go(0, y)
    if a.op != b.op or len(a.args) != len(b.args) or a.op in tm.BINDERS: return False
    return all(match(x, y, h, bind) for x, y in zip(a.args, b.args))
def everywhere(p, hi):
    if p.op != "any" or hi is None or hi > 1: return None
    e = EVERY.get(p)
    if e is None: e = EVERY[p] = Everywhere(p)
    return e if e.facts else None
EVERY = {}
def narrowed(x, lo, hi):
    """the kids of a decision that remain possible for lo <= tested < hi, as (cuts, kids)"""
    _, cuts, kids = x.args
    nc, nk = [], []
    for i, k in enumerate(kids):
        a = cuts[i - 1] if i else None; b = cuts[i] if i < len(cuts) else None
        if b is not None and lo is not None and b <= lo: continue
        if a is not None and hi is not None and a >= hi: continue
        if nk: nc.append(a)
        nk.append(k)
    return nc, nk

def solved(p, v):
    """(atom, value) solving p = v for the largest atom p is linear in, or None"""
    tt = tm._terms(p); best = None
    for m, c in tt.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            if best is None or (m[0][0].size, m[0][0].dig) > (best[0].size, best[0].dig): best = (m[0][0], c)
    if best is None: return None
    at, c = best
    return at, tm.add(tm._mkpoly({m: -k / c for m, k in tt.items() if m != ((at, 1),)}), q(v / c))
def given(p, lo, hi, *ts):
    """the terms with lo <= p < hi assumed"""
    bl, bh = tm.bounds(p)
    if lo is None and bl is not None: lo = bl
    if hi is None and bh is not None: hi = bh + 1
    fix = {}
    if lo is not None and hi is not None and hi == lo + 1:
        fix[p] = q(lo)
        z = p if p.op == "poly" else p.args[0] if p.op == "sgn" and lo == 0 and p.args[0].op == "poly" else None
        if z is not None:
            r = solved(z, lo)
            if r is not None: fix[r[0]] = r[1]
        elif p.op == "len" and lo == 0: fix[p.args[0]] = tm.arr()
    memo = {}
    ev = everywhere(p, hi); evm = {}
    def hit(x):
        if ev is None or x.op != "dec" or x.args[0] is p: return None
        r = evm.get(x.args[0], 0)
        if r == 0: r = evm[x.args[0]] = ev.find(x.args[0])
        return r
    def rep(x):
        e = hit(x)
        if e is not None:
            nc, nk = narrowed(x, *e)
            if len(nk) == 1: return tm.transform(nk[0], rep, skip, memo)
            if nk and len(nk) < len(x.args[2]): return tm.transform(tm.mk("dec", x.args[0], tuple(nc), tuple(nk)), rep, skip, memo)
        if x.op == "dec" and x.args[0] is p:
            _, cuts, kids = x.args
            nc, nk = [], []
            for i, k in enumerate(kids):
                a = cuts[i - 1] if i else None; b = cuts[i] if i < len(cuts) else None
                if b is not None and lo is not None and b <= lo: continue
                if a is not None and hi is not None and a >= hi: continue
                if nk: nc.append(a)
                nk.append(k)
            if len(nk) == 1: return tm.transform(nk[0], rep, skip, memo)
            if len(nk) < len(kids): return tm.transform(tm.mk("dec", p, tuple(nc), tuple(nk)), rep, skip, memo)
        return fix.get(x)
    mem2 = {}
    def mentions(x):
        r = mem2.get(x)
        if r is None:
            r = x is p or x in fix or hit(x) is not None or any(mentions(k) for k in _kids(x))
            mem2[x] = r
        return r
    def skip(x): return not mentions(x)
    return tuple(tm.transform(t, rep, skip, memo) for t in ts)

def under(care, *ts):
    """the terms with everything care fixes substituted: a tested term with a single possible value becomes
    that value, nested decisions on a tested term keep only the possible branches"""
    iv = intervals(care)
    if not iv: return ts
    fix = {p: q(lo) for p, (lo, hi) in iv.items() if lo is not None and hi is not None and hi == lo + 1}
    for p in [p for p in fix if p.op == "len" and fix[p] is ZERO]: fix[p.args[0]] = tm.arr()
    for p in [p for p in fix if p.op == "poly" or p.op == "sgn" and fix[p] is ZERO and p.args[0].op == "poly"]:
        r = solved(p, fix[p].args[0]) if p.op == "poly" else solved(p.args[0], 0)
        if r is not None and r[0] not in fix: fix[r[0]] = r[1]
    if not fix and not iv: return ts
    def rep(x): return fix.get(x)
    memo = {}
    def skip(x): return False
    evs = [e for e in (everywhere(p, hi) for p, (lo, hi) in iv.items()) if e is not None]; evm = {}
    def known(p):
        r = iv.get(p)
        if r is not None or not evs: return r
        if p not in evm: evm[p] = next((f for f in (e.find(p) for e in evs) if f is not None), None)
        return evm[p]
    def restrict(x):
        r = known(x.args[0]) if x.op == "dec" else None
        if r is not None:
            nc, nk = narrowed(x, *r)
            if nk and len(nk) < len(x.args[2]):
                return nk[0] if len(nk) == 1 else tm.mk("dec", x.args[0], tuple(nc), tuple(nk))
        return None
    def rep2(x):
        y = restrict(x)
        if y is not None: return tm.transform(y, rep2, skip, memo)
        return fix.get(x)
    return tuple(tm.transform(t, rep2, skip, memo) for t in ts)

def textish(t):
    return t.op in ("tx", "str", "dsp") or t.op in ("arr", "cat", "dec") and all(textish(k) for k in (t.args if t.op != "dec" else t.args[2]))

COMMON = set()      # loop states met on both sides at the same time: plain values, not unrecognised loops
def plain(t):
    if t.op == "tup": return all(plain(k) for k in t.args)
    return t.op in ("q", "poly", "en", "sgn", "str") or t.op == "dec" and all(plain(k) for k in t.args[2]) or t.op == "st" and all(plain(k) for k in t.args[1])
def skeleton(t):
    if t.op == "tup": return tuple(skeleton(k) for k in t.args)
    if t.op == "st": return t.args[0]
    return "."

def instances(care, v, n):
    """add what a statement about every index below n says about v"""
    if isq(care): return care
    for t in sorted((t for t in subterms([care]) if t.op == "any" and t.args[1] is n), key=lambda t: t.dig)[:4]:
        care = b_and(care, tm.b_or(t, tm.b_not(subst_bv(t.args[2], t.args[0], v))))
    return care
MERGED = {}
def tests(t):
    """the quantified terms that decisions in t test, outside other quantified terms, small ones first"""
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ("any", "first", "sum"):
            if not tm.fbv(x): out.add(x)
            continue
        if x.op in tm.BINDERS: continue
        st.extend(_kids(x))
    return sorted(out, key=lambda x: (x.size, x.dig))
def without(care, *xs):
    """care with nothing said about the terms xs"""
    def drop(t):
        if t.op != "dec": return t
        if any(x is t.args[0] or t.args[0].op == "poly" and x in subterms([t.args[0]]) for x in xs):
            r = ZERO
            for k in t.args[2]: r = b_or(r, drop(k))
            return r
        return tm.sel(t.args[0], t.args[1], tuple(drop(k) for k in t.args[2]))
    return drop(care)
class Cmp:
    def __init__(self): self.memo = {}; self.bad = []; self.steps = 0; self.ctx = set(); self.splits = 0; self.gave_up = False; self.deep = []; self.incase = 0; self.nest = 0
    def same(self, a, b, care, where="", depth=0):
        """True when a and b denote the same value wherever care holds; records the first differences"""
        if a is b or care is ZERO or care is BOT: return True
        k = (a, b, care)
        r = self.memo.get(k)
        if r is not None: return r
        self.memo[k] = True      # coinductive: shared subterms are compared once
        r = self._same(a, b, care, where, depth)
        self.memo[k] = r
        return r
    def settled(self):
        """the component compared last differs, whatever the others do"""
        return not self.gave_up and bool(self.bad) and not unclear(self.bad[-1].a, self.bad[-1].b)
    def miss(self, a, b, care, where):
        if not isq(care) and care.op == "dec":
            if not possible(care): return True
            k2 = with_firsts(care)
            if k2 is not care and not possible(k2): return True
            d = fitting(care, a, b)
            if d:
                a2, b2 = (tm.transform(t, d.get, lambda x: False) for t in (a, b))
                if a2 is not a or b2 is not b: return self.same(a2, b2, care, where)
        if len(self.bad) < 12: self.bad.append(Mismatch(where, a, b, care))
        if len(self.deep) < 40: self.deep.append(Mismatch(where, a, b, care))
        return False
    def _same(self, a, b, care, where, depth):
        self.steps += 1
        if where.endswith("/Err.0") and textish(a) and textish(b): return True     # wording of messages is free
        if a.op == "en" or b.op == "en":
            e = a if a.op == "en" else b
            if a.op != "en": a = tm.expand_en(a, e.args[0]) if a.op != "dec" else a
            if b.op != "en": b = tm.expand_en(b, e.args[0]) if b.op != "dec" else b
            if a.op == "en" and b.op == "en" and a.args[0] == b.args[0]:
                tag, tagb = under(care, a.args[1], b.args[1])
                ok = self.same(tag, tagb, care, where + "/variant", depth + 1)
                if not ok: return False
                pa, pb = dict(a.args[2]), dict(b.args[2])
                names = tm.ENUMS.get(a.args[0])
                for v in sorted(set(pa) | set(pb)):
                    c = b_and(care, eq(tag, q(v)))
                    if c is ZERO: continue
                    if not pa.get(v) and not pb.get(v): continue
                    if v not in pa or v not in pb: return self.miss(a, b, c, where)
                    nm = names[v][0] if names and v < len(names) else str(v)
                    for i, (x, y) in enumerate(zip(pa[v], pb[v])):
                        if not self.same(x, y, c, "%s/%s.%d" % (where, nm, i), depth + 1): ok = False
                return ok
        if a.op == "st" or b.op == "st":
            key = (a if a.op == "st" else b).args[0]
            if a.op not in ("st", "dec") and key in tm.STRUCTS: a = tm.expand_st(a, key)
            if b.op not in ("st", "dec") and key in tm.STRUCTS: b = tm.expand_st(b, key)
            if a.op == "st" and b.op == "st":
                if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]): return self.miss(a, b, care, where)
                ns = tm.STRUCTS.get(key) or range(len(a.args[1]))
                ok = True
                for n, x, y in zip(ns, a.args[1], b.args[1]):
                    if not self.same(x, y, care, "%s.%s" % (where, n), depth + 1):
                        ok = False
                        if self.settled(): break
                return ok
        if a.op == b.op and a.op in ("tup", "arr"):
            if len(a.args) != len(b.args): return self.miss(a, b, care, where)
            ok = True
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if not self.same(x, y, care, "%s.%d" % (where, i), depth + 1):
                    ok = False
                    if self.settled(): break
            return ok
        if a.op == "clo" and b.op == "clo": pass
        if care is not ONE:
            A = ite(care, a, SENT); B = ite(care, b, SENT)
        else: A, B = a, b
        if A is B: return True
        if A.op == "dec" or B.op == "dec":
            # pair up the leaves
            pairs = []
            def leaf(x, y):
                if x is SENT or y is SENT or x is y: return ONE
                t = mk("pair", x, y)
                if t not in pairs: pairs.append(t)
                return t
            P = apply(leaf, A, B)
            if P is ONE: return True
            ok = True
            for t in pairs:
                c = bind(P, lambda l: ONE if l is t else ZERO)
                if c is ZERO: continue
                nb = len(self.bad)
                if not self.leaf(t.args[0], t.args[1], c, where, depth):
                    # decide the remaining cases one by one, everything the case fixes substituted
                    del self.bad[nb:]
                    for k in [k for k, r in self.memo.items() if not r]: del self.memo[k]
                    if not self.cases(a, b, c, where, depth): ok = False
            return ok
        return self.leaf(A, B, care, where, depth)
    def merged(self, a, b, care):
        """quantified tests of one side that are equal, under care, to one of the other side become that one"""
        if self.nest > 2 or isq(care): return a, b, care
        ta, tb = tests(a), tests(b)
        xs = [x for x in ta if x not in tb]; ys = [y for y in tb if y not in ta]
        if not xs or not ys or len(xs) > 6 or len(ys) > 6: return a, b, care
        for x in xs:
            for y in ys:
                if x.op != y.op: continue
                k = (x, y, care)
                r = MERGED.get(k)
                if r is None:
                    c = Cmp(); c.nest = self.nest + 1
                    r = MERGED[k] = c.binder(x, y, without(care, x, y), "", 1) and not c.gave_up
                if r:
                    rep = lambda t: y if t is x else None
                    memo = {}
                    a, care = (tm.transform(t, rep, lambda t: False, memo) for t in (a, care))
                    ys.remove(y); break
        return a, b, care
    def cases(self, a, b, care, where, depth):
        """complete case analysis over the tests in a, b and care (outermost first, nested ones included)"""
        a, b, care = self.merged(a, b, care)
        if a is b or care is ZERO or care is BOT: return True
        st = [(a, b, care, ())]
        while st:
            x, y, c, lits = st.pop()
            if x is y or c is ZERO or c is BOT or x is BOT or y is BOT: continue
            self.splits += 1
            if self.splits > CASES:
                self.gave_up = True
                return self.miss(a, b, care, where)
            v = nested_var(x, y, c)
            if v is None:
                cond = ONE
                for p, lo, hi in reversed(lits):
                    cond = tm.dec(p, tuple(z for z in (lo, hi) if z is not None), {(1, 1): (ZERO, cond, ZERO), (1, 0): (ZERO, cond), (0, 1): (cond, ZERO)}[(lo is not None) + 0, (hi is not None) + 0])
                if not self.leaf(x, y, cond if c is ONE else b_and(cond, c), where, depth): return False
                continue
            p, cuts = v
            bl, bh = tm.bounds(p)
            for i in range(len(cuts) + 1):
                lo = cuts[i - 1] if i else None; hi = cuts[i] if i < len(cuts) else None
                if hi is not None and bl is not None and hi <= bl: continue
                if lo is not None and bh is not None and lo > bh: continue
                if lits and p.op in ("poly", "sgn") and not feasible(lits + ((p, lo, hi),)): continue
                x2, y2, c2 = given(p, lo, hi, x, y, c)
                st.append((x2, y2, c2, lits + ((p, lo, hi),)))
        return True
    def leaf(self, a, b, care, where, depth):
        if a is b or a is SENT or b is SENT: return True
        if depth > 60: return self.miss(a, b, care, where)
        if not isq(care) and (a, b, care) not in self.ctx:
            self.ctx.add((a, b, care))
            x, y = under(care, a, b)
            if x is not a or y is not b:
                self.ctx.add((x, y, care))
                return self.same(x, y, care, where, depth + 1)
        if a.op in ("en", "st") or b.op in ("en", "st") or a.op == b.op and a.op in ("tup", "arr"):
            if a.op == b.op or a.op not in ("q", "poly") and b.op not in ("q", "poly"): return self.same(a, b, care, where, depth + 1)
        if a.op == b.op and len(a.args) == len(b.args):
            o = a.op
            if o in ("flat", "sum", "any", "first", "lam"):
                return self.binder(a, b, care, where, depth)
            if o in ("fold", "updall"):
                if o == "fold" and skeleton(a.args[2]) != skeleton(b.args[2]): return self.miss(a, b, care, where)     # another choice of loop state
                ok = self.same(a.args[1], b.args[1], care, where + "/count", depth + 1)
                ok = ok and self.same(a.args[2], b.args[2], care, where + "/start", depth + 1)
                if not ok: return False
                v = fresh(); w = fresh("mu") if o == "fold" else fresh()
                if o == "fold":
                    tm._flagcopy(w, a)
                    if plain(a.args[2]): COMMON.add(w)
                tm._depth[0] += 1
                try:
                    x = tm.subst_bvs(a.args[3], {a.args[0] - 1: v, a.args[0]: w}); y = tm.subst_bvs(b.args[3], {b.args[0] - 1: v, b.args[0]: w})
                    return self.same(x, y, instances(b_and(care, tm.lt(v, a.args[1])), v, a.args[1]), where + "/step", depth + 1)
                finally: tm._depth[0] -= 1
            if o == "poly": return self.poly(a, b, care, where, depth)
            if o == "param" or o == "q" or o == "str" or o == "tx": return self.miss(a, b, care, where)
            if o not in ("dec", "fv", "bv", "mu", "clo"):
                ok = True; nb = len(self.bad)
                for i, (x, y) in enumerate(zip(a.args, b.args)):
                    if not self.arg(x, y, care, "%s/%s%s" % (where, o, "(" + str(a.args[0]) + ")" if o in ("call", "out") and isinstance(a.args[0], str) else ""), depth + 1):
                        ok = False
                if not ok and len(self.bad) == nb: self.miss(a, b, care, where)
                return ok
        if (a.op == "upd") != (b.op == "upd"):
            u, w = (a, b) if a.op == "upd" else (b, a)
            if u.args[0] is w and isinstance(u.args[1], T) and isinstance(u.args[2], T):
                y = tm.idx(w, u.args[1])
                return self.same(u.args[2], y, care, where + "/item", depth + 1) if a is u else self.same(y, u.args[2], care, where + "/item", depth + 1)
        if a.op == "poly" or b.op == "poly": return self.poly(a, b, care, where, depth)
        return self.miss(a, b, care, where)
    def binder(self, a, b, care, where, depth):
        """two terms of the same kind over an index: equal counts, and equal bodies at every index"""
        n, m = a.args[1], b.args[1]
        if not self.same(n, m, care, where + "/count", depth + 1): return False
        v = fresh()
        tm._depth[0] += 1
        try:
            x = subst_bv(a.args[2], a.args[0], v); y = subst_bv(b.args[2], b.args[0], v)
            c = instances(b_and(care, tm.lt(v, n) if a.op != "lam" else ONE), v, n)
            return self.same(x, y, c, where + "/each", depth + 1)
        finally: tm._depth[0] -= 1
    def localised(self, new=()):
        """after a case analysis that was given up: the innermost differences it started from, each decided on its own by a
        complete case analysis of the two values that differ under the condition they were met in"""
        for m in self.deep:
            if unclear(m.a, m.b) or (ops(m.a) | ops(m.b)) & set(new): continue
            if m.a.op == "pair" or m.b.op == "pair": continue
            c = Cmp()
            try: r = c.cases(m.a, m.b, m.cond, m.where, 1)
            except tm.TooBig: continue
            if not r and not c.gave_up and c.bad: return c.bad[0]
        return None
    def poly(self, a, b, care, where, depth):
        """equal coefficients and pairwise equal atoms"""
        ta, tb = tm._terms(a), tm._terms(b)
        ra = {m: c for m, c in ta.items() if tb.get(m) != c}
        rb = {m: c for m, c in tb.items() if ta.get(m) != c}
        if len(ra) != len(rb) or len(ra) > 4: return self.miss(a, b, care, where)
        used = set()
        for m, c in ra.items():
            hit = False
            for n, d in rb.items():
                if n in used or c != d or len(m) != len(n): continue
                sub = Cmp()
                if all(e == f and sub.same(x, y, care, where, depth + 1) for (x, e), (y, f) in zip(m, n)):
                    used.add(n); hit = True; break
            if not hit: return self.miss(a, b, care, where)
        return True
    def arg(self, x, y, care, where, depth):
        if isinstance(x, T) and isinstance(y, T): return self.same(x, y, care, where, depth)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all([self.arg(p, r, care, "%s.%d" % (where, i), depth) for i, (p, r) in enumerate(zip(x, y))])
        return x == y


# ---------------------------------------------------------------- one local difference
def subterms(ts):
    seen = set(); st = list(ts)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(_kids(x))
    return seen

def raw_replace(t, d):
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x in d: return d[x]
        r = memo.get(x)
        if r is None:
            a = tuple(go(y) for y in x.args)
            r = x if a == x.args else tm._flagcopy(mk(x.op, *a), x)
            memo[x] = r
        return r
    return go(t)

def new_terms(A, B):
    """innermost subterms of A that B does not have, and of B that A does not have"""
    sa, sb = subterms(A), subterms(B)
    key = lambda t: (t.size, t.dig)
    return (sorted((x for x in sa - sb if all(k in sb for k in _kids(x))), key=key),
            sorted((y for y in sb - sa if all(k in sa for k in _kids(y))), key=key))

def renormal(t, memo):
    tm.FORCE[0] = True
    try: return tm.transform(t, lambda x: None, lambda x: False, memo)
    finally: tm.FORCE[0] = False

def pinpoint(A, B, limit=36):
    """A, B: lists of values.  Looks for subterms x of A and y of B, free of uninterpreted loops (or with the same ones
    inside), such that A with x replaced by y is B: then the two sides are one and the same function of x and of y,
    which differ.  A replacement may have to be repeated where x occurs inside the terms it is tested in."""
    import itertools
    alike = lambda x, y: x.op == y.op or "dec" in (x.op, y.op) or {x.op, y.op} <= {"poly", "idx", "fld", "q", "len", "call", "out", "bv", "param", "sum", "vf"}
    ok = lambda x, y: weak_parts(x) == weak_parts(y)
    def score(x, y):
        kx, ky = set(_kids(x)), set(_kids(y))
        return (x.op == y.op) * 10 + 5 * len(kx & ky) / max(1, len(kx | ky))
    def sub(A, d):
        memo = {}
        return [r if r is b or r is a else renormal(r, memo) for a, b, r in ((a, b, raw_replace(a, d)) for a, b in zip(A, B))]
    def greedy(da, db):
        rest = list(db); d = {}
        for x in da:
            y = max(rest, key=lambda y: (score(x, y), y.dig)); rest.remove(y); d[x] = y
        return d
    first = None; cur = list(A)
    for rnd in range(5):
        da, db = new_terms(cur, B)
        if not da or not db or len(da) > 12 or len(db) > 12: return None
        if len(da) != len(db): break
        d = greedy(da, db)
        if not all(ok(x, y) and (x.op == y.op or rnd == 0 and alike(x, y)) for x, y in d.items()): break
        if first is None: first = next(iter(d.items()))
        nxt = sub(cur, d)
        if all(x is y for x, y in zip(nxt, B)): return first
        if nxt == cur: break
        cur = nxt
    da, db = new_terms(A, B)
    if len(da) * len(db) > limit: return None
    for x in da:
        for y in db:
            if alike(x, y) and ok(x, y) and all(p is b for p, b in zip(sub(A, {x: y}), B)): return x, y
    return None

def closed_pair(A, B, limit=16):
    """closed terms x of A and y of B such that A with x replaced by y is B"""
    sa, sb = subterms(A), subterms(B)
    def pick(n):
        c = {t for t in n if t.op in tm.BINDERS or t.op == "insall" if not t.fv and not tm.fbv(t)}
        def has(t, memo):
            if t in memo: return memo[t]
            memo[t] = r = any(k in c or k in n and has(k, memo) for k in _kids(t))
            return r
        memo = {}
        return sorted((t for t in c if not has(t, memo)), key=lambda t: (t.size, t.dig))
    da, db = pick(sa - sb), pick(sb - sa)
    if len(da) * len(db) > limit: return
    for x in da:
        for y in db:
            memo = {}
            def equal(p, b):
                if p is b: return True
                p = renormal(p, memo); c = Cmp()
                return p is b or c.same(p, b, ONE) and not c.gave_up
            if all(equal(raw_replace(a, {x: y}), b) for a, b in zip(A, B)): yield x, y

def congruent(A, B, rounds=4, limit=24):
    """A with every closed indexed term (array, sum, quantified test, function) that is equal, unconditionally, to one
    B has in another form replaced by that one; None when there is none"""
    changed = False
    for _ in range(rounds):
        sa, sb = subterms(A), subterms(B)
        pick = lambda s: sorted((t for t in s if t.op in tm.BINDERS and t.size < 20000 and not t.fv and not tm.fbv(t)), key=lambda t: (t.size, t.dig))
        da, db = pick(sa - sb), pick(sb - sa)
        if not da or not db or len(da) > limit or len(db) > limit: break
        d = {}
        for x in da:
            if any(k in d for k in subterms([x])): continue        # its parts are replaced first
            for y in db:
                if x.op != y.op or x.size > 4 * y.size or y.size > 4 * x.size: continue
                k = (x, y, ONE)
                r = MERGED.get(k)
                if r is None:
                    c = Cmp(); c.nest = 1
                    r = MERGED[k] = c.same(x, y, ONE) and not c.gave_up
                if r: d[x] = y; break
        if not d: break
        memo = {}; changed = True
        A = [renormal(raw_replace(a, d), memo) for a in A]
    return A if changed else None

_weak = {}
def weak_parts(t):
    """the largest subterms that stand for unrecognised loops or uninterpreted values"""
    r = _weak.get(t)
    if r is None:
        if t.op in WEAK and t not in COMMON or t.op == "clo": r = frozenset((t,))
        else:
            r = frozenset()
            for k in _kids(t): r = r | weak_parts(k)
        _weak[t] = r
    return r
def unclear(a, b):
    """the difference of a and b may be one of form only"""
    return weak_parts(a) != weak_parts(b)
