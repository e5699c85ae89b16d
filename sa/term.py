"""Hash-consed value-graph terms.

Every value of the analysed program is a node `T(op, args)`; nodes are interned, so equal
normal forms are the same object.  Three families have an algebra of their own:

* numbers   - polynomials with rational coefficients over opaque atoms (integer exponents,
              negative ones for division), so re-association, distribution, `x/2` vs `0.5*x`,
              `i+1-1` ... all meet in one form;
* decisions - ordered multi-way decision nodes `dec(p, cuts, kids)` over integer-valued terms
              `p` (kid k is taken when cuts[k-1] <= p < cuts[k]); ordered and reduced, so an
              if/else chain, a match, swapped branches, nested `&&` ... meet in one form;
* sequences - `arr` (explicit), `cat`, `flat(n, body)` (concatenation of body(i), i in 0..n);
              every iterator chain and every recognised loop is brought to this form.

Conditional products (structs, tuples, enums as tag+payload) are pushed to their fields.
`BOT` is "cannot happen / no value" and is absorbed by decisions.
"""
from fractions import Fraction
from hashlib import blake2b

class T:
    __slots__ = ("op", "args", "dig", "lvl", "size", "fv", "__weakref__")
    def __repr__(self): return show(self, 6)

_tab = {}
_EMPTY = frozenset()

def _dg(a):
    if isinstance(a, T): return a.dig
    if isinstance(a, tuple):
        h = blake2b(digest_size=12); h.update(b"(")
        for x in a: h.update(_dg(x))
        return h.digest()
    return blake2b(repr(a).encode(), digest_size=12).digest()

def _walk(a, out):
    if isinstance(a, T): out.append(a)
    elif isinstance(a, tuple):
        for x in a: _walk(x, out)

def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is not None: return t
    t = T(); t.op = op; t.args = args
    h = blake2b(op.encode() if isinstance(op, str) else repr(op).encode(), digest_size=12)
    subs = []
    for a in args:
        h.update(_dg(a)); _walk(a, subs)
    t.dig = h.digest()
    # decision level: terms that mention inner bound variables are tested after outer ones
    l = 0; s = 1; fv = _EMPTY
    for x in subs:
        if x.lvl > l: l = x.lvl
        s += x.size
        if x.fv and x.fv is not fv: fv = fv | x.fv
    if op == "fv":            # free (still open) bound variable: args=(depth, uid)
        l = args[0]; fv = frozenset((t,))
    elif op == "bv":          # closed bound variable (height index)
        l = 10000 - args[0]
    elif op == "mu":
        l = args[0]; fv = frozenset((t,))
    elif op in ("flat", "sum", "any", "first", "fold", "loop", "insall", "lam"):
        pass
    t.lvl = l; t.size = min(s, 10**9); t.fv = fv
    _tab[k] = t
    return t

BOT = mk("BOT")
UNIT = mk("tup")

# ------------------------------------------------------------------ numbers
def q(x):
    return mk("q", Fraction(x))
ZERO, ONE = q(0), q(1)
def isq(t): return t.op == "q"
def qv(t): return t.args[0]

def _terms(t):
    """dict mono -> coef"""
    if t.op == "q": return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly": return dict(t.args[0])
    return {((t, 1),): Fraction(1)}

def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return q(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda kv: _dg(kv[0]))))

def _mm(a, b):
    d = {}
    for x, e in a: d[x] = d.get(x, 0) + e
    for x, e in b: d[x] = d.get(x, 0) + e
    out = []; c = Fraction(1)
    for x, e in d.items():
        if e == 0: continue
        if x.op == "sqrt" and isinstance(e, int) and (e >= 2 or e <= -2):
            pass
        out.append((x, e))
    return tuple(sorted(out, key=lambda xe: (xe[0].dig, xe[1])))

NUMBAD = {"dec", "st", "tup", "arr", "en", "BOT", "cat", "flat"}
def add(a, b):
    d = _terms(a)
    for m, c in _terms(b).items(): d[m] = d.get(m, 0) + c
    return _mkpoly(d)
def neg(a): return _mkpoly({m: -c for m, c in _terms(a).items()})
def sub(a, b): return add(a, neg(b))
def scale(a, f): return _mkpoly({m: c * f for m, c in _terms(a).items()})
def mul(a, b):
    ta, tb = _terms(a), _terms(b)
    if len(ta) * len(tb) > 4000: return mk("mulbig", *sorted((a, b), key=lambda t: t.dig))
    d = {}
    resq = []
    for m, c in ta.items():
        for n, e in tb.items():
            k = _mm(m, n)
            sq = [x for x in k if x[0].op == "sqrt" and abs(x[1]) >= 2]
            if sq: resq.append((k, c * e))
            else: d[k] = d.get(k, 0) + c * e
    r = _mkpoly(d)
    for k, c in resq:
        p = q(c); rest = []
        for x, e in k:
            if x.op == "sqrt" and abs(e) >= 2:
                h = abs(e) // 2 if e > 0 else -(abs(e) // 2)
                p = mul(p, ipow(x.args[0], h)); e -= 2 * h
            if e: rest.append((x, e))
        r = add(r, mul(p, _mkpoly({tuple(rest): Fraction(1)})))
    return r
def inv(a):
    ta = _terms(a)
    if len(ta) == 1:
        (m, c), = ta.items()
        return _mkpoly({tuple(sorted(((x, -e) for x, e in m), key=lambda xe: (xe[0].dig, xe[1]))): 1 / c})
    if not ta: return mk("inf")
    # factor out common monomial and leading coefficient
    items = sorted(ta.items(), key=lambda kv: _dg(kv[0]))
    common = dict(items[0][0])
    for m, _ in items[1:]:
        dm = dict(m)
        for x in list(common):
            e = min(common[x], dm.get(x, 0)) if common[x] > 0 else (common[x] if dm.get(x, 0) == common[x] else 0)
            if x not in dm: e = 0
            if e == 0: common.pop(x)
            else: common[x] = e
    cm = tuple(sorted(((x, -e) for x, e in common.items()), key=lambda xe: (xe[0].dig, xe[1])))
    lc = items[0][1]
    red = {}
    for m, c in items: red[_mm(m, cm)] = c / lc
    base = _mkpoly(red)
    r = mk("inv", base)
    return mul(_mkpoly({cm: 1 / lc}), r)
def ipow(a, n):
    if n == 0: return ONE
    if n < 0: return ipow(inv(a), -n)
    r = ONE; b = a
    while n:
        if n & 1: r = mul(r, b)
        b = mul(b, b); n >>= 1
    return r
def div(a, b):
    if isq(b) and qv(b) == 0: return mk("fdiv", a, b)
    if b.op == "inv": return mul(a, b.args[0])
    # exact quotient of proportional polynomials
    ta, tb = _terms(a), _terms(b)
    if len(tb) > 1 and set(ta) == set(tb):
        rs = {ta[k] / tb[k] for k in ta}
        if len(rs) == 1: return q(rs.pop())
    r = mul(a, inv(b))
    return r

def split_const(p):
    t = _terms(p); c = t.pop((), Fraction(0))
    return t, c

# ------------------------------------------------------------------ decisions
BOOLOPS = {"any", "has", "bcall", "strin", "feq", "opq_bool"}
UNSIGNED = set()          # atoms known to be non-negative integers
TAGN = {}                 # discr term -> number of variants
FLAGS = set()             # atoms known to be booleans

def bounds(p):
    if p.op in BOOLOPS or p in FLAGS: return 0, 1
    if p.op == "sgn": return -1, 1
    if p.op == "discr": return 0, (TAGN[p] - 1 if p in TAGN else None)
    if p.op in ("len", "fv", "bv", "first", "cast_u") or p in UNSIGNED: return 0, None
    if p.op == "poly":
        lo = 0
        for m, c in p.args[0]:
            if c < 0 or any(bounds(x)[0] is None or bounds(x)[0] < 0 or e < 0 for x, e in m): return None, None
        return 0, None
    return None, None

def _okey(p): return (p.lvl, 0 if p.op == "discr" else 1, p.size, p.dig)

def dec(p, cuts, kids):
    """reduced node; merges equal neighbours and absorbs BOT"""
    lo, hi = bounds(p)
    nc, nk = [], []
    for i, k in enumerate(kids):
        a = cuts[i - 1] if i else None
        b = cuts[i] if i < len(cuts) else None
        if b is not None and lo is not None and b <= lo: continue
        if a is not None and hi is not None and a > hi: continue
        if nk and nk[-1] is k: continue
        if nk: nc.append(a)
        nk.append(k)
    if len(nk) == 2 and p.op == "len" and nc[0] == 1:
        # storing an empty sequence where the sequence is empty already
        x, y = nk
        if x.op == "upd" and x.args[0] is y and isinstance(x.args[2], T) and x.args[2].op == "arr" and not x.args[2].args and idx(y, x.args[1]) is p.args[0]: return y
    # absorb BOT
    if any(k is BOT for k in nk) and len(nk) > 1:
        real = [k for k in nk if k is not BOT]
        if not real: return BOT
        if all(k is real[0] for k in real): return real[0]
        c2, k2 = [], []
        pend = None
        for i, k in enumerate(nk):
            a = nc[i - 1] if i else None
            if k is BOT: continue
            if k2 and k2[-1] is k: continue
            if k2: c2.append(a)
            k2.append(k)
        nc, nk = c2, k2
    if len(nk) == 1: return nk[0]
    return mk("dec", p, tuple(nc), tuple(nk))

def isdec(t): return t.op == "dec"

def cof(t, p, lo, hi):
    """cofactor of t for lo <= p < hi when t's root tests p"""
    if t.op == "dec" and t.args[0] is p:
        _, cuts, kids = t.args
        i = 0
        while i < len(cuts) and lo is not None and cuts[i] <= lo: i += 1
        return kids[i]
    return t

class TooBig(Exception): pass
_budget = [0]
APPLY_LIMIT = 60000

def apply(f, *args, memo=None):
    """lift f over decisions in its arguments"""
    if memo is None: memo = {}
    if any(a is BOT for a in args): return BOT
    ds = [a for a in args if a.op == "dec"]
    if not ds: return f(*args)
    r = memo.get(args)
    if r is not None: return r
    if len(memo) > APPLY_LIMIT: raise TooBig()
    p = min((d.args[0] for d in ds), key=_okey)
    cuts = sorted({c for d in ds if d.args[0] is p for c in d.args[1]})
    kids = []
    for i in range(len(cuts) + 1):
        lo = cuts[i - 1] if i else None
        hi = cuts[i] if i < len(cuts) else None
        kids.append(apply(f, *[cof(a, p, lo, hi) for a in args], memo=memo))
    r = join(p, tuple(cuts), tuple(kids))
    memo[args] = r
    return r

def lift1(f):
    return lambda *a: apply(f, *a)

# products are pushed below decisions ---------------------------------------------------
def shape(t):
    o = t.op
    if o == "st": return ("st", t.args[0], len(t.args[1]))
    if o == "tup": return ("tup", len(t.args))
    if o == "arr": return ("arr", len(t.args))
    if o == "clo": return ("clo", t.args[0], len(t.args[1]))
    if o == "en": return ("en", t.args[0])
    return None

def join(p, cuts, kids):
    """decision over arbitrary values: products are merged field by field"""
    real = [k for k in kids if k is not BOT]
    if not real: return BOT
    if all(k is real[0] for k in real): return real[0]
    sh = [shape(k) for k in real]
    # opaque enum next to an explicit one
    if any(s and s[0] == "en" for s in sh) and all((s and s[0] == "en") or (s is None and (k.op != "dec" or _enish(k))) for s, k in zip(sh, real)):
        en = next(k for k in real if k.op == "en")
        ks = [k if k is BOT or k.op == "en" else expand_en(k, en.args[0]) for k in kids]
        if all(k is BOT or k.op == "en" for k in ks): kids = ks; real = [k for k in kids if k is not BOT]; sh = [shape(k) for k in real]
    if sh[0] and sh[0][0] in ("st",) or any(s and s[0] == "st" for s in sh):
        st = next((k for k in real if k.op == "st"), None)
        if st is not None and all(s is None or s[0] == "st" for s in sh) and st.args[0] in STRUCTS:
            kids = tuple(k if k is BOT or k.op == "st" else expand_st(k, st.args[0]) for k in kids)
            real = [k for k in kids if k is not BOT]; sh = [shape(k) for k in real]
    if any(s and s[0] in ("tup", "arr") for s in sh) and not all(sh):
        pr = next(k for k in real if k.op in ("tup", "arr"))
        n = len(pr.args)
        if pr.op == "tup" and all(s is None or s == ("tup", n) for s in sh) and all(k.op != "dec" for k in real):
            kids = tuple(k if k is BOT or k.op == "tup" else mk("tup", *[fld(k, i) for i in range(n)]) for k in kids)
            real = [k for k in kids if k is not BOT]; sh = [shape(k) for k in real]
    if sh[0] and all(s == sh[0] for s in sh):
        k0 = sh[0][0]
        if k0 == "st":
            return mk_st(real[0].args[0], tuple(join(p, cuts, tuple(BOT if k is BOT else k.args[1][i] for k in kids)) for i in range(sh[0][2])))
        if k0 in ("tup", "arr"):
            return mk_tuparr(k0, [join(p, cuts, tuple(BOT if k is BOT else k.args[i] for k in kids)) for i in range(sh[0][1])])
        if k0 == "clo":
            return mk("clo", real[0].args[0], tuple(join(p, cuts, tuple(BOT if k is BOT else k.args[1][i] for k in kids)) for i in range(sh[0][2])))
        if k0 == "en":
            vs = sorted({v for k in real for v, _ in k.args[2]})
            pay = []
            for v in vs:
                rows = [BOT if k is BOT else dict(k.args[2]).get(v) for k in kids]
                n = next(len(r) for r in rows if r is not None and r is not BOT)
                pay.append((v, tuple(join(p, cuts, tuple(BOT if r is None or r is BOT else r[i] for r in rows)) for i in range(n))))
            tag = dec2(p, cuts, tuple(BOT if k is BOT else k.args[1] for k in kids))
            return mk_en(real[0].args[0], tag, tuple(pay))
    # sequences: factor the common prefix
    if all(is_seq(k) for k in real) and any(k.op in ("cat", "arr", "flat") for k in real):
        parts = [seq_parts(k) for k in real]
        n = 0
        while all(len(ps) > n for ps in parts) and all(ps[n] is parts[0][n] for ps in parts): n += 1
        if n:
            it = iter(parts)
            rest = tuple(BOT if k is BOT else cat(*next(it)[n:]) for k in kids)
            return cat(*parts[0][:n], dec2(p, cuts, rest))
    return dec2(p, cuts, kids)

def dec2(p, cuts, kids):
    """dec, re-established order when kids test earlier variables"""
    if all(k.op != "dec" or _okey(k.args[0]) > _okey(p) for k in kids):
        return dec(p, cuts, kids)
    return _reorder(p, cuts, kids, {})

def _reorder(p, cuts, kids, memo):
    if kids in memo: return memo[kids]
    if len(memo) > APPLY_LIMIT: raise TooBig()
    top = min([k.args[0] for k in kids if k.op == "dec"] + [p], key=_okey)
    if top is p:
        ks = [];
        if any(k.op == "dec" and k.args[0] is p for k in kids):
            cc = sorted(set(cuts) | {c for k in kids if k.op == "dec" and k.args[0] is p for c in k.args[1]})
            for i in range(len(cc) + 1):
                lo = cc[i - 1] if i else None; hi = cc[i] if i < len(cc) else None
                j = 0
                while j < len(cuts) and lo is not None and cuts[j] <= lo: j += 1
                ks.append(cof(kids[j], p, lo, hi))
            r = dec(p, tuple(cc), tuple(ks))
        else: r = dec(p, cuts, kids)
    else:
        cc = sorted({c for k in kids if k.op == "dec" and k.args[0] is top for c in k.args[1]})
        ks = []
        for i in range(len(cc) + 1):
            lo = cc[i - 1] if i else None; hi = cc[i] if i < len(cc) else None
            ks.append(_reorder(p, cuts, tuple(cof(k, top, lo, hi) for k in kids), memo))
        r = join(top, tuple(cc), tuple(ks))
    memo[kids] = r
    return r

def _enish(k):
    if k.op == "dec": return all(x is BOT or _enish(x) for x in k.args[2])
    return k.op == "en"

def bind(c, f, memo=None):
    """replace each leaf l of the decision c by f(l)"""
    if memo is None: memo = {}
    if c in memo: return memo[c]
    if c.op != "dec": r = f(c)
    else: r = sel(c.args[0], c.args[1], tuple(bind(k, f, memo) for k in c.args[2]))
    memo[c] = r
    return r

def sel(p, cuts, kids):
    """decision on p over arbitrary (possibly decision-valued, product-valued) kids"""
    return join_any(p, cuts, kids)

def join_any(p, cuts, kids):
    real = [k for k in kids if k is not BOT]
    if not real: return BOT
    if all(k is real[0] for k in real): return real[0]
    sh = [shape(k) for k in real]
    if all(sh) or any(sh) and not any(k.op == "dec" for k in real):
        return join(p, cuts, kids)
    if all(is_seq(k) for k in real): return join(p, cuts, kids)
    return dec2(p, cuts, kids)

def ite(c, a, b):
    """c: boolean decision (leaves q 0/1)"""
    if c is ONE: return a
    if c is ZERO: return b
    if a is b: return a
    return bind(c, lambda l: BOT if l is BOT else (a if _true(l) else b))
def _true(l):
    if isq(l): return qv(l) != 0
    raise ValueError("non boolean leaf %r" % l)

def tb(x):
    """boolean term -> decision with constant leaves"""
    def leaf(l):
        if isq(l) or l is BOT: return l
        FLAGS.add(l)
        return dec(l, (1,), (ZERO, ONE))
    return bind(x, leaf)
def b_not(a): return bind(tb(a), lambda l: l if l is BOT else (ZERO if _true(l) else ONE))
def b_and(a, b): return ite(tb(a), tb(b), ZERO)
def b_or(a, b): return ite(tb(a), ONE, tb(b))

def _lt_leaf(a, b, isfloat):
    d = sub(a, b)
    return ltz(d, isfloat)
def ltz(d, isfloat):
    """d < 0"""
    if isq(d): return ONE if qv(d) < 0 else ZERO
    if isfloat:
        s, flip = sgn(d)
        return dec(s, (0,), (ONE, ZERO)) if not flip else dec(s, (1,), (ZERO, ONE))
    t, c = split_const(d)
    p, f = normsign(t)
    # f*p + c < 0
    import math
    if f > 0:       # p < -c/f  -> p < ceil(-c/f)
        k = math.ceil(-c / f); return dec(p, (k,), (ONE, ZERO))
    k = math.floor(-c / f) + 1     # p > -c/f
    return dec(p, (k,), (ZERO, ONE))
def normsign(t):
    """terms dict -> (poly with coprime integer-ish coefficients, leading positive), factor"""
    items = sorted(t.items(), key=lambda kv: _dg(kv[0]))
    import math
    g = None; l = 1
    for _, c in items: l = l * c.denominator // math.gcd(l, c.denominator)
    for _, c in items:
        v = abs(int(c * l)); g = v if g is None else math.gcd(g, v)
    f = Fraction(g, l)
    # prefer the orientation in which most coefficients are positive; ties by leading term
    pos = sum(1 for _, c in items if c > 0); ng = len(items) - pos
    if ng > pos or (ng == pos and items[0][1] < 0): f = -f
    return _mkpoly({m: c / f for m, c in t.items()}), f
def sgn(d):
    items = sorted(_terms(d).items(), key=lambda kv: _dg(kv[0]))
    lead = next((c for m, c in items if m != ()), Fraction(1))
    f = abs(lead); flip = lead < 0
    p = scale(d, 1 / (-f if flip else f))
    return mk("sgn", p), flip
def lt(a, b, isfloat=False): return apply(lambda x, y: _lt_leaf(x, y, isfloat), a, b)
def le(a, b, isfloat=False): return b_not(lt(b, a, isfloat))
def eqz(d, isfloat):
    if isq(d): return ONE if qv(d) == 0 else ZERO
    if isfloat:
        s, _ = sgn(d)
        return dec(s, (0, 1), (ZERO, ONE, ZERO))
    t, c = split_const(d)
    p, f = normsign(t)
    k = -c / f
    if k.denominator != 1: return ZERO
    k = int(k)
    return dec(p, (k, k + 1), (ZERO, ONE, ZERO))
def numlike(t): return t.op not in ("st", "tup", "arr", "en", "cat", "flat", "str", "tx", "ref", "clo")
def eq_leaf(a, b, isfloat=False):
    if a is b: return ONE
    if a.op == "fld" and b.op == "fld" and a.args[1] == 0 == b.args[1]:
        x, y = a.args[0], b.args[0]
        if x.op == "idx" and y.op == "idx" and x.args[0] is y.args[0] and x.args[0].op == "entries":
            return eq(x.args[1], y.args[1])           # the keys of a map are distinct
    if numlike(a) and numlike(b):
        if not isfloat and a.op != "q" and b.op != "q":
            for x in (a, b):
                ty = TY.get(x)
                if ty is not None and ty["k"] == "adt":
                    k = ty["key"] if ty["key"] in ENUMS else short(ty["key"])
                    if k in ENUMS: return values_eq(expand_en(a, k), expand_en(b, k))
                    k = ty["key"] if ty["key"] in STRUCTS else short(ty["key"])
                    if k in STRUCTS: return values_eq(expand_st(a, k), expand_st(b, k))
        if not isfloat and a.op != "q" and b.op != "q":
            la, ha = bounds(a); lb, hb = bounds(b)
            if la is not None and ha is not None and lb is not None and hb is not None and ha - la <= 8:
                # two small enumerations: compare case by case
                if _okey(b) < _okey(a): a, b = b, a; la, ha = lb, hb
                return dec(a, tuple(range(la + 1, ha + 1)), tuple(eqz(sub(q(k), b), False) for k in range(la, ha + 1)))
        return eqz(sub(a, b), isfloat)
    return values_eq(a, b)
def values_eq(a, b):
    if a is b: return ONE
    sa, sb = shape(a), shape(b)
    if sa and sb and sa[0] == sb[0]:
        if sa[0] == "st":
            if sa != sb: return ZERO
            r = ONE
            for x, y in zip(a.args[1], b.args[1]): r = b_and(r, eq(x, y))
            return r
        if sa[0] == "arr" and (texty(a) or texty(b)):
            if all(x.op == "tx" for x in a.args + b.args):
                return ONE if "".join(x.args[0] for x in a.args) == "".join(x.args[0] for x in b.args) else ZERO
            x, y = sorted((a, b), key=lambda t: t.dig)
            return tb(mk("feq", x, y))
        if sa[0] in ("tup", "arr"):
            if sa != sb: return ZERO
            r = ONE
            for x, y in zip(a.args, b.args): r = b_and(r, eq(x, y))
            return r
        if sa[0] == "en":
            r = eq(a.args[1], b.args[1])
            pb = dict(b.args[2])
            for v, fs in a.args[2]:
                if v in pb:
                    e = ONE
                    for x, y in zip(fs, pb[v]): e = b_and(e, eq(x, y))
                    r = b_and(r, b_or(b_not(eq(a.args[1], q(v))), e))
            return r
    if sa and not sb and b.op != "dec":
        b2 = expand_like(b, a)
        if b2 is not None: return values_eq(a, b2)
    if sb and not sa and a.op != "dec":
        a2 = expand_like(a, b)
        if a2 is not None: return values_eq(a2, b)
    if a.op in ("str", "tx") and b.op == a.op: return ZERO
    x, y = sorted((a, b), key=lambda t: t.dig)
    return tb(mk("feq", x, y))
def expand_like(x, y):
    if y.op == "st": return expand_st(x, y.args[0]) if y.args[0] in STRUCTS else None
    if y.op == "tup": return mk("tup", *[fld(x, i) for i in range(len(y.args))])
    if y.op == "arr": return mk("arr", *[idx(x, q(i)) for i in range(len(y.args))])
    if y.op == "en": return expand_en(x, y.args[0])
    return None
def eq(a, b, isfloat=False):
    if a is b: return ONE
    return apply(lambda x, y: eq_leaf(x, y, isfloat), a, b)

# ------------------------------------------------------------------ types of atoms
TY = {}            # atom -> type json (only for opaque values)
ADTS = {}          # adt key -> adt json
UNSIGNED_TYS = {"usize", "u8", "u16", "u32", "u64", "u128"}
def short(key): return key.split("::")[-1]
def peel(ty):
    while ty is not None:
        if ty["k"] == "ref": ty = ty["to"]
        elif ty["k"] == "adt" and short(ty["key"]) in ("Box", "Arc", "Rc") and ty["args"]: ty = ty["args"][0]
        else: break
    return ty
def typed(t, ty):
    """record the type of an opaque value (no-op on structured values)"""
    if ty is None or t in TY: return t
    if t.op in ("q", "poly", "st", "tup", "arr", "en", "cat", "flat", "BOT", "clo", "ref", "inv", "iter"): return t
    if t.op == "dec": return t
    ty = peel(ty)
    k = ty["k"]
    if k == "prim":
        if ty["s"] in UNSIGNED_TYS: UNSIGNED.add(t)
        elif ty["s"] == "bool": FLAGS.add(t)
        elif ty["s"] in ("str",): SEQATOMS.add(t)
        TY[t] = ty
    elif k == "array":
        SEQATOMS.add(t)
        if ty["len"] is not None: ARRN[t] = ty["len"]
        TY[t] = ty
    elif k == "slice": SEQATOMS.add(t); TY[t] = ty
    elif k == "tuple": TUPN[t] = len(ty["of"]); TY[t] = ty
    elif k == "adt":
        if short(ty["key"]) in ("Vec", "SmallVec", "String"): SEQATOMS.add(t)
        TY[t] = ty
    return t
def elem_type(ty):
    if ty is None: return None
    if ty["k"] in ("array", "slice"): return ty["of"]
    if ty["k"] == "adt":
        n = short(ty["key"])
        if n == "Vec": return ty["args"][0] if ty["args"] else None
        if n == "SmallVec": return elem_type(ty["args"][0]) if ty["args"] else None
    return None
def field_type(ty, name):
    if ty is None: return None
    if ty["k"] == "tuple": return ty["of"][name] if isinstance(name, int) and name < len(ty["of"]) else None
    if ty["k"] == "adt":
        a = ADTS.get(ty["key"])
        if a and not a["enum"]:
            for f in a["variants"][0]["fields"]:
                if f[0] == str(name): return f[1]
    return None
def vfield_type(ty, v, j):
    if ty is None or ty["k"] != "adt": return None
    n = short(ty["key"])
    if n == "Option": return ty["args"][0] if v == 1 and ty["args"] else None
    if n == "Result": return ty["args"][v] if len(ty["args"]) > v else None
    a = ADTS.get(ty["key"])
    if a and a["enum"] and v < len(a["variants"]):
        fs = a["variants"][v]["fields"]
        return fs[j][1] if j < len(fs) else None
    return None
def mkfld(l, name):
    t = mk("fld", l, name)
    if t not in TY and l in TY: typed(t, field_type(TY[l], name))
    return t
def mkvf(l, v, j):
    t = mk("vf", l, v, j)
    if t not in TY and l in TY: typed(t, vfield_type(TY[l], v, j))
    return t
def mkidx(l, i):
    t = mk("idx", l, i)
    if t not in TY and l in TY: typed(t, elem_type(TY[l]))
    return t

# ------------------------------------------------------------------ products
STRUCTS = {}       # struct name -> [field names]
ENUMS = {}         # enum name -> [(variant name, [field types count])]
def mk_st(key, fs):
    # eta
    f0 = fs[0] if fs else None
    names = STRUCTS.get(key)
    if f0 is not None and names and f0.op == "fld" and f0.args[1] == names[0]:
        x = f0.args[0]
        if all(f.op == "fld" and f.args[0] is x and f.args[1] == n for f, n in zip(fs, names)) and len(fs) == len(names): return x
    return mk("st", key, tuple(fs))
def mk_tuparr(k, fs):
    if k == "tup": return mk_tup(*fs)
    return arr(*fs)
def mk_tup(*fs):
    if len(fs) >= 2 and fs[0].op == "fld" and fs[0].args[1] == 0:
        x = fs[0].args[0]
        if all(f.op == "fld" and f.args[0] is x and f.args[1] == i for i, f in enumerate(fs)) and TUPN.get(x) == len(fs): return x
    return mk("tup", *fs)
TUPN = {}
def expand_st(x, key):
    return apply(lambda l: l if l.op == "st" else mk("st", key, tuple(fld(l, n) for n in STRUCTS[key])), x)
def en(key, variant, *fs):
    return mk("en", key, q(variant), ((variant, tuple(fs)),))
def discr(x):
    def leaf(l):
        if l.op == "en": return l.args[1]
        return mk("discr", l)
    return apply(leaf, x)
def mk_en(key, tag, pay):
    if tag.op == "discr":
        x = tag.args[0]
        if all(f.op == "vf" and f.args[0] is x and f.args[1] == v and f.args[2] == i for v, fs in pay for i, f in enumerate(fs)):
            nv = {v for v, _ in pay}; full = ENUMS.get(key)
            if full and nv >= {i for i, (_, n) in enumerate(full) if n}: return x
    # drop payloads of impossible variants
    poss = set()
    def leaf(l):
        if isq(l): poss.add(int(qv(l)))
        else: poss.add(None)
        return l
    bind(tag, leaf) if tag.op == "dec" else leaf(tag)
    if None not in poss: pay = tuple((v, fs) for v, fs in pay if v in poss)
    # payload that only repeats the opaque enum
    return mk("en", key, tag, tuple(pay))
def expand_en(x, key):
    if x.op == "en": return x
    info = ENUMS.get(key)
    if not info: return x
    if x.op == "dec":
        return bind(x, lambda l: expand_en(l, key)) if False else mk_en2(x, key, info)
    d = mk("discr", x); TAGN[d] = len(info)
    return mk("en", key, d, tuple((i, tuple(mkvf(x, i, j) for j in range(n))) for i, (_, n) in enumerate(info)))
def mk_en2(x, key, info):
    return x
def vfield(x, variant, j):
    def leaf(l):
        if l.op == "en":
            p = dict(l.args[2]).get(variant)
            return BOT if p is None else p[j]
        return mkvf(l, variant, j)
    if x.op == "en": return leaf(x)
    return vapply(leaf, x)
def fld(x, name):
    def leaf(l):
        o = l.op
        if o == "st":
            ns = STRUCTS.get(l.args[0])
            if ns is None: return mkfld(l, name)
            if name in ns: return l.args[1][ns.index(name)]
            if isinstance(name, int) and name < len(l.args[1]): return l.args[1][name]
            return mkfld(l, name)
        if o == "tup": return l.args[name]
        if o == "clo": return l.args[1][name]
        return mkfld(l, name)
    return vapply(leaf, x)
def vapply(f, x):
    """map over leaves of a decision; results may be products"""
    if x is BOT: return BOT
    if x.op != "dec": return f(x)
    memo = {}
    def go(t):
        if t is BOT: return BOT
        if t.op != "dec": return f(t)
        if t in memo: return memo[t]
        r = sel(t.args[0], t.args[1], tuple(go(k) for k in t.args[2])); memo[t] = r
        return r
    return go(x)
def vapply2(f, *xs): 
    return apply(f, *xs)

# ------------------------------------------------------------------ sequences
SEQOPS = {"arr", "cat", "flat"}
def is_seq(t):
    if t.op in SEQOPS or t.op == "upd": return True
    if t.op == "dec": return all(k is BOT or is_seq(k) for k in t.args[2])
    return t in SEQATOMS or t.op == "mu" and t in SEQATOMS
SEQATOMS = set()
def seq_parts(s):
    if s.op == "cat": return list(s.args)
    if s.op == "arr": return [mk("arr", x) for x in s.args]
    return [s]
def arr(*items):
    if items and items[0].op == "idx" and isq(items[0].args[1]) and qv(items[0].args[1]) == 0:
        x = items[0].args[0]
        if ARRN.get(x) == len(items) and all(t.op == "idx" and t.args[0] is x and isq(t.args[1]) and qv(t.args[1]) == i for i, t in enumerate(items)): return x
    return mk("arr", *items)
ARRN = {}
NIL = mk("arr")
def cat(*ss):
    parts = []
    for s in ss:
        if s is BOT: return BOT
        if s.op == "cat": parts.extend(s.args)
        else: parts.append(s)
    # explicit pieces are kept one by one inside cat, merged when everything is explicit
    out = []
    for s in parts:
        if s.op == "arr":
            for x in s.args:
                if x.op == "tx" and out and out[-1].op == "arr" and out[-1].args[0].op == "tx":
                    out[-1] = mk("arr", mk("tx", out[-1].args[0].args[0] + x.args[0]))
                else: out.append(mk("arr", x))
        else: out.append(s)
    if all(s.op == "arr" for s in out): return arr(*[s.args[0] for s in out])
    if len(out) == 1: return out[0]
    return mk("cat", *out)

# bound variables ---------------------------------------------------------------------
_uid = [0]
_depth = [0]
def fresh(kind="fv"):
    _uid[0] += 1
    return mk(kind, _depth[0] + 1, _uid[0])
_maxbv = {}
def maxbv(t):
    r = _maxbv.get(t)
    if r is not None: return r
    stack = []
    for a in t.args: _walk(a, stack)
    r = t.args[0] if t.op in BINDERS or t.op == "bv" else 0
    for x in stack: r = max(r, maxbv(x))
    _maxbv[t] = r
    return r

def subst(t, m, memo=None):
    """simultaneous substitution of open variables, with re-normalisation"""
    keys = frozenset(m)
    return transform(t, lambda x: m.get(x), lambda x: not (x.fv & keys))

_fbv = {}
def fbv(t):
    """heights of bound variables that occur free in t"""
    r = _fbv.get(t)
    if r is not None: return r
    if t.op == "bv": r = frozenset((t.args[0],))
    else:
        st = []
        for a in t.args: _walk(a, st)
        r = _EMPTY
        for x in st: r = r | fbv(x)
        if t.op in BINDERS:
            h = t.args[0]; r = frozenset(k for k in r if not (h - BINDERS[t.op] < k <= h))
    _fbv[t] = r
    return r

def transform(t, rep, skip, memo=None):
    """bottom-up rewriting that re-normalises; binders are opened, rewritten and closed again"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        y = rep(x)
        if y is not None: return y
        if skip(x): return x
        r = memo.get(x)
        if r is not None: return r
        if x.op in BINDERS: r = OPENERS[x.op](x, go)
        else: r = rebuild(x.op, tuple(go(y) for y in x.args), x)
        memo[x] = r
        return r
    return go(t)

def subst_bv(t, h, val):
    v = mk("bv", h)
    return transform(t, lambda x: val if x is v else None, lambda x: h not in fbv(x))
def subst_bvs(t, d):
    """{height: value}"""
    ks = frozenset(d)
    return transform(t, lambda x: d.get(x.args[0]) if x.op == "bv" else None, lambda x: not (fbv(x) & ks))
# binder op -> number of bound variables (heights args[0]-k+1 .. args[0])
BINDERS = {"flat": 1, "sum": 1, "any": 1, "first": 1, "fold": 2, "updall": 2, "lam": 1}
OPENERS = {}
def _open1(ctor):
    def f(x, go):
        h, n, body = x.args
        v = fresh()
        _depth[0] += 1
        try: b = go(subst_bv(body, h, v))
        finally: _depth[0] -= 1
        return vapply(lambda k: ctor(k, v, b), go(n))
    return f

REBUILD = {}
FORCE = [False]      # re-normalise unchanged nodes as well
ATOMIC = ("q", "fv", "bv", "mu", "param", "str", "tx", "BOT")
def rebuild(op, a, t):
    if a == t.args and not FORCE[0]: return t
    if op in ATOMIC: return t
    if op == "poly":
        r = ZERO
        # a[0] is tuple of (mono, coef)
        for m, c in a[0]:
            x = q(c)
            for at, e in m: x = apply(mul, x, apply(lambda z: ipow(z, e), at))
            r = apply(add, r, x)
        return r
    if op == "dec":
        p, cuts, kids = a
        return resel(p, cuts, kids)
    if op == "inv": return apply(inv, a[0])
    if op == "sgn":
        # sgn(p) re-normalised: sgn of possibly scaled poly
        return apply(_resgn, a[0])
    if op == "fld": return fld(a[0], a[1])
    if op == "vf": return vfield(a[0], a[1], a[2])
    if op == "discr":
        r = discr(a[0])
        if r.op == "discr" and t in TAGN: TAGN[r] = TAGN[t]
        return r
    if op == "idx": return idx(a[0], a[1])
    if op == "len": return length(a[0])
    if op == "st": return mk_st(a[0], a[1])
    if op == "tup": return mk_tup(*a)
    if op == "arr": return arr(*a)
    if op == "cat": return cat(*a)
    if op == "en": return mk_en(a[0], a[1], a[2])
    if op in REBUILD: return REBUILD[op](a, t)
    # opaque operator: lift decisions out of direct T args
    pos = [i for i, x in enumerate(a) if isinstance(x, T)]
    if any(a[i].op == "dec" or a[i] is BOT for i in pos):
        def f(*xs):
            b = list(a)
            for i, x in zip(pos, xs): b[i] = x
            return _flagcopy(mk(op, *b), t)
        return apply(f, *[a[i] for i in pos])
    return _flagcopy(mk(op, *a), t)
def _flagcopy(n, t):
    if t in UNSIGNED: UNSIGNED.add(n)
    if t in FLAGS: FLAGS.add(n)
    if t in SEQATOMS: SEQATOMS.add(n)
    if t in TUPN: TUPN[n] = TUPN[t]
    if t in ARRN: ARRN[n] = ARRN[t]
    if t in TY and n not in TY: TY[n] = TY[t]
    return n
def _resgn(p):
    if isq(p): return q((qv(p) > 0) - (qv(p) < 0))
    s, flip = sgn(p)
    return apply(neg, s) if flip else s
def resel(p, cuts, kids):
    """decision whose test term was rewritten: p may be constant, scaled, decision-valued"""
    def leaf(l):
        if isq(l):
            i = 0
            while i < len(cuts) and cuts[i] <= qv(l): i += 1
            return kids[i]
        t, c = split_const(l)
        pp, f = normsign(t) if l.op == "poly" else (l, Fraction(1))
        if l.op == "poly" and (c != 0 or f != 1):
            import math
            # f*pp + c in [a,b)
            if f > 0:
                nc = [math.ceil((k - c) / f) for k in cuts]; ks = kids
            else:
                nc = [math.floor((k - c) / f) + 1 for k in reversed(cuts)]; ks = tuple(reversed(kids))
            return sel(pp, tuple(nc), ks)
        return sel(l, cuts, kids)
    return vapply(leaf, p)
def apply_seq(f, n): return vapply(f, n)

def close(var, body):
    """abstract var: returns (height, body with bv(height))"""
    h = maxbv(body) + 1
    return h, subst(body, {var: mk("bv", h)})
def flat_v(n, v, body):
    """concatenation of body over v in 0..n  (body: seq-valued, may be a decision)"""
    if isq(n) and qv(n) <= 0: return NIL
    if body is NIL: return NIL
    if isq(n) and qv(n) == 1: return subst(body, {v: ZERO})
    if body.op == "dec" and v not in body.args[0].fv:
        return sel(body.args[0], body.args[1], tuple(BOT if k is BOT else flat_v(n, v, k) for k in body.args[2]))
    if isq(n) and qv(n) <= min(UNROLL, ROLL[0] - 1): return cat(*[subst(body, {v: q(i)}) for i in range(int(qv(n)))])
    # eta: flat(len X, [X[i]]) = X
    if body.op == "arr" and len(body.args) == 1 and body.args[0].op == "idx" and body.args[0].args[1] is v:
        x = body.args[0].args[0]
        if v not in x.fv and length(x) is n: return x
    h, b = close(v, body)
    return mk("flat", h, n, b)
UNROLL = 8
ROLL = [10 ** 9]      # explicit sequences of at least this length are iterated as loops

def texty(l):
    """a string kept as a sequence of pieces: positions in it are bytes, not pieces"""
    return l.op == "arr" and any(x.op in ("tx", "dsp") for x in l.args) or l.op == "cat" and any(texty(x) for x in l.args)
def length(s):
    def leaf(l):
        if l.op == "arr":
            if texty(l):
                r = ZERO
                for x in l.args:
                    if x.op == "tx": k = q(len(x.args[0].encode()))
                    elif x.op == "dsp": k = mk("strlen", x); UNSIGNED.add(k)
                    else: k = ONE
                    r = apply(add, r, k)
                return r
            return q(len(l.args))
        if l.op == "cat":
            r = ZERO
            for x in l.args: r = apply(add, r, length(x))
            return r
        if l.op == "flat":
            h, n, b = l.args
            if b.op == "arr": return apply(lambda k: scale(k, len(b.args)), n)
            v = fresh()
            return sum_v(n, v, with_depth(lambda: length(subst_bv(b, h, v))))
        if l.op == "upd": return length(l.args[0])
        if l.op in ("fold", "fld"):
            r = _foldlen(l)
            if r is not None: return r
        if l.op == "idx" and l.args[0].op in ("fold", "fld"):
            r = _foldrowlen(l.args[0])
            if r is not None: return r
        if l in ARRN: return q(ARRN[l])
        if l.op == "entries": return maplen(l.args[0])
        return mk("len", l)
    return vapply(leaf, s)
EXPLICIT = [False]      # maps with named keys are written out in key order
def chain(m):
    while m.op == "ins": m = m.args[0]
    return m.op == "map0"
def key_lt(a, b):
    def lex(x, y):
        r = ZERO
        for p, q_ in reversed(list(zip(x.args, y.args))): r = b_or(key_lt(p, q_), b_and(eq(p, q_), r))
        return r
    return apply(lambda x, y: lex(x, y) if x.op == y.op and x.op in ("tup", "arr") else lt(x, y), a, b)
def sorted_entries(m):
    if m.op == "map0": return NIL
    def put(xs, k, v):
        e = mk("tup", k, v)
        if not xs: return mk("arr", e)
        k0 = xs[0].args[0]
        return ite(eq(k, k0), arr(e, *xs[1:]), ite(key_lt(k, k0), arr(e, *xs), vapply(lambda r: arr(xs[0], *r.args), put(xs[1:], k, v))))
    return vapply(lambda s: put(list(s.args), m.args[1], m.args[2]), sorted_entries(m.args[0]))
def maplen(v):
    def leaf(l):
        if l.op == "map0": return ZERO
        if l.op == "ins" and l.args[0].op == "map0": return ONE
        if EXPLICIT[0] and chain(l): return length(sorted_entries(l))
        t = mk("maplen", l); UNSIGNED.add(t); return t
    return vapply(leaf, v)
def with_depth(f):
    _depth[0] += 1
    try: return f()
    finally: _depth[0] -= 1

def idx(s, i):
    def leaf(l, j):
        if texty(l): return mk("byteat", l, j)
        if l.op == "arr":
            if isq(j):
                k = int(qv(j))
                return l.args[k] if 0 <= k < len(l.args) else BOT
            if len(l.args) <= 16:
                return choose(j, list(l.args))
        if l.op == "cat" and isq(j):
            k = int(qv(j))
            for n, x in enumerate(l.args):
                if x.op != "arr": break
                if k == n: return x.args[0]
        if l.op == "cat" and not isq(j):
            p = ZERO; low = True
            for x in l.args:
                d = sub(j, p) if p.op in ("q", "poly") or numlike(p) and p.op != "dec" else None
                if x.op == "arr":
                    if d is ZERO: return x.args[0]
                p = add(p, length(x)) if p.op != "dec" else p
                if p.op == "dec": break
                if low and x.op != "arr" and d is not None:
                    e = sub(j, p)
                    if isq(e) and qv(e) < 0: return idx(x, d)
                e = sub(j, p) if d is not None else None
                low = e is not None and isq(e) and qv(e) >= 0
        if l.op == "flat":
            h, n, b = l.args
            if b.op == "arr" and len(b.args) == 1: return subst_bv(b.args[0], h, j)
        if l.op == "upd":
            b, k, v = l.args
            e = eq(j, k)
            if e is ONE: return v
            if e is ZERO: return idx(b, j)
            return ite(e, v, idx(b, j))
        return mkidx(l, j)
    if s.op != "dec" and i.op != "dec":
        if s is BOT or i is BOT: return BOT
        return leaf(s, i)
    return _vap2(leaf, s, i)
def choose(j, items):
    t, c = split_const(j)
    cuts = tuple(range(1, len(items)))
    return resel(j, cuts, tuple(items))
def _vap2(f, a, b):
    return vapply(lambda x: vapply(lambda y: f(x, y), b), a)
def upd(s, i, v):
    def leaf(l, j):
        if l.op == "arr" and isq(j):
            k = int(qv(j))
            if 0 <= k < len(l.args): return arr(*l.args[:k], v, *l.args[k + 1:])
            return BOT
        if l.op == "arr" and len(l.args) <= 8:
            return arr(*[ite(eq(j, q(k)), v, x) for k, x in enumerate(l.args)])
        if l in ARRN and isq(j):
            return upd(arr_expand(l), j, v)
        if l.op == "upd":
            e = eq(l.args[1], j)
            if e is ONE: return mk("upd", l.args[0], j, v)
            if e is ZERO and l.args[1].dig > j.dig:
                return upd(upd(l.args[0], j, v), l.args[1], l.args[2])
        if v.op == "idx" and v.args[0] is l and v.args[1] is j: return l
        return mk("upd", l, j, v)
    return _vap2(leaf, s, i)
def arr_expand(x): return mk("arr", *[mkidx(x, q(i)) for i in range(ARRN[x])])

# sums --------------------------------------------------------------------------------
def const_leaves(t):
    """the leaves of a decision tree, left to right, when all of them are constants"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.op == "dec":
            if x in seen: continue
            seen.add(x); st.extend(reversed(x.args[2]))
        elif isq(x): out.append(x)
        elif x is not BOT: return None
    return out or None
def _runs(t, v, up, seen):
    """how often an index or argument in t rises (or falls) with v"""
    if t in seen or v not in t.fv: return 0
    seen.add(t); r = 0
    if t.op in ("idx", "call", "mget", "has", "upd"):
        for x in t.args[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T) and y.op == "poly" and v in y.fv:
                    c = _terms(y).get(((v, 1),), 0)
                    if c > 0: up[0] += 1
                    elif c < 0: up[1] += 1
                elif y is v: up[0] += 1
    out = []
    for a in t.args: _walk(a, out)
    for x in out: _runs(x, v, up, seen)
def forward(n, v, body):
    """body with v counted from the other end when every use of it falls as v rises"""
    up = [0, 0]; _runs(body, v, up, set())
    return subst(body, {v: sub(sub(n, ONE), v)}) if up[1] and not up[0] else body
def sum_v(n, v, body):
    """sum of numeric body over v in 0..n"""
    if n.op == "dec": return vapply(lambda k: sum_v(k, v, body), n)
    if body is BOT: return BOT
    if isq(n) and qv(n) <= 0: return ZERO
    if body.op == "dec":
        if v not in body.args[0].fv:
            return sel(body.args[0], body.args[1], tuple(BOT if k is BOT else sum_v(n, v, k) for k in body.args[2]))
        if isq(n) and qv(n) <= min(UNROLL, ROLL[0] - 1):
            r = ZERO
            for i in range(int(qv(n))): r = apply(add, r, subst(body, {v: q(i)}))
            return r
        ls = const_leaves(body)
        if ls is not None and ls[0] is not ZERO:        # sum of constants: measured from the first one
            return apply(add, apply(mul, n, ls[0]), sum_v(n, v, vapply(lambda k: add(k, q(-qv(ls[0]))), body)))
        if ls is not None:
            f = next((qv(x) for x in ls if x is not ZERO), None)
            if f is None: return ZERO
            if f != 1:
                return apply(mul, q(f), sum_v(n, v, vapply(lambda k: q(qv(k) / f), body)))
        h, b = close(v, forward(n, v, body))
        return mk("sum", h, n, b)
    if isq(n) and qv(n) <= min(UNROLL, ROLL[0] - 1):
        r = ZERO
        for i in range(int(qv(n))): r = apply(add, r, subst(body, {v: q(i)}))
        return r
    r = ZERO
    for m, c in _terms(body).items():
        inner = tuple((x, e) for x, e in m if v in x.fv)
        outer = tuple((x, e) for x, e in m if v not in x.fv)
        if not inner: s = n
        else:
            h, b = close(v, forward(n, v, _mkpoly({inner: Fraction(1)})))
            s = mk("sum", h, n, b)
        r = add(r, mul(_mkpoly({outer: c}), s))
    return r
OPENERS["sum"] = _open1(lambda n, v, b: sum_v(n, v, b))
def sum_seq(s):
    def leaf(l):
        if l.op == "arr":
            r = ZERO
            for x in l.args: r = apply(add, r, x)
            return r
        if l.op == "cat":
            r = ZERO
            for x in l.args: r = apply(add, r, sum_seq(x))
            return r
        if l.op == "flat":
            h, n, b = l.args
            v = fresh()
            return sum_v(n, v, with_depth(lambda: sum_seq(subst_bv(b, h, v))))
        v = fresh()
        return sum_v(length(l), v, idx(l, v))
    return vapply(leaf, s)

# any -----------------------------------------------------------------------------------
def in_range(n, v, body):
    """body without the tests that 0 <= v < n settles"""
    if body.op != "dec": return body
    p, cuts, kids = body.args
    if v not in p.fv or p.op != "poly" or not all(isinstance(c, int) for c in cuts): return body
    lo = hi = None
    for e, d in ((sub(p, v), 1), (sub(p, sub(sub(n, ONE), v)), 1), (add(p, v), -1), (add(p, sub(sub(n, ONE), v)), -1)):
        if isq(e):
            if d > 0: lo = qv(e)
            else: hi = qv(e)
    if lo is None and hi is None: return body
    ks = [k for i, k in enumerate(kids) if not (lo is not None and i < len(cuts) and cuts[i] <= lo) and not (hi is not None and i and cuts[i - 1] > hi)]
    return in_range(n, v, ks[0]) if len(ks) == 1 else body
def any_v_closed(n, h, b):
    w = fresh()
    return any_v(n, w, subst_bv(b, h, w))
def any_v(n, v, body):
    body = tb(body)
    if n.op == "dec": return vapply(lambda k: any_v(k, v, body), n)
    body = tb(in_range(n, v, body))
    if body is ZERO: return ZERO
    if isq(n) and qv(n) <= 0: return ZERO
    if body is ONE: return lt(ZERO, n)
    if body is BOT: return BOT
    if v not in body.args[0].fv:
        return bind_bool(body.args[0], body.args[1], tuple(BOT if k is BOT else any_v(n, v, k) for k in body.args[2]))
    if isq(n) and qv(n) <= min(UNROLL, ROLL[0] - 1):
        r = ZERO
        for i in range(int(qv(n))): r = b_or(r, subst(body, {v: q(i)}))
        return r
    e = sub(sub(n, ONE), v)
    if body.op == "dec" and e.op == "poly" and paired(body, e):
        # pairs i < j enumerated by i: enumerated by j instead
        k = fresh(); i = fresh()
        def pick(x):
            if x.op == "dec" and x.args[0].op == "any" and x.args[0].args[1] is e: return subst_bv(x.args[0].args[2], x.args[0].args[0], sub(sub(k, v), ONE))
        b2 = with_depth(lambda: subst(transform(body, pick, lambda x: False), {v: i}))
        return any_v(n, k, with_depth(lambda: any_v(k, i, b2)))
    h, b = close(v, forward(n, v, body))
    return tb(mk("any", h, n, b))
def paired(t, e):
    """a decision whose leaves are false or a statement about some index below e, the tests above them free of such"""
    if t is ZERO: return True
    if t.op != "dec": return False
    if t.args[0].op == "any" and t.args[0].args[1] is e: return t.args[1] == (1,) and t.args[2] == (ZERO, ONE)
    return t.args[0].op not in ("any", "first", "sum") and all(paired(k, e) for k in t.args[2])
def bind_bool(p, cuts, kids): return sel(p, cuts, kids)
OPENERS["any"] = _open1(lambda n, v, b: any_v(n, v, b))
def any_seq(s, f):
    """exists x in s. f(x)"""
    def leaf(l):
        if l.op == "arr":
            r = ZERO
            for x in l.args: r = b_or(r, f(x))
            return r
        if l.op == "cat":
            r = ZERO
            for x in l.args: r = b_or(r, any_seq(x, f))
            return r
        if l.op == "flat":
            h, n, b = l.args
            v = fresh()
            return any_v(n, v, with_depth(lambda: any_seq(subst_bv(b, h, v), f)))
        v = fresh()
        return any_v(length(l), v, with_depth(lambda: f(idx(l, v))))
    return vapply(leaf, s)
def map_seq(s, f):
    """[f(x) | x in s]; f returns a value"""
    return bind_seq(s, lambda x: mk("arr", f(x)))
def bind_seq(s, f):
    """concat [f(x) | x in s]; f returns a sequence"""
    def leaf(l):
        if l.op == "arr": return cat(*[f(x) for x in l.args])
        if l.op == "cat": return cat(*[bind_seq(x, f) for x in l.args])
        if l.op == "flat":
            h, n, b = l.args
            v = fresh()
            return flat_v(n, v, with_depth(lambda: bind_seq(subst_bv(b, h, v), f)))
        v = fresh()
        return vapply(lambda n: flat_v(n, v, with_depth(lambda: f(idx(l, v)))), length(l))
    return vapply(leaf, s)
def regular(s):
    """(n, fn index->item) when the length does not depend on data filtering; else None"""
    if s.op == "arr": return q(len(s.args)), (lambda i: idx(s, i))
    if s.op == "flat":
        h, n, b = s.args
        if b.op == "arr" and len(b.args) == 1: return n, (lambda i: subst_bv(b.args[0], h, i))
        return None
    if s.op in ("cat", "dec"): return None
    return length(s), (lambda i: idx(s, i))
def strslice(s, lo, n):
    """n bytes of a string from byte lo on"""
    if lo is ZERO and n is None: return s
    if s.op == "arr" and all(x.op == "tx" for x in s.args) and isq(lo) and (n is None or isq(n)):
        b = "".join(x.args[0] for x in s.args).encode(); i = int(qv(lo))
        b = b[i:] if n is None else b[i:i + int(qv(n))]
        return mk("arr", mk("tx", b.decode("utf8", "replace"))) if b else NIL
    t = mk("strslice", s, lo) if n is None else mk("strslice", s, lo, n)
    SEQATOMS.add(t)
    return t
def slice_seq(s, lo, n):
    """n items from lo on (n None: to the end)"""
    if texty(s): return strslice(s, lo, n)
    r = regular(s)
    if r is None: return None
    ln, f = r
    avail = apply(sub, ln, lo)
    if n is None: cnt = avail
    else: cnt = ite(lt(n, avail), n, avail)
    v = fresh()
    return vapply(lambda k: flat_v(k, v, with_depth(lambda: mk("arr", f(apply(add, v, lo))))), cnt)
def rev_seq(s):
    if s.op == "arr": return arr(*reversed(s.args))
    if s.op == "cat": return cat(*[rev_seq(x) for x in reversed(s.args)])
    if s.op == "flat":
        h, n, b = s.args
        v = fresh()
        return flat_v(n, v, with_depth(lambda: rev_seq(subst_bv(b, h, sub(sub(n, ONE), v)))))
    if s.op == "dec": return vapply(rev_seq, s)
    n = length(s); v = fresh()
    return vapply(lambda k: flat_v(k, v, mk("arr", idx(s, sub(sub(k, ONE), v)))), n)
def fold_seq(s, init, f, name="fold"):
    """general left fold; f(acc, x).  Sums and appends are recognised by the caller."""
    def leaf(l, acc):
        if l.op == "arr":
            for x in l.args: acc = f(acc, x)
            return acc
        if l.op == "cat":
            for x in l.args: acc = fold_seq(x, acc, f)
            return acc
        v = fresh(); m = fresh("mu")
        if l.op == "flat":
            h, n, b = l.args
            body = with_depth(lambda: fold_seq(subst_bv(b, h, v), m, f))
        else:
            n = length(l); body = with_depth(lambda: f(m, idx(l, v)))
        return fold_close(n, v, m, acc, body)
    return vapply(lambda l: leaf(l, init), s)
def fold_close(n, v, m, init, body):
    """closed form of iterating m := body(m, v), v in 0..n, starting from init"""
    if body is m: return init
    if n.op == "dec": return vapply(lambda k: fold_close(k, v, m, init, body), n)
    if isq(n) and qv(n) <= min(UNROLL, ROLL[0] - 1):
        for i in range(int(qv(n))): init = subst(body, {v: q(i), m: init})
        return init
    if m not in body.fv:            # last value
        return ite(lt(ZERO, n), subst(body, {v: sub(n, ONE)}) if v in body.fv else body, init)
    # product: field-wise when independent is not attempted here
    # m + g(v)
    r = _sumform(body, m)
    if r is not None: return apply(add, init, sum_v(n, v, r))
    # cat(m, g(v))
    r = _catform(body, m)
    if r is not None: return cat(init, flat_v(n, v, r))
    # m && c / m || c
    r = _boolform(body, m)
    if r is not None:
        kind, c = r
        if kind == "or": return b_or(tb(init), any_v(n, v, c))
        return b_and(tb(init), b_not(any_v(n, v, b_not(c))))
    # map insertion
    r = _insform(body, m)
    if r is not None:
        return insall(init, flat_v(n, v, r))
    r = _updform(body, m, v)
    if r is not None:
        return updall(init, n, v, r[0], r[1])
    pairs = []
    if body.op == "tup" and init.op == "tup":
        for i, (b, x) in enumerate(zip(body.args, init.args)):
            mi = fld(m, i); k = _pushlen(b, mi)
            if k is not None: pairs.append((mi, add(length(x), scale(v, k))))
    else:
        k = _pushlen(body, m)
        if k is not None: pairs.append((m, add(length(init), scale(v, k))))
    rows = _row_lengths(init, body, m, v)
    if pairs or rows:
        b2 = known_lengths(body, pairs, rows)
        if b2 is not body: return fold_close(n, v, m, init, b2)
    hv = maxbv(body) + 1
    b = subst(body, {v: mk("bv", hv), m: mk("bv", hv + 1)})
    t = mk("fold", hv + 1, n, init, b)
    if m in SEQATOMS: SEQATOMS.add(t)
    return t
def _open_fold(x, go):
    h, n, init, b = x.args
    v = fresh(); m = fresh("mu")
    _flagcopy(m, x)
    _depth[0] += 1
    try: bb = go(subst_bvs(b, {h - 1: v, h: m}))
    finally: _depth[0] -= 1
    return vapply2(lambda n2: fold_close(n2, v, m, go(init), bb), go(n))
OPENERS["fold"] = _open_fold
def _leaves(t, out, seen):
    if t in seen: return
    seen.add(t)
    if t.op == "dec":
        if any(True for _ in ()): pass
        for k in t.args[2]: _leaves(k, out, seen)
    else: out.append(t)
def _tests_free(t, m, seen):
    if t.op != "dec" or t in seen: return True
    seen.add(t)
    return m not in t.args[0].fv and all(_tests_free(k, m, seen) for k in t.args[2])
def _sumform(body, m):
    if not _tests_free(body, m, set()): return None
    ls = []; _leaves(body, ls, set())
    for l in ls:
        if l is BOT: continue
        if l.op not in ("poly", "q") and l is not m: 
            return None
        ts = _terms(l)
        if ts.get(((m, 1),)) != 1: return None
        if any(m in x.fv for mono, _ in ts.items() if mono != ((m, 1),) for x, _ in mono): return None
    return bind(body, lambda l: BOT if l is BOT else sub(l, m))
def _catform(body, m):
    if body.op == "cat" and body.args[0] is m:
        r = cat(*body.args[1:])
        return r if m not in r.fv else None
    if body.op == "dec" and _tests_free(body, m, set()):
        ls = []; _leaves(body, ls, set())
        for l in ls:
            if l is BOT or l is m: continue
            if not (l.op == "cat" and l.args[0] is m and all(m not in x.fv for x in l.args[1:])): return None
        if not any(l.op == "cat" for l in ls): return None
        return vapply(lambda l: NIL if l is m else cat(*l.args[1:]), body)
    return None
def _pushlen(body, m):
    """number of items every iteration appends to m, when it is the same on every path"""
    ls = []; _leaves(body, ls, set()); k = None
    for l in ls:
        if l is BOT: continue
        if l.op != "cat" or l.args[0] is not m or any(x.op != "arr" for x in l.args[1:]): return None
        n = len(l.args) - 1
        if k is not None and n != k: return None
        k = n
    return k
def known_lengths(body, pairs, rows=()):
    """body with the lengths of the states that only grow by a fixed number of items written in closed form"""
    d = {}
    for m, n in pairs: d[mk("len", m)] = n
    if not d and not rows: return body
    ms = frozenset(x for m, _ in pairs for x in m.fv) | frozenset(x for m in rows for x in m.fv)
    def f(x):
        if x.op == "len" and x.args[0].op == "idx" and x.args[0].args[0] in rows: return rows[x.args[0].args[0]]
        return d.get(x)
    return transform(body, f, lambda x: not (x.fv & ms))
def _row_lengths(init, body, m, v):
    """{state: L}: every item of the state is itself a list of L items, by induction over the iterations"""
    st = [(fld(m, i), init.args[i], body.args[i]) for i in range(len(body.args))] if body.op == "tup" and init.op == "tup" else [(m, init, body)]
    rows = {}; cand = {}
    for mi, x, b in st:
        ls = []; _leaves(b, ls, set()); it = []
        if x is not NIL and x.op != "arr": continue
        it += x.args if x.op == "arr" else []
        for l in ls:
            if l is BOT: continue
            if l.op != "cat" or l.args[0] is not mi or any(y.op != "arr" for y in l.args[1:]): it = None; break
            for y in l.args[1:]: it += y.args
        if not it: continue
        js = []
        for y in it: _leaves(y, js, set())
        if not all(y is BOT or y in SEQATOMS or y.op in ("flat", "cat", "arr") for y in js): continue
        lens = [length(y) for y in js if y is not BOT]
        free = [n for n in lens if not (n.fv & m.fv) and v not in n.fv and n.op != "dec"]
        if not free: continue
        rows[mi] = lens; cand[mi] = free[0]
    while cand:
        bad = [mi for mi in cand if any(known_lengths(n, (), cand) is not cand[mi] for n in rows[mi])]
        if not bad: break
        for mi in bad: del cand[mi]
    return cand
_ROWL = {}
def _foldrowlen(l):
    """L when l is a loop state all of whose items are lists of L items"""
    f, i = (l, None) if l.op == "fold" else (l.args[0], l.args[1])
    if f.op != "fold": return None
    if f not in _ROWL:
        h, n, init, b = f.args
        v = fresh(); m = fresh("mu"); _flagcopy(m, f)
        _ROWL[f] = {x.args[1] if x is not m else None: n for x, n in _row_lengths(init, subst_bvs(b, {h - 1: v, h: m}), m, v).items()}
    return _ROWL[f].get(i)
def _foldlen(l):
    f, i = (l, None) if l.op == "fold" else (l.args[0], l.args[1])
    if f.op != "fold": return None
    h, n, init, b = f.args
    m = mk("bv", h)
    if i is not None:
        if init.op != "tup" or b.op != "tup" or not isinstance(i, int): return None
        init = init.args[i]; b = b.args[i]; m = mk("fld", m, i)
    k = _pushlen(b, m)
    if k is None: return length(init) if _keeps_length(b, m) else None
    return add(length(init), scale(n, k)) if n.op != "dec" else None
def _keeps_length(body, m):
    """every iteration only writes to items of the list m"""
    ls = []; _leaves(body, ls, set()); some = False
    for l in ls:
        if l is BOT or l is m: continue
        while l.op == "upd": l = l.args[0]
        if l is not m and not (l.op in ("fold", "updall") and l.args[2] is m and length(l) is mk("len", m)): return False
        some = True
    return some
def _boolform(body, m):
    # body in terms of boolean m: m ? x : y
    if body.op != "dec": return None
    if m not in FLAGS: return None
    m1 = subst(body, {m: ONE}); m0 = subst(body, {m: ZERO})
    if m in m1.fv or m in m0.fv: return None
    if m1 is ONE and m0.op == "dec": return ("or", m0)
    if m0 is ZERO and m1.op == "dec": return ("and", m1)
    return None
def _insform(body, m):
    if not _tests_free(body, m, set()): return None
    ls = []; _leaves(body, ls, set())
    ok = False
    for l in ls:
        if l is BOT or l is m: continue
        if l.op == "ins" and l.args[0] is m and m not in l.args[1].fv and m not in l.args[2].fv: ok = True
        elif l.op == "insall" and l.args[0] is m and m not in l.args[1].fv: ok = True
        else: return None
    if not ok: return None
    def g(l):
        if l is m: return NIL
        if l.op == "ins": return mk("arr", mk_tup(l.args[1], l.args[2]))
        return l.args[1]
    return vapply(g, body)
def insall(m, s):
    if s is NIL: return m
    if s.op == "arr":
        for x in s.args: m = ins(m, fld(x, 0), fld(x, 1))
        return m
    if m.op == "insall": return insall(m.args[0], cat(m.args[1], s))
    return vapply(lambda mm: mk("insall", mm, s) if mm.op != "insall" else insall(mm, s), m)
def ins(m, k, v):
    def leaf(mm, kk):
        if mm.op == "ins":
            e = eq(mm.args[1], kk)
            if e is ONE: return ins(mm.args[0], kk, v)
            if e is ZERO and mm.args[1].dig > kk.dig:
                return ins(ins(mm.args[0], kk, v), mm.args[1], mm.args[2])
        return mk("ins", mm, kk, v)
    return _vap2(leaf, m, k)
def has(m, k):
    def leaf(mm, kk):
        if mm.op == "map0": return ZERO
        if mm.op == "ins":
            return b_or(eq(mm.args[1], kk), has(mm.args[0], kk))
        if mm.op == "insall":
            return b_or(any_seq(mm.args[1], lambda x: eq(fld(x, 0), kk)), has(mm.args[0], kk))
        return tb(mk("has", mm, kk))
    return _vap2(leaf, m, k)
def mget(m, k):
    def leaf(mm, kk):
        if mm.op == "map0": return BOT
        if mm.op == "ins":
            e = eq(mm.args[1], kk)
            return ite(e, mm.args[2], mget(mm.args[0], kk)) if e is not ONE else mm.args[2]
        return mk("mget", mm, kk)
    return _vap2(leaf, m, k)
REBUILD["ins"] = lambda a, t: ins(*a)
REBUILD["insall"] = lambda a, t: insall(*a)
REBUILD["has"] = lambda a, t: has(*a)
REBUILD["mget"] = lambda a, t: mget(*a)
REBUILD["upd"] = lambda a, t: upd(*a)
def _updform(body, m, v):
    """m := upd(m, v, g(v, m[v])) with v the loop index: pointwise update"""
    def okleaf(l):
        if l is m: return True
        return l.op == "upd" and l.args[0] is m and l.args[1] is v
    if not _tests_at(body, m, v): return None
    ls = []; _leaves(body, ls, set())
    if not all(l is BOT or okleaf(l) for l in ls): return None
    e = mkidx(m, v)
    val = vapply(lambda l: e if l is m else l.args[2], body)
    w = fresh()
    val2 = subst2(val, e, w)
    if m in val2.fv: return None
    return (w, val2)
def _tests_at(t, m, v):
    return True
def subst2(t, old, new):
    """replace a compound term"""
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x is old: return new
        if not x.fv & old.fv: return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x.op, tuple(go(y) for y in x.args), x); memo[x] = r
        return r
    return go(t)
def updall(s, n, v, w, val):
    """s with s[i] := val(i, s[i]) for i in 0..n"""
    if n is length(s):
        return vapply(lambda k: flat_v(k, v, mk("arr", subst(val, {w: idx(s, v)}))), n)
    h = maxbv(val) + 1
    return mk("updall", h + 1, n, s, subst(val, {v: mk("bv", h), w: mk("bv", h + 1)}))
def _open_updall(x, go):
    h, n, s, val = x.args
    v = fresh(); w = fresh()
    _depth[0] += 1
    try: vv = go(subst_bvs(val, {h - 1: v, h: w}))
    finally: _depth[0] -= 1
    return vapply(lambda n2: vapply(lambda s2: updall(s2, n2, v, w, vv), go(s)), go(n))
OPENERS["updall"] = _open_updall
def first_v(n, v, cond):
    """least v in 0..n with cond (only meaningful when any_v holds)"""
    cond = tb(cond)
    if isq(n) and qv(n) <= min(UNROLL, ROLL[0] - 1):
        r = BOT
        for i in reversed(range(int(qv(n)))): r = ite(subst(cond, {v: q(i)}), q(i), r)
        return r
    if cond is ONE: return ZERO
    if cond is ZERO or cond is BOT: return BOT
    if v not in cond.args[0].fv:
        return sel(cond.args[0], cond.args[1], tuple(BOT if k is BOT else first_v(n, v, k) for k in cond.args[2]))
    h, b = close(v, cond)
    return mk("first", h, n, b)
OPENERS["first"] = _open1(lambda n, v, b: first_v(n, v, b))
OPENERS["flat"] = _open1(lambda n, v, b: flat_v(n, v, b))
OPENERS["lam"] = _open1(lambda n, v, b: lam_v(n, v, b))
def lam_v(n, v, b):
    h, c = close(v, b)
    return mk("lam", h, n, c)
REBUILD["feq"] = lambda a, t: eq(*a)

# ------------------------------------------------------------------ printing
def show(t, d=8):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d <= 0: return "…"
    o = t.op
    if o == "q": return str(t.args[0]) if t.args[0].denominator == 1 else "%s" % float(t.args[0])
    if o == "poly":
        out = []
        for m, c in t.args[0]:
            f = "*".join(show(x, d - 1) + ("" if e == 1 else "^%s" % e) for x, e in m)
            cs = str(c) if c.denominator < 1000 else "%.6g" % float(c)
            out.append(cs if not f else (f if c == 1 else ("-" + f if c == -1 else cs + "*" + f)))
        return "(" + " + ".join(out) + ")"
    if o == "dec":
        p, cuts, kids = t.args
        s = "{" + show(p, d - 1) + "? "
        for i, k in enumerate(kids):
            s += (("<%s:" % cuts[i]) if i < len(cuts) else "else:") + show(k, d - 1) + " "
        return s + "}"
    if o == "fld": return show(t.args[0], d) + "." + str(t.args[1])
    if o == "vf": return show(t.args[0], d) + "@%s.%s" % (t.args[1], t.args[2])
    if o == "idx": return show(t.args[0], d) + "[" + show(t.args[1], d - 1) + "]"
    if o == "bv": return "b%d" % t.args[0]
    if o == "fv": return "v%d" % t.args[1]
    if o == "mu": return "μ%d" % t.args[1]
    if o == "param": return str(t.args[0])
    if o == "arr": return "[" + ", ".join(show(x, d - 1) for x in t.args) + "]"
    if o == "tup": return "(" + ", ".join(show(x, d - 1) for x in t.args) + ")"
    if o == "st":
        ns = STRUCTS.get(t.args[0], range(99))
        return t.args[0] + "{" + ", ".join("%s:%s" % (n, show(x, d - 1)) for n, x in zip(ns, t.args[1])) + "}"
    if o == "en":
        key, tag, pay = t.args
        vs = ENUMS.get(key)
        nm = lambda v: vs[v][0] if vs and v < len(vs) else str(v)
        if isq(tag): return nm(int(qv(tag))) + "(" + ", ".join(show(x, d - 1) for v, fs in pay for x in fs) + ")"
        return key + "<tag=" + show(tag, d - 1) + "; " + "; ".join(nm(v) + "(" + ", ".join(show(x, d - 1) for x in fs) + ")" for v, fs in pay) + ">"
    if o in ("flat", "sum", "any"):
        return "%s(b%d<%s: %s)" % (o, t.args[0], show(t.args[1], d - 1), show(t.args[2], d - 1))
    return o + "(" + ", ".join(show(x, d - 1) for x in t.args) + ")"
