"""Meaning of the standard-library and dependency calls the crate uses (value level)."""
import re
from fractions import Fraction
import term as tm
from term import *
from ir import strip_generics, short_ty

def ev_mod():
    import eval as e
    return e

def canon(info, key=None):
    if info.get("trait"): return short(info["trait"].split("<")[0]) + "::" + info["name"]
    p = strip_generics(info.get("rpath") or info["path"])
    p = p.replace("[T]", "slice").replace("[T; N]", "array")
    parts = [x for x in p.split("::") if x]
    return "::".join(parts[-2:])

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def lookup(info, key):
    n = canon(info, key)
    f = M.get(n)
    if f is None and info.get("trait") and info.get("rpath"):
        f = M.get("::".join([x for x in strip_generics(info["rpath"]).split("::") if x][-2:]))
    return f
def lookup_path(p):
    return M.get("::".join(p.split("::")[-2:]))

def deref(ev, st, v):
    """follow references completely at the top"""
    for _ in range(8):
        if ev_mod().is_refy(v): v = ev.read_ref(v, st)
        else: break
    return v
def D(ev, st, v): return ev.deep(deref(ev, st, v), st)
def wr(ev, st, r, x):
    # reference to reference: write the innermost
    while True:
        if r.op == "ref":
            v = ev.read_ref(r, st)
            if v.op == "ref": r = v; continue
        break
    ev.write_ref(r, st, x)

# ------------------------------------------------------------------ sequences and iterators
def rng(a, b):
    n = apply(sub, b, a)
    v = fresh()
    return vapply(lambda k: flat_v(k, v, with_depth(lambda: mk("arr", apply(add, a, v)))), n)
def iter_seq(ev, st, v):
    """sequence of items of an iterable value; None when unknown"""
    if v.op == "ref":
        return ref_items(ev, st, v)
    if v is BOT: return BOT
    if v.op == "iter": return v.args[0]
    if v.op == "st":
        k = v.args[0]
        if k == "Range": return rng(v.args[1][0], v.args[1][1])
        if k == "RangeInclusive": return rng(v.args[1][0], apply(add, v.args[1][1], ONE))
        if k == "RangeFrom":
            w = fresh(); return flat_v(ev_mod().INF, w, mk("arr", apply(add, v.args[1][0], w)))
        return None
    if v.op == "dec" and not is_seq(v):
        ks = [BOT if k is BOT else iter_seq(ev, st, k) for k in v.args[2]]
        if any(k is None for k in ks): return None
        return sel(v.args[0], v.args[1], tuple(ks))
    if v.op == "en" and v.args[0] == "Option":
        t = tb(v.args[1])
        p = dict(v.args[2]).get(1)
        return ite(t, mk("arr", p[0]), NIL) if p else NIL
    if v.op in ("map0", "ins", "insall") or is_map(v): return map_entries(v)
    if is_seq(v) or v in SEQATOMS: return v
    ty = TY.get(v)
    if ty is not None and ty["k"] == "adt":
        s = short(ty["key"])
        if s == "Option": return iter_seq(ev, st, expand_en(v, "Option"))
        if s in ("BTreeMap", "HashMap"): return map_entries(v)
        if s == "Range": return rng(fld(v, "start"), fld(v, "end"))
    return v      # opaque iterable
def is_map(v):
    ty = TY.get(v)
    return ty is not None and ty["k"] == "adt" and short(ty["key"]) in ("BTreeMap", "HashMap")
def map_entries(m):
    def leaf(l):
        if l.op == "map0": return NIL
        if l.op == "ins" and l.args[0].op == "map0": return mk("arr", mk("tup", l.args[1], l.args[2]))
        if tm.EXPLICIT[0] and tm.chain(l): return tm.sorted_entries(l)
        t = mk("entries", l)
        SEQATOMS.add(t)
        ty = TY.get(l)
        if ty is not None and ty["k"] == "adt" and len(ty["args"]) >= 2:
            typed(t, {"k": "slice", "of": {"k": "tuple", "of": ty["args"][:2], "s": ""}, "s": ""})
        return t
    return vapply(leaf, m)
def _rb_entries(a, t):
    r = map_entries(a[0])
    return r
REBUILD["entries"] = _rb_entries
def ref_items(ev, st, r):
    """iterating through a mutable reference"""
    v = ev.read_ref(r, st)
    if v.op == "iter" or (v.op == "st" and v.args[0] in ("Range", "RangeInclusive", "RangeFrom")): return iter_seq(ev, st, v)
    if v.op == "ref": return ref_items(ev, st, v)
    cell, path = r.args
    if v.op == "map0" or v.op in ("ins", "insall") or is_map(v):
        es = map_entries(v)
        return map_seq(es, lambda x: mk_tup(fld(x, 0), mk("ref", cell, path + (("m", fld(x, 0)),))))
    return items_mut(ev, st, r)
def items_mut(ev, st, r):
    def leaf(l):
        cell, path = l.args
        v = ev.read_path(st[cell], path)
        n = length(v)
        w = fresh()
        return vapply(lambda k: flat_v(k, w, with_depth(lambda: mk("arr", mk("ref", cell, path + (("i", w),))))), n)
    return vapply(leaf, r)
def IT(seq): 
    if seq is BOT: return BOT
    return mk("iter", seq)
def seq_of(ev, st, v):
    s = iter_seq(ev, st, v)
    if s is None: raise ev_mod().Undecided("iteration over %s" % show(v, 2))
    return s

@model("IntoIterator::into_iter", "slice::iter", "BTreeMap::iter", "HashMap::iter", "Vec::iter", "par_iter::par_iter",
       "IntoParallelRefIterator::par_iter", "IntoParallelIterator::into_par_iter", "Receiver::iter", "Option::iter", "Option::into_iter", "SmallVec::into_iter", "VecDeque::iter", "HashSet::iter", "BTreeSet::iter")
def m_into_iter(ev, st, a, c):
    v = a[0]
    if c.info["name"] == "iter": v = deref(ev, st, v)
    elif v.op == "ref":
        x = ev.read_ref(v, st)
        if x.op == "iter": return x
    return IT(seq_of(ev, st, v))
@model("slice::iter_mut", "BTreeMap::iter_mut", "HashMap::iter_mut", "Vec::iter_mut")
def m_iter_mut(ev, st, a, c):
    if a[0].op != "ref": return IT(seq_of(ev, st, a[0]))
    return IT(ref_items(ev, st, a[0]))
@model("BTreeMap::values_mut", "HashMap::values_mut")
def m_values_mut(ev, st, a, c):
    return IT(map_seq(ref_items(ev, st, a[0]), lambda x: fld(x, 1)))
@model("BTreeMap::keys", "HashMap::keys", "BTreeMap::into_keys", "HashMap::into_keys")
def m_keys(ev, st, a, c): return IT(map_seq(map_entries(D(ev, st, a[0])), lambda x: fld(x, 0)))
@model("BTreeMap::values", "HashMap::values", "BTreeMap::into_values", "HashMap::into_values")
def m_values(ev, st, a, c): return IT(map_seq(map_entries(D(ev, st, a[0])), lambda x: fld(x, 1)))
@model("slice::windows")
def m_windows(ev, st, a, c):
    s = D(ev, st, a[0]); k = a[1]
    if not isq(k): return None
    kk = int(qv(k)); v = fresh()
    n = apply(lambda l: sub(l, q(kk - 1)), length(s))
    return IT(vapply(lambda m: flat_v(m, v, with_depth(lambda: mk("arr", arr(*[idx(s, add(v, q(i))) for i in range(kk)])))), n))

def effectful_map(ev, st, seq, clo, mode):
    """run the closure on every item; returns (sequence, state, panics)"""
    e = ev_mod()
    # attempt: closure leaves the state alone
    touched = []
    pan = {}; done = {}
    def f(x):
        v, s2, cnd, pn = ev.call_value(clo, [x], dict(st))
        done[x] = pn
        for k, pc in pn.items():
            if pc is not ZERO: pan[k] = True
        if v is None: return BOT
        for k, val in s2.items():
            if k in st and st[k] is not val: touched.append(k); raise _Touched()
        return ev.deep(v, s2) if mode != "ref" else v
    try:
        if mode == "map": r = bind_seq(seq, lambda x: one(f(x)))
        elif mode == "filter":
            r = bind_seq(seq, lambda x: ite(tb(f(x)), mk("arr", x), NIL))
        elif mode == "flat":
            r = bind_seq(seq, lambda x: seq_of(ev, st, f(x)))
        elif mode == "filter_map":
            r = bind_seq(seq, lambda x: seq_of(ev, st, exp_opt(f(x))))
        out = {}
        for k in pan:
            # some item makes the closure diverge
            def g(x, k=k):
                pn = done.get(x)
                if pn is None:
                    pn = ev.call_value(clo, [x], dict(st))[3]
                    done[x] = pn
                return pn.get(k, ZERO)
            out[k] = tm.any_seq(seq, g)
        return r, st, out
    except _Touched: pass
    class F: id = -2
    class Fr: pass
    cell = ("acc", tm._uid[0]); tm._uid[0] += 1
    st = dict(st); st[cell] = NIL
    fr = ev.dummy_frame()
    def run(s, x):
        r = e.Ev.Res()
        s = dict(s)
        v, s2, cnd, pn = ev.call_value(clo, [x], s)
        r.pan = dict(pn)
        if v is None: return r
        s2 = dict(s2)
        if mode == "map": add_ = one(ev.deep(v, s2))
        elif mode == "filter": add_ = ite(tb(v), mk("arr", x), NIL)
        else: add_ = seq_of(ev, s2, v)
        s2[cell] = vapply(lambda k: cat(s2[cell], k), add_) if add_.op == "dec" else cat(s2[cell], add_)
        r.cont.append((cnd, s2))
        return r
    res = e.Ev.Res()
    fin = ev.foreach(fr, seq, st, run, res)
    if fin is None: return NIL, st, res.pan
    cnd, s = fin
    s = dict(s)
    out = s.pop(cell)
    return out, s, res.pan
class _Touched(Exception): pass
def b_or_any(cs):
    r = ZERO
    for c in cs:
        r = b_or(r, c if not c.fv else ONE if False else c)
    return r
def one(x): return BOT if x is BOT else mk("arr", x)
def exp_opt(x):
    return x if x.op == "en" else expand_en(x, "Option") if x.op != "dec" else x

def adapter(name, mode):
    @model("Iterator::" + name, "ParallelIterator::" + name)
    def f(ev, st, a, c):
        seq = seq_of(ev, st, a[0])
        r, st2, pan = effectful_map(ev, st, seq, a[1], mode)
        return IT(r), st2, ONE, {k: cl(p) for k, p in pan.items()}
def cl(p):
    # panic conditions that mention open variables are existentially closed conservatively
    return p
adapter("map", "map"); adapter("filter", "filter"); adapter("flat_map", "flat"); adapter("filter_map", "filter_map")
@model("Iterator::inspect")
def m_inspect(ev, st, a, c): return a[0]
@model("Iterator::flatten")
def m_flatten(ev, st, a, c):
    return IT(bind_seq(seq_of(ev, st, a[0]), lambda x: seq_of(ev, st, deref_ref(ev, st, x))))
def deref_ref(ev, st, x): return x
@model("Iterator::copied", "Iterator::cloned", "Iterator::by_ref", "Iterator::fuse", "Iterator::peekable")
def m_copied(ev, st, a, c):
    s = seq_of(ev, st, a[0])
    return IT(map_seq(s, lambda x: deref(ev, st, x))) if has_ref(s) else IT(s)
def has_ref(s):
    r = [False]
    seen = set()
    def go(t):
        if t in seen or r[0]: return
        seen.add(t)
        if t.op == "ref": r[0] = True; return
        l = []
        for x in t.args: tm._walk(x, l)
        for x in l: go(x)
    go(s)
    return r[0]
def regs(s, what, ev):
    r = regular(s)
    if r is None: raise ev_mod().Undecided(what + " of an irregular sequence")
    return r
def mapreg(s, f):
    """f(n, item function) on each leaf of the sequence"""
    return vapply(f, s)
@model("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def m_enumerate(ev, st, a, c):
    def leaf(s):
        if s.op == "cat": 
            if all(x.op == "arr" for x in s.args): return arr(*[mk_tup(q(i), x.args[0]) for i, x in enumerate(s.args)])
            out = []; off = ZERO
            for x in s.args:
                n, f = regs2(x); v = fresh()
                o = off
                out.append(flat_v(n, v, with_depth(lambda: mk("arr", mk_tup(apply(add, o, v), f(v))))))
                off = apply(add, off, n)
            return cat(*out)
        if s.op == "arr": return arr(*[mk_tup(q(i), x) for i, x in enumerate(s.args)])
        n, f = regs2(s)
        v = fresh()
        return vapply(lambda k: flat_v(k, v, with_depth(lambda: mk("arr", mk_tup(v, f(v))))), n)
    return IT(vapply(leaf, seq_of(ev, st, a[0])))
def regs2(s):
    r = regular(s)
    if r is not None: return r
    return length(s), lambda i: idx(s, i)
def minlen(n, m):
    I = ev_mod().INF
    if n is I: return m
    if m is I or n is m: return n
    return ite(lt(n, m), n, m)
@model("Iterator::zip", "IndexedParallelIterator::zip")
def m_zip(ev, st, a, c):
    s1 = seq_of(ev, st, a[0]); s2 = seq_of(ev, st, a[1])
    def leaf(x, y):
        if x.op == "arr" and y.op == "arr": return arr(*[mk_tup(p, r) for p, r in zip(x.args, y.args)])
        n, f = regs2(x); m, g = regs2(y)
        v = fresh()
        return vapply(lambda k: flat_v(k, v, with_depth(lambda: mk("arr", mk_tup(f(v), g(v))))), minlen(n, m))
    return IT(tm._vap2(leaf, s1, s2))
@model("Iterator::chain")
def m_chain(ev, st, a, c): return IT(cat2(seq_of(ev, st, a[0]), seq_of(ev, st, a[1])))
def cat2(x, y):
    if x.op == "dec" or y.op == "dec": return tm._vap2(lambda p, r: cat(p, r), x, y)
    return cat(x, y)
@model("Iterator::rev")
def m_rev(ev, st, a, c): return IT(rev_seq(seq_of(ev, st, a[0])))
@model("Iterator::skip")
def m_skip(ev, st, a, c):
    s = seq_of(ev, st, a[0])
    return IT(vapply(lambda l: do_slice(l, a[1], None), s))
def do_slice(l, lo, n):
    if tm.texty(l): return apply(lambda i, k: tm.strslice(l, i, k), lo, n) if n is not None else apply(lambda i: tm.strslice(l, i, None), lo)
    if l.op == "arr" and isq(lo) and (n is None or isq(n)):
        i = int(qv(lo)); xs = l.args[i:]
        if n is not None: xs = xs[:int(qv(n))]
        return arr(*xs)
    if l.op == "cat" and isq(lo) and all(x.op == "arr" for x in l.args[:int(qv(lo))]) and n is None: return cat(*l.args[int(qv(lo)):])
    if n is None:
        I = ev_mod().INF
        r = regular(l)
        ln, f = r if r else (length(l), lambda i: idx(l, i))
        v = fresh()
        cnt = ln if ln is I else apply(sub, ln, lo)
        return vapply(lambda k: flat_v(k, v, with_depth(lambda: mk("arr", f(apply(add, v, lo))))), cnt)
    r = regular(l)
    ln, f = r if r else (length(l), lambda i: idx(l, i))
    v = fresh()
    rem = ln if ln is ev_mod().INF else apply(sub, ln, lo)
    cnt = minlen(rem, n)
    return vapply(lambda k: flat_v(k, v, with_depth(lambda: mk("arr", f(apply(add, v, lo))))), cnt)
@model("Iterator::take")
def m_take(ev, st, a, c):
    s = seq_of(ev, st, a[0])
    return IT(vapply(lambda l: do_slice(l, ZERO, a[1]), s))
@model("Iterator::step_by")
def m_step(ev, st, a, c):
    s = seq_of(ev, st, a[0]); n, f = regs2(s); v = fresh()
    cnt = apply(lambda x, k: ev_mod().idiv(add(x, sub(k, ONE)), k), n, a[1])
    return IT(vapply(lambda k: flat_v(k, v, with_depth(lambda: mk("arr", f(apply(mul, v, a[1]))))), cnt))
@model("Iterator::sum")
def m_sum(ev, st, a, c): return sum_seq(map_seq(seq_of(ev, st, a[0]), lambda x: D(ev, st, x)))
@model("Iterator::product")
def m_product(ev, st, a, c): return fold_seq(seq_of(ev, st, a[0]), ONE, lambda x, y: apply(mul, x, D(ev, st, y)))
@model("Iterator::count", "ExactSizeIterator::len")
def m_count(ev, st, a, c): return length(seq_of(ev, st, deref(ev, st, a[0])))
def pred(ev, st, clo):
    def f(x):
        v, s2, cnd, pn = ev.call_value(clo, [x], dict(st))
        return BOT if v is None else tb(v)
    return f
@model("Iterator::any")
def m_any(ev, st, a, c): return any_seq(seq_of(ev, st, deref(ev, st, a[0])), pred(ev, st, a[1]))
@model("Iterator::all")
def m_all(ev, st, a, c):
    p = pred(ev, st, a[1])
    return b_not(any_seq(seq_of(ev, st, deref(ev, st, a[0])), lambda x: b_not(p(x))))
def find_first(ev, s, p, mkres):
    """Option of mkres(position, item) for the first item with p"""
    def leaf(l):
        if l.op == "arr" or l.op == "cat":
            parts = [(mk("arr", x)) for x in l.args] if l.op == "arr" else list(l.args)
            tag = ZERO; val = BOT; off = ZERO
            segs = []
            for x in parts:
                if x.op == "arr":
                    c = p(x.args[0]); segs.append((c, mkres(off, x.args[0])))
                else:
                    n, f = regs2(x); v = fresh()
                    cv = with_depth(lambda: p(f(v)))
                    k = first_v(n, v, cv)
                    o = off
                    segs.append((any_v(n, v, cv), vapply(lambda kk: mkres(apply(add, o, kk), f(kk)), k)))
                off = apply(add, off, length(x))
            for c, r in reversed(segs):
                tag = b_or(c, tag); val = ite(c, r, val)
            return ev_mod().opt(tag, val)
        if l.op == "flat":
            h, n, b = l.args
            if b.op == "dec" and set_ok(b):
                # filtered: item or nothing
                v = fresh()
                bb = subst_bv(b, h, v)
                cv = with_depth(lambda: any_seq(bb, p))
                k = first_v(n, v, cv)
                item = vapply(lambda kk: vapply(lambda s: BOT if s is NIL else s.args[0], subst(bb, {v: kk})), k)
                return ev_mod().opt(any_v(n, v, cv), mkres(mk("fpos", l), item))
        n, f = regs2(l); v = fresh()
        cv = with_depth(lambda: p(f(v)))
        def one_n(n):
            k = first_v(n, v, cv)
            return ev_mod().opt(any_v(n, v, cv), vapply(lambda kk: mkres(kk, f(kk)), k))
        return vapply(one_n, n)
    return vapply(leaf, s)
def set_ok(b):
    if b.op == "dec": return all(k is BOT or set_ok(k) for k in b.args[2])
    return b is NIL or b.op == "arr" and len(b.args) == 1
@model("Iterator::position")
def m_position(ev, st, a, c): return find_first(ev, seq_of(ev, st, deref(ev, st, a[0])), pred(ev, st, a[1]), lambda i, x: i)
@model("Iterator::find")
def m_find(ev, st, a, c): return find_first(ev, seq_of(ev, st, deref(ev, st, a[0])), pred(ev, st, a[1]), lambda i, x: x)
@model("Iterator::find_map")
def m_find_map(ev, st, a, c):
    r, st2, pan = effectful_map(ev, st, seq_of(ev, st, deref(ev, st, a[0])), a[1], "filter_map")
    return find_first(ev, r, lambda x: ONE, lambda i, x: x)
@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(ev, st, a, c):
    r = a[0]; E = ev_mod()
    v = deref(ev, st, r)
    s = seq_of(ev, st, v)
    if c.info["name"] == "next_back":
        def last(l):
            if l.op == "arr": return mk("tup", E.SOME(l.args[-1]) if l.args else E.NONE(), IT(arr(*l.args[:-1])))
            n, f = regs2(l)
            return vapply(lambda k: mk("tup", E.opt(lt(ZERO, k), f(tm.sub(k, ONE))), IT(do_slice(l, ZERO, tm.sub(k, ONE)))), n)
        t = vapply(last, s)
        if r.op == "ref": wr(ev, st, r, fld(t, 1))
        return fld(t, 0)
    def leaf(l):
        if l.op == "arr": 
            return E.mk("tup", E.SOME(l.args[0]) if l.args else E.NONE(), IT(arr(*l.args[1:])))
        if l.op == "cat" and l.args[0].op == "arr": return mk("tup", E.SOME(l.args[0].args[0]), IT(cat(*l.args[1:])))
        n, f = regs2(l)
        return mk("tup", E.opt(lt(ZERO, n), f(ZERO)), IT(do_slice(l, ONE, None)))
    t = vapply(leaf, s)
    if r.op == "ref": wr(ev, st, r, fld(t, 1))
    return fld(t, 0)
@model("Iterator::last", "slice::last")
def m_last(ev, st, a, c):
    s = seq_of(ev, st, deref(ev, st, a[0])); E = ev_mod()
    def leaf(l):
        if l.op == "arr": return E.SOME(l.args[-1]) if l.args else E.NONE()
        n, f = regs2(l)
        return E.opt(lt(ZERO, n), f(apply(sub, n, ONE)))
    return vapply(leaf, s)
@model("slice::first")
def m_first(ev, st, a, c):
    s = deref(ev, st, a[0]); E = ev_mod()
    return vapply(lambda l: E.opt(lt(ZERO, length(l)), idx(l, ZERO)), s)
@model("Iterator::nth")
def m_nth(ev, st, a, c):
    s = seq_of(ev, st, deref(ev, st, a[0])); E = ev_mod()
    return vapply(lambda l: E.opt(lt(a[1], length(l)), regs2(l)[1](a[1])), s)
@model("Iterator::fold")
def m_fold(ev, st, a, c):
    E = ev_mod()
    seq = seq_of(ev, st, deref(ev, st, a[0]))
    cell = ("acc", tm._uid[0]); tm._uid[0] += 1
    st = dict(st); st[cell] = a[1]
    def run(s, x):
        r = E.Ev.Res(); s = dict(s)
        v, s2, cnd, pn = ev.call_value(a[2], [s[cell], x], s)
        r.pan = dict(pn)
        if v is None: return r
        s2 = dict(s2); s2[cell] = v; r.cont.append((cnd, s2)); return r
    res = E.Ev.Res()
    fin = ev.foreach(ev.dummy_frame(), seq, st, run, res)
    if fin is None: return None
    cnd, s = fin; s = dict(s); v = s.pop(cell)
    return v, s, cnd, res.pan
@model("Iterator::for_each", "ParallelIterator::for_each")
def m_for_each(ev, st, a, c): return for_each(ev, st, a[0], lambda s, x: ev.call_value(a[1], [x], s))
def for_each(ev, st, it, f):
    E = ev_mod()
    seq = seq_of(ev, st, it)
    def run(s, x):
        r = E.Ev.Res()
        v, s2, cnd, pn = f(dict(s), x)
        r.pan = dict(pn)
        if v is not None: r.cont.append((cnd, s2))
        return r
    res = E.Ev.Res()
    fin = ev.foreach(ev.dummy_frame(), seq, dict(st), run, res)
    if fin is None: return None
    return UNIT, fin[1], fin[0], res.pan
@model("ParallelIterator::for_each_with")
def m_for_each_with(ev, st, a, c):
    cell = ("acc", tm._uid[0]); tm._uid[0] += 1
    st = dict(st); st[cell] = a[1]
    return for_each(ev, st, a[0], lambda s, x: ev.call_value(a[2], [mk("ref", cell, ()), x], s))
def m_minmax(op):
    def f(ev, st, a, c):
        s = seq_of(ev, st, deref(ev, st, a[0]))
        s = map_seq(s, lambda x: D(ev, st, x))
        def leaf(l):
            if l.op == "arr" and l.args:
                r = l.args[0]
                for x in l.args[1:]: r = vmax(r, x) if op == "max" else vmin(r, x)
                return ev_mod().SOME(r)
            return ev_mod().opt(lt(ZERO, length(l)), mk(op + "of", l))
        return vapply(leaf, s)
    return f
M["Iterator::max"] = m_minmax("max"); M["Iterator::min"] = m_minmax("min")
def vmax(a, b): return apply(lambda x, y: ite(lt(y, x), x, y), a, b)
def vmin(a, b): return apply(lambda x, y: ite(lt(y, x), y, x), a, b)
@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter")
def m_collect(ev, st, a, c):
    s = seq_of(ev, st, a[0])
    ty = None
    if c.info["name"] == "collect": ty = c.targs[-1] if c.targs else None
    elif c.targs: ty = c.targs[0]
    return collect_as(ev, st, s, ty)
def collect_as(ev, st, s, ty):
    if has_ref(s): s = ev.deep(s, st) if not keep_refs(ty) else s
    n = short(ty["key"]) if ty and ty["k"] == "adt" else None
    if n in ("BTreeMap", "HashMap"): return insall_m(mk("map0"), s)
    if n in ("Result", "Option"):
        # first failure wins
        bad = 1 if n == "Result" else 0
        E = ev_mod()
        s2 = map_seq(s, lambda x: x if x.op == "en" else expand_en(x, n))
        anyb = any_seq(s2, lambda x: eq(discr(x), q(bad)))
        good = map_seq(s2, lambda x: vfield(x, 1 - bad, 0))
        inner = ty["args"][0] if ty["args"] else None
        g = collect_as(ev, st, good, inner)
        if n == "Option": return mk_en("Option", b_not(anyb), ((1, (g,)),))
        ff = find_first(ev, s2, lambda x: eq(discr(x), ONE), lambda i, x: vfield(x, 1, 0))
        return mk_en("Result", anyb, ((0, (g,)), (1, (vfield(ff, 1, 0),))))
    if n in ("HashSet", "BTreeSet"): return mk("setof", s)
    if n == "String": return bind_seq(s, lambda x: x if is_seq(x) else mk("arr", mk("dsp", "", x)))
    return s
def keep_refs(ty):
    return bool(ty) and "&mut" in ty["s"]
def insall_m(m, s):
    return vapply(lambda l: insall(m, l), s) if s.op == "dec" else insall(m, s)
@model("Iterator::unzip")
def m_unzip(ev, st, a, c):
    s = seq_of(ev, st, a[0])
    return mk_tup(map_seq(s, lambda x: fld(x, 0)), map_seq(s, lambda x: fld(x, 1)))
@model("Iterator::partition")
def m_partition(ev, st, a, c):
    s = seq_of(ev, st, a[0]); p = pred(ev, st, a[1])
    return mk_tup(bind_seq(s, lambda x: ite(p(x), mk("arr", x), NIL)), bind_seq(s, lambda x: ite(p(x), NIL, mk("arr", x))))
@model("array::map")
def m_arrmap(ev, st, a, c):
    r, st2, pan = effectful_map(ev, st, seq_of(ev, st, arrx(a[0])), a[1], "map")
    return r, st2, ONE, {}
def arrx(x):
    if x in ARRN: return tm.arr_expand(x)
    return x
@model("array::from_fn")
def m_from_fn(ev, st, a, c):
    n = None
    raise ev_mod().Undecided("array::from_fn")

# Vec / SmallVec / slices -----------------------------------------------------------------
@model("Vec::new", "SmallVec::new", "String::new", "BytesMut::new", "Vec::with_capacity", "SmallVec::with_capacity", "String::with_capacity", "BytesMut::with_capacity", "VecDeque::new")
def m_vnew(ev, st, a, c): return NIL
@model("HashMap::new", "BTreeMap::new", "HashMap::with_capacity", "Object::with_capacity", "Object::new", "HashMap::default")
def m_mnew(ev, st, a, c): return mk("map0")
@model("Default::default")
def m_default(ev, st, a, c):
    ts = c.info.get("targs") or []
    t = ev.tsubst(ts[0], c.fr.tsub if c.fr else {}) if ts else (c.targs[0] if c.targs else None)
    v = default_of(ev, t) if t is not None else None
    if v is not None: return v
    return ev.opaque_call("default<%s>" % (short_ty(t["s"]) if t else "?"), [], st, [], False)
def default_of(ev, t):
    if t["k"] == "adt":
        n = short(t["key"])
        if n in ("Vec", "SmallVec", "String", "VecDeque"): return NIL
        if n in ("BTreeMap", "HashMap"): return mk("map0")
        if n == "Option": return ev_mod().NONE()
        if n in ("Box", "Arc", "Rc") and t.get("args"): return default_of(ev, t["args"][0])
    if t["k"] == "prim":
        if t["s"] == "bool" or t["s"] in ev_mod().Ev.RNG or t["s"].startswith("f"): return ZERO
        if t["s"] == "()": return UNIT
    if t["k"] == "array" and t.get("len") is not None and t["len"] <= 16:
        v = default_of(ev, t["of"])
        return mk("arr", *[v] * t["len"]) if v is not None else None
    if t["k"] == "tuple":
        vs = [default_of(ev, x) for x in t.get("of") or t.get("args") or []]
        return mk_tup(*vs) if vs and None not in vs else None
    return None
@model("iter::once", "iter::once_with")
def m_once(ev, st, a, c):
    if c.info["name"] == "once": return IT(mk("arr", a[0]))
    v, s2, cnd, pn = ev.call_value(a[0], [], st)
    return IT(mk("arr", v)), s2, cnd, pn
@model("iter::empty")
def m_empty(ev, st, a, c): return IT(NIL)
def app(ev, st, r, s):
    v = ev.read_ref(r, st) if ev_mod().is_refy(r) else r
    wr(ev, st, r, cat2(deref(ev, st, v), s))
@model("Vec::push", "SmallVec::push", "VecDeque::push_back", "JsonValue::push")
def m_push(ev, st, a, c):
    app(ev, st, a[0], mk("arr", a[1]))
    if c.info["name"] == "push" and "JsonValue" in c.info["path"]: return ev_mod().OK(UNIT)
    return UNIT
@model("Extend::extend", "Vec::extend_from_slice", "SmallVec::extend_from_slice", "Vec::append")
def m_extend(ev, st, a, c):
    x = a[1]
    if c.info["name"] == "append":
        s = deref(ev, st, x); wr(ev, st, x, NIL); app(ev, st, a[0], s); return UNIT
    v = deref(ev, st, a[0])
    if c.info["name"] != "extend": s = D(ev, st, x)
    else: s = seq_of(ev, st, x)
    if has_ref(s): s = ev.deep(s, st)
    if v.op in ("map0", "ins", "insall") or is_map(v): wr(ev, st, a[0], insall_m(v, s)); return UNIT
    app(ev, st, a[0], s); return UNIT
@model("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact", "HashMap::reserve", "SmallVec::reserve", "String::reserve", "SmallVec::shrink_to_fit")
def m_noop(ev, st, a, c): return UNIT
@model("Vec::len", "slice::len", "SmallVec::len", "BTreeMap::len", "HashMap::len", "String::len", "str::len", "VecDeque::len")
def m_len(ev, st, a, c):
    v = deref(ev, st, a[0])
    if v.op in ("map0", "ins", "insall") or is_map(v): return maplen(v)
    return length(v)
REBUILD["maplen"] = lambda a, t: maplen(a[0])
@model("Vec::is_empty", "slice::is_empty", "SmallVec::is_empty", "BTreeMap::is_empty", "HashMap::is_empty", "String::is_empty", "str::is_empty")
def m_is_empty(ev, st, a, c): return eq(m_len(ev, st, a, c), ZERO)
@model("Vec::insert", "SmallVec::insert")
def m_vinsert(ev, st, a, c):
    v = deref(ev, st, a[0])
    if isq(a[1]) and qv(a[1]) == 0: wr(ev, st, a[0], cat2(mk("arr", a[2]), v)); return UNIT
    cut = lambda lo, n: vapply(lambda l: do_slice(l, lo, n), v)
    wr(ev, st, a[0], cat2(cat2(cut(ZERO, a[1]), mk("arr", a[2])), cut(a[1], None))); return UNIT
@model("slice::rotate_left", "slice::rotate_right")
def m_rotate(ev, st, a, c):
    v = deref(ev, st, a[0])
    k = a[1] if c.info["name"] == "rotate_left" else apply(sub, length(v), a[1])
    wr(ev, st, a[0], cat2(vapply(lambda l: do_slice(l, k, None), v), vapply(lambda l: do_slice(l, ZERO, k), v))); return UNIT
@model("Vec::remove", "Vec::swap_remove", "SmallVec::remove")
def m_vremove(ev, st, a, c):
    v = deref(ev, st, a[0])
    r = idx(v, a[1])
    if c.info["name"] == "swap_remove":
        last = apply(sub, length(v), ONE); w = upd(v, a[1], idx(v, last))
        wr(ev, st, a[0], vapply(lambda l: do_slice(l, ZERO, last), w)); return r
    if isq(a[1]) and qv(a[1]) == 0: wr(ev, st, a[0], vapply(lambda l: do_slice(l, ONE, None), v)); return r
    cut = lambda lo, n: vapply(lambda l: do_slice(l, lo, n), v)
    wr(ev, st, a[0], cat2(cut(ZERO, a[1]), cut(apply(add, a[1], ONE), None))); return r
@model("Vec::pop", "SmallVec::pop")
def m_pop(ev, st, a, c):
    v = deref(ev, st, a[0]); E = ev_mod()
    def leaf(l):
        if l.op == "arr": return mk("tup", E.SOME(l.args[-1]) if l.args else E.NONE(), arr(*l.args[:-1]))
        if l.op == "cat" and l.args[-1].op == "arr" and l.args[-1].args:
            return mk("tup", E.SOME(l.args[-1].args[-1]), cat2(tm.cat(*l.args[:-1]), arr(*l.args[-1].args[:-1])))
        n = length(l)
        return mk("tup", E.opt(lt(ZERO, n), idx(l, apply(sub, n, ONE))), ite(lt(ZERO, n), do_slice(l, ZERO, apply(sub, n, ONE)), NIL))
    t = vapply(leaf, v)
    wr(ev, st, a[0], fld(t, 1)); return fld(t, 0)
@model("Vec::clear", "BTreeMap::clear", "HashMap::clear", "SmallVec::clear", "String::clear")
def m_clear(ev, st, a, c):
    v = deref(ev, st, a[0])
    wr(ev, st, a[0], mk("map0") if v.op in ("map0", "ins", "insall") or is_map(v) else NIL); return UNIT
@model("Vec::truncate", "SmallVec::truncate")
def m_truncate(ev, st, a, c):
    v = deref(ev, st, a[0]); wr(ev, st, a[0], vapply(lambda l: do_slice(l, ZERO, a[1]), v)); return UNIT
@model("Vec::drain", "SmallVec::drain")
def m_drain(ev, st, a, c):
    v = deref(ev, st, a[0]); r = a[1]
    if r.op == "st" and r.args[0] == "RangeFull": lo, hi = ZERO, None
    else: lo, hi = range_bounds(r)
    if lo is ZERO and hi is None:
        wr(ev, st, a[0], NIL); return IT(v)
    n = None if hi is None else apply(sub, hi, lo)
    d = vapply(lambda l: do_slice(l, lo, n), v)
    rest = vapply(lambda l: do_slice(l, ZERO, lo), v)
    if hi is not None: rest = cat2(rest, vapply(lambda l: do_slice(l, hi, None), v))
    wr(ev, st, a[0], rest); return IT(d)
def range_bounds(r):
    if r.op == "st":
        k = r.args[0]; f = r.args[1]
        if k == "Range": return f[0], f[1]
        if k == "RangeFrom": return f[0], None
        if k == "RangeTo": return ZERO, f[0]
        if k == "RangeToInclusive": return ZERO, apply(add, f[0], ONE)
        if k == "RangeInclusive": return f[0], apply(add, f[1], ONE)
        if k == "RangeFull": return ZERO, None
    return None
@model("RangeInclusive::new")
def m_rinc(ev, st, a, c): return mk_st("RangeInclusive", (a[0], a[1]))
@model("Range::contains", "RangeInclusive::contains")
def m_rcontains(ev, st, a, c):
    r = D(ev, st, a[0]); x = D(ev, st, a[1]); f = r.args[1]
    fl = "f64" in str(c.info.get("self", ""))
    return b_and(le(f[0], x, fl), lt(x, f[1], fl) if r.args[0] == "Range" else le(x, f[1], fl))
@model("Index::index")
def m_index(ev, st, a, c):
    r = a[0]; i = a[1]
    v = deref(ev, st, r)
    ty = peel(c.info["self"]) if "self" in c.info else None
    i = deref(ev, st, i)
    if ty is not None and ty["k"] == "adt" and short(ty["key"]) == "JsonValue": return apply(lambda x, y: mk("jget", x, y), v, ev.deep(i, st))
    if ty is not None and ty["k"] == "adt" and short(ty["key"]) in ("BTreeMap", "HashMap"):
        return mget(v, ev.deep(i, st))
    if ty is not None and ty["k"] == "adt" and short(ty["key"]) in ("Matrix",):
        return apply(lambda x, y: mk("matidx", x, y), ev.deep(v, st), ev.deep(i, st))
    if i.op == "st":
        lo, hi = range_bounds(i)
        if ty is not None and (ty["s"] == "str" or ty["k"] == "adt" and short(ty["key"]) == "String"):
            return apply(lambda l, x, y: tm.strslice(l, x, None if hi is None else sub(y, x)), v, lo, ZERO if hi is None else hi)
        return vapply(lambda l: do_slice(l, lo, None if hi is None else apply(sub, hi, lo)), v)
    if "index" in ev.strict: return idx(v, i), st, ONE, {"index": b_or(le(length(v), i), lt(i, ZERO))}
    return idx(v, i)
@model("IndexMut::index_mut", "slice::get_unchecked_mut")
def m_index_mut(ev, st, a, c):
    r = a[0]; i = deref(ev, st, a[1])
    ty = peel(c.info["self"]) if "self" in c.info else None
    if ty is not None and ty["k"] == "adt" and short(ty["key"]) == "JsonValue":
        return vapply(lambda l: mk("ref", l.args[0], l.args[1] + (("m", ev.deep(i, st)),)), inner_ref(ev, st, r))
    if i.op == "st":
        lo, hi = range_bounds(i)
        raise ev_mod().Undecided("mutable slice")
    ir = inner_ref(ev, st, r)
    def leaf(l):
        return vapply(lambda j: mk("ref", l.args[0], l.args[1] + (("i", j),)), i)
    if "index" in ev.strict: return vapply(leaf, ir), st, ONE, {"index": b_or(le(length(ev.read_ref(ir, st)), i), lt(i, ZERO))}
    return vapply(leaf, ir)
def inner_ref(ev, st, r):
    while r.op == "ref":
        v = ev.read_ref(r, st)
        if v.op == "ref": r = v
        else: break
    if not ev_mod().is_refy(r): raise ev_mod().Undecided("mutable access through an unknown reference")
    return r
@model("Matrix::get", "base::get")
def m_matget(ev, st, a, c):
    """an entry of a dense matrix or vector (asked for within its bounds)"""
    E = ev_mod()
    return apply(lambda x, y: E.opt(ONE, mk("matidx", x, y)), ev.deep(deref(ev, st, a[0]), st), ev.deep(deref(ev, st, a[1]), st))
@model("slice::get", "Vec::get", "SmallVec::get")
def m_get(ev, st, a, c):
    v = deref(ev, st, a[0]); i = deref(ev, st, a[1]); E = ev_mod()
    if i.op == "st": raise E.Undecided("slice::get(range)")
    return vapply(lambda l: E.opt(b_and(lt(i, length(l)), ONE), idx(l, i)), v)
@model("slice::get_mut", "Vec::get_mut", "slice::last_mut", "slice::first_mut")
def m_get_mut(ev, st, a, c):
    E = ev_mod(); r = inner_ref(ev, st, a[0]); v = ev.read_ref(r, st)
    n = c.info["name"]
    i = a[1] if n == "get_mut" else (apply(sub, length(v), ONE) if n == "last_mut" else ZERO)
    ok = lt(i, length(v)) if n == "get_mut" else lt(ZERO, length(v))
    return E.opt(ok, vapply(lambda l: mk("ref", l.args[0], l.args[1] + (("i", i),)), r))
@model("slice::contains", "Vec::contains", "SmallVec::contains")
def m_contains(ev, st, a, c):
    x = D(ev, st, a[1])
    return any_seq(D(ev, st, a[0]), lambda y: eq(y, x))
@model("str::split_at")
def m_split_at(ev, st, a, c):
    v = D(ev, st, a[0]); i = D(ev, st, a[1])
    f = lambda l, k: mk("tup", tm.strslice(l, ZERO, k), tm.strslice(l, k, None))
    return apply(f, v, i)
@model("slice::split_at")
def m_split_at_s(ev, st, a, c):
    v = D(ev, st, a[0]); i = D(ev, st, a[1])
    f = lambda l, k: mk("tup", do_slice(l, ZERO, k), do_slice(l, k, None))
    return apply(f, v, i)
@model("str::contains")
def m_strcontains(ev, st, a, c):
    return tb(apply(lambda x, y: mk("strin", x, y), D(ev, st, a[0]), D(ev, st, a[1])))
@model("slice::to_vec", "Vec::to_vec", "SmallVec::from_vec", "Vec::into_boxed_slice", "SmallVec::to_vec", "SmallVec::into_vec", "Vec::as_slice", "Vec::as_ref", "slice::as_ref", "SmallVec::as_slice", "ToOwned::to_owned", "Vec::leak", "slice::into_vec", "SmallVec::from_slice", "SmallVec::from_buf", "array::as_slice")
def m_ident(ev, st, a, c): return D(ev, st, a[0])
@model("slice::iter_copied")
def m_x(ev, st, a, c): return a[0]
@model("Vec::as_mut_slice", "DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut")
def m_deref_mut(ev, st, a, c): return a[0] if a[0].op != "ref" else inner_ref(ev, st, a[0])
@model("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "String::as_str", "String::as_bytes", "str::as_bytes", "String::into_bytes", "Path::new", "OsStr::new", "PathBuf::as_path", "String::as_ref", "str::as_ref")
def m_deref(ev, st, a, c): return deref(ev, st, a[0])
@model("vec::from_elem", "from_elem")
def m_from_elem(ev, st, a, c):
    n = a[1]
    def leaf(k):
        if isq(k) and 0 <= qv(k) <= 64: return arr(*[a[0]] * int(qv(k)))
        return flat_v(k, fresh(), mk("arr", a[0]))
    return vapply(leaf, n)
@model("Box::new", "Arc::new", "Rc::new", "Box::pin", "Mutex::new", "RefCell::new", "hint::must_use", "convert::identity", "Cow::from", "Arc::clone", "Rc::clone", "BufWriter::new", "BufReader::new", "Option::copied", "Option::cloned", "Option::as_ref", "Option::as_deref", "Result::as_ref", "Box::leak", "LazyCell::new", "BufWriter::with_capacity", "black_box")
def m_id(ev, st, a, c):
    v = a[0]
    if c.info["name"] in ("copied", "cloned"):
        return map_opt(v, lambda x: deref(ev, st, x))
    if c.info["name"] in ("as_ref", "as_deref"): return deref(ev, st, v)
    return v
def map_opt(v, f):
    def leaf(l):
        if l.op != "en": l = expand_en(l, "Option")
        if l.op != "en": return l
        p = dict(l.args[2]).get(1)
        return mk_en("Option", l.args[1], ((1, (f(p[0]),)),)) if p else l
    return vapply(leaf, v)
@model("Mutex::lock")
def m_lock(ev, st, a, c): return ev_mod().OK(a[0])
@model("Box::new_uninit", "Box::<T>::new_uninit")
def m_new_uninit(ev, st, a, c):
    cell = ("box", tm._uid[0]); tm._uid[0] += 1
    st[cell] = mk("uninit")
    return mk("ref", cell, ())
@model("boxed::box_assume_init_into_vec_unsafe")
def m_bai(ev, st, a, c):
    v = uw(deref(ev, st, a[0]))
    if v.op == "uninit" or v is BOT: raise ev_mod().Undecided("vec! of an unknown array")
    return v
def uw(v):
    # vec![..] writes the array through MaybeUninit.value.value (ManuallyDrop)
    for _ in range(4):
        if v.op == "st" and v.args[0] in ("MaybeUninit", "ManuallyDrop"): v = v.args[1][-1]
        elif v.op == "setf": v = v.args[2]
        else: break
    return v
@model("mem::take", "mem::replace", "mem::swap")
def m_take_(ev, st, a, c):
    n = c.info["name"]
    r = inner_ref(ev, st, a[0]); v = ev.read_ref(r, st)
    if n == "replace": ev.write_ref(r, st, a[1]); return v
    if n == "swap":
        r2 = inner_ref(ev, st, a[1]); w = ev.read_ref(r2, st)
        ev.write_ref(r, st, w); ev.write_ref(r2, st, v); return UNIT
    if v.op in ("map0", "ins", "insall") or is_map(v): d = mk("map0")
    elif is_seq(v) or v in SEQATOMS: d = NIL
    elif v.op == "en" and v.args[0] == "Option": d = ev_mod().NONE()
    else: d = ZERO
    ev.write_ref(r, st, d); return v
@model("mem::drop", "drop")
def m_drop(ev, st, a, c): return UNIT
@model("slice::sort_by", "slice::sort", "slice::sort_unstable", "slice::sort_by_key", "slice::sort_unstable_by", "slice::reverse", "Vec::dedup", "slice::sort_unstable_by_key", "Vec::retain", "slice::swap")
def m_sort(ev, st, a, c):
    n = c.info["name"]; v = deref(ev, st, a[0])
    if n == "reverse": wr(ev, st, a[0], rev_seq(v)); return UNIT
    if n == "swap":
        x = idx(v, a[1]); y = idx(v, a[2])
        wr(ev, st, a[0], upd(upd(v, a[1], y), a[2], x)); return UNIT
    if n == "retain":
        p = pred(ev, st, a[1]); wr(ev, st, a[0], bind_seq(v, lambda x: ite(p(x), mk("arr", x), NIL))); return UNIT
    n = n.replace("_unstable", "")
    extra = tuple(ev.clo_lam(x, st) if x.op == "clo" else x for x in a[1:])
    wr(ev, st, a[0], vapply(lambda l: ev.outflag(mk("sorted", n, ev.deep(l, st), extra), l), v)); return UNIT

# Option / Result ---------------------------------------------------------------------------
def as_en(v, key):
    if v.op == "en": return v
    return vapply(lambda l: l if l.op == "en" else expand_en(l, key), v)
def kindof(c): return "Option" if "Option" in c.info["path"].split("::")[-2] or "Option" in c.info["path"] else "Result"
def un(ev, st, v, key):
    v = deref(ev, st, v)
    return as_en(v, key)
@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def m_unwrap(ev, st, a, c):
    k = kindof(c); v = un(ev, st, a[0], k)
    good = 1 if k == "Option" else 0
    bad = b_not(eq(discr(v), q(good)))
    if "state" in ev.strict:
        # an optional field of the state the function was given
        w = deref(ev, st, a[0]); ls = []; tm._leaves(w, ls, set())
        return vfield(v, good, 0), st, ONE, ({"state": bad} if ls and all(of_state(l) for l in ls) else {})
    return vfield(v, good, 0), st, ONE, ({"unwrap": bad} if "unwrap" in ev.strict else {})
def of_state(t):
    if t.op != "fld": return False
    while t.op in ("fld", "idx"): t = t.args[0]
    return t.op == "param"
@model("Result::unwrap_err", "Result::expect_err")
def m_unwrap_err(ev, st, a, c): return vfield(un(ev, st, a[0], "Result"), 1, 0)
@model("Option::is_some", "Result::is_err")
def m_is1(ev, st, a, c): return eq(discr(un(ev, st, a[0], kindof(c))), ONE)
@model("Option::is_none", "Result::is_ok")
def m_is0(ev, st, a, c): return eq(discr(un(ev, st, a[0], kindof(c))), ZERO)
def callv(ev, st, f, args):
    v, s2, cnd, pn = ev.call_value(f, args, dict(st))
    return v, s2, cnd, pn
def branchy(ev, st, cond, f1, f0):
    """evaluate one of two effectful computations; each returns (value, state, cond, panics)"""
    E = ev_mod()
    cond = tb(cond)
    if cond is ONE: return f1(dict(st))
    if cond is ZERO: return f0(dict(st))
    class F: id = -1
    edges = []; pan = {}
    for c, f in ((cond, f1), (b_not(cond), f0)):
        v, s, c2, pn = f(dict(st))
        for k, x in pn.items(): ev.addpan(pan, k, b_and(c, x))
        if v is not None:
            s = dict(s); s[("tmp", 0)] = v; edges.append((b_and(c, c2), s))
    if not edges: return None, None, ZERO, pan
    c, s = ev.merge(F, edges)
    s = dict(s); v = s.pop(("tmp", 0))
    return v, s, c, pan
def const_(x): return lambda s: (x, s, ONE, {})
@model("Option::map", "Result::map", "Result::map_err", "Option::and_then", "Result::and_then", "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::map_or", "Result::map_or", "Option::map_or_else", "Option::or_else", "Option::ok_or_else", "Option::filter", "Option::unwrap_or", "Result::unwrap_or", "Option::ok_or", "Result::ok", "Option::or", "Result::err", "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::is_some_and", "Option::zip", "Result::is_ok_and", "Option::and", "Result::or_else", "Option::is_none_or", "Option::xor")
def m_optfn(ev, st, a, c):
    E = ev_mod(); k = kindof(c); n = c.info["name"]
    v = un(ev, st, a[0], k)
    good = 1 if k == "Option" else 0
    isg = eq(discr(v), q(good))
    x = vfield(v, good, 0)
    err = vfield(v, 1, 0) if k == "Result" else None
    wrap = E.SOME if k == "Option" else E.OK
    def re(f, w): 
        def g(s):
            r = f(s)
            return (w(r[0]) if r[0] is not None else None,) + tuple(r[1:])
        return g
    call = lambda f, *xs: (lambda s: ev.call_value(f, list(xs), s))
    bad = E.NONE() if k == "Option" else E.ERR(err)
    if n == "map": return branchy(ev, st, isg, re(call(a[1], x), wrap), const_(bad))
    if n == "map_err": return branchy(ev, st, isg, const_(E.OK(x)), re(call(a[1], err), E.ERR))
    if n == "and_then": return branchy(ev, st, isg, call(a[1], x), const_(bad))
    if n == "unwrap_or_else": return branchy(ev, st, isg, const_(x), call(a[1]) if k == "Option" else call(a[1], err))
    if n == "unwrap_or": return ite(isg, x, a[1])
    if n == "map_or": return branchy(ev, st, isg, call(a[2], x), const_(a[1]))
    if n == "map_or_else": return branchy(ev, st, isg, call(a[2], x), call(a[1]) if k == "Option" else call(a[1], err))
    if n == "or_else": return branchy(ev, st, isg, const_(v), call(a[1]) if k == "Option" else call(a[1], err))
    if n == "or": return ite(isg, v, a[1])
    if n == "ok_or_else": return branchy(ev, st, isg, const_(E.OK(x)), re(call(a[1]), E.ERR))
    if n == "ok_or": return mk_en("Result", b_not(isg), ((0, (x,)), (1, (a[1],))))
    if n == "ok": return mk_en("Option", isg, ((1, (x,)),))
    if n == "err": return mk_en("Option", b_not(isg), ((1, (err,)),))
    if n == "filter":
        r = branchy(ev, st, isg, call(a[1], x), const_(ZERO))
        return (mk_en("Option", tb(r[0]), ((1, (x,)),)),) + tuple(r[1:])
    if n in ("is_some_and", "is_ok_and"): return branchy(ev, st, isg, call(a[1], x), const_(ZERO))
    if n == "is_none_or": return branchy(ev, st, isg, call(a[1], x), const_(ONE))
    if n == "and": return ite(isg, a[1], bad)
    if n == "unwrap_or_default": return ite(isg, x, NIL if is_seq(x) else ZERO)
    if n == "zip":
        w = un(ev, st, a[1], k)
        return mk_en("Option", b_and(isg, eq(discr(w), ONE)), ((1, (mk_tup(x, vfield(w, 1, 0)),)),))
    raise E.Undecided(n)
@model("Option::as_mut", "Option::as_deref_mut")
def m_as_mut(ev, st, a, c):
    E = ev_mod(); r = inner_ref(ev, st, a[0]); v = as_en(ev.read_ref(r, st), "Option")
    return E.opt(eq(discr(v), ONE), vapply(lambda l: mk("ref", l.args[0], l.args[1] + (("v", 1, 0),)), r))
@model("Option::take", "Option::replace", "Option::insert", "Option::get_or_insert_with", "Option::get_or_insert")
def m_opttake(ev, st, a, c):
    E = ev_mod(); r = inner_ref(ev, st, a[0]); v = ev.read_ref(r, st); n = c.info["name"]
    if n == "take": ev.write_ref(r, st, E.NONE()); return v
    if n == "replace": ev.write_ref(r, st, E.SOME(a[1])); return v
    if n == "insert": ev.write_ref(r, st, E.SOME(a[1])); return vapply(lambda l: mk("ref", l.args[0], l.args[1] + (("v", 1, 0),)), r)
    if n == "get_or_insert":
        v = as_en(v, "Option"); isg = eq(discr(v), ONE)
        ev.write_ref(r, st, ite(isg, v, E.SOME(a[1]))); return vapply(lambda l: mk("ref", l.args[0], l.args[1] + (("v", 1, 0),)), r)
    raise E.Undecided(n)
@model("Try::branch")
def m_branch(ev, st, a, c):
    E = ev_mod()
    ty = peel(c.info["self"]) if "self" in c.info else None
    k = short(ty["key"]) if ty else "Result"
    v = as_en(a[0], k)
    if k == "Result":
        return mk_en("ControlFlow", discr(v), ((0, (vfield(v, 0, 0),)), (1, (E.ERR(vfield(v, 1, 0)),))))
    return mk_en("ControlFlow", ite(eq(discr(v), ONE), ZERO, ONE), ((0, (vfield(v, 1, 0),)), (1, (E.NONE(),))))
@model("FromResidual::from_residual")
def m_residual(ev, st, a, c):
    E = ev_mod()
    ty = peel(c.info["self"]) if "self" in c.info else None
    k = short(ty["key"]) if ty else "Result"
    if k == "Option": return E.NONE()
    v = as_en(a[0], "Result")
    err = vfield(v, 1, 0)
    dst = ty["args"][1] if len(ty["args"]) > 1 else None
    src = None
    if len(c.targs) > 1 and c.targs[1]["k"] == "adt" and len(c.targs[1]["args"]) > 1: src = c.targs[1]["args"][1]
    return E.ERR(convert(ev, st, err, src, dst))
def convert(ev, st, x, src, dst):
    if src is None or dst is None or short_ty(src["s"]) == short_ty(dst["s"]): return x
    for b in ev.prog.names_by_method("from"):
        if b.j.get("impl_trait", "").endswith("::From") and b.j.get("impl_self") == dst["s"] and b.locals[1]["s"] == src["s"]:
            v, s2, cnd, pn = ev.call_body(b, [x], st, {})
            return BOT if v is None else v
    if dst["s"].endswith("String"): return x
    if dst["s"].startswith("std::boxed::Box<dyn"): return mk("boxdyn", x)
    if dst["k"] == "prim" or dst["k"] == "array" or (dst["k"] == "adt" and short(dst["key"]) in ("Vec", "SmallVec", "Arc", "Box", "PathBuf", "OsString")): return x
    if dst["k"] == "adt" and short(dst["key"]) == "JsonValue": return x
    if dst["k"] == "adt" and short(dst["key"]) == "Option": return ev_mod().SOME(x)
    if dst["k"] == "adt" and short(dst["key"]) == "Complex" : return mk_st("Complex", (x, ZERO))
    return apply(lambda y: mk("from", short_ty(dst["s"]), y), x)
STRUCTS["Complex"] = ["re", "im"]
@model("Complex::new")
def m_complex(ev, st, a, c): return mk_st("Complex", (a[0], a[1]))
@model("From::from", "Into::into")
def m_from(ev, st, a, c):
    if c.info["name"] == "from":
        dst = c.targs[0] if c.targs else None; src = c.targs[1] if len(c.targs) > 1 else None
        if c.info.get("trait") is None: return a[0]
    else:
        src = c.targs[0] if c.targs else None; dst = c.targs[1] if len(c.targs) > 1 else None
    # impls of a generic Self (SmallVec<A> : From<A>): targs are the impl's own
    sty = c.info.get("self")
    tt = c.info.get("targs", [])
    if len(tt) > 1 and c.info["name"] == "from": dst, src = tt[0], tt[1]
    if len(tt) > 1 and c.info["name"] == "into": src, dst = tt[0], tt[1]
    if c.fr is not None:
        if dst is not None: dst = ev.tsubst(dst, c.fr.tsub)
        if src is not None: src = ev.tsubst(src, c.fr.tsub)
    return convert(ev, st, D(ev, st, a[0]), src, dst)
@model("TryFrom::try_from", "TryInto::try_into")
def m_try(ev, st, a, c):
    E = ev_mod()
    tt = c.info.get("targs", [])
    if c.info["name"] == "try_from": dst, src = (tt + [None, None])[:2]
    else: src, dst = (tt + [None, None])[:2]
    x = a[0]
    R = E.Ev.RNG
    if dst is not None and src is not None and dst["s"] in R and src["s"] in R:
        lo, hi = R[dst["s"]]; slo, shi = R[src["s"]]
        bad = ZERO
        if slo < lo: bad = b_or(bad, lt(x, q(lo)))
        if shi > hi: bad = b_or(bad, lt(q(hi), x))
        if bad is ZERO: return E.OK(x)
        return mk_en("Result", bad, ((0, (x,)), (1, (mk("TryFromIntError"),))))
    if dst is not None and dst["k"] == "array" and dst["len"] is not None:
        s = deref(ev, st, x)
        n = dst["len"]
        def leaf(l):
            ok = eq(length(l), q(n))
            return mk_en("Result", b_not(ok), ((0, (arr(*[idx(l, q(i)) for i in range(n)]),)), (1, (l,))))
        return vapply(leaf, s)
    for b in ev.prog.names_by_method("try_from"):
        if dst is not None and b.j.get("impl_self") == dst["s"] and src is not None and b.locals[1]["s"] == src["s"]:
            return ev.call_body(b, a, st, {})
    return None if False else ev.opaque_call("try_from<%s>" % (short_ty(dst["s"]) if dst else "?"), a, st, [], False)

# numbers -----------------------------------------------------------------------------------
def isf(c): return "f64" in (c.info.get("rpath") or c.info["path"]) or "f32" in (c.info.get("rpath") or c.info["path"]) or "f64" in str(c.info.get("self", {}).get("s", ""))
def num2(op):
    def f(ev, st, a, c): return ev.binop(op, D(ev, st, a[0]), D(ev, st, a[1]), "f64" if isf(c) else "i128")
    return f
for n, o in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem")):
    def mkm(o):
        g = num2(o)
        def f(ev, st, a, c):
            s = c.info.get("self")
            t = peel(s) if s else None
            if t is not None and t["k"] == "adt":
                return ev.opaque_call(c.info["trait"].split("::")[-1] + "<" + short(t["key"]) + ">", a, st, [], False)
            if t is not None and t["k"] == "param": return ev.opaque_call(n, a, st, [], False)
            return g(ev, st, a, c)
        return f
    M[n] = mkm(o)
@model("Neg::neg")
def m_neg(ev, st, a, c): return apply(neg, D(ev, st, a[0]))
for n, o in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul"), ("DivAssign::div_assign", "Div")):
    def mka(o):
        def f(ev, st, a, c):
            x = deref(ev, st, a[0]); y = D(ev, st, a[1])
            wr(ev, st, a[0], ev.binop(o, x, y, "f64" if isf(c) else "i128")); return UNIT
        return f
    M[n] = mka(o)
@model("f64::powi", "f32::powi")
def m_powi(ev, st, a, c):
    def f(x, n):
        if isq(n): 
            k = int(qv(n))
            return ipow(x, k)
        return mk("powi", x, n)
    return apply(f, a[0], a[1])
REBUILD["powi"] = lambda a, t: apply(lambda x, n: ipow(x, int(qv(n))) if isq(n) else mk("powi", x, n), *a)
@model("usize::pow", "u32::pow", "u64::pow", "i32::pow", "i64::pow", "u8::pow")
def m_pow(ev, st, a, c): return m_powi(ev, st, a, c)
def f_abs(x):
    s = lt(x, ZERO, True)
    return ite(s, neg(x), x)
@model("f64::abs", "f32::abs")
def m_abs(ev, st, a, c): return apply(f_abs, a[0])
@model("i8::abs", "i32::abs", "i64::abs", "isize::abs", "i8::unsigned_abs", "i32::unsigned_abs", "i16::abs", "i16::unsigned_abs")
def m_iabs(ev, st, a, c): return apply(lambda x: ite(lt(x, ZERO), neg(x), x), a[0])
@model("f64::sqrt", "f32::sqrt")
def m_sqrt(ev, st, a, c): return apply(f_sqrt, a[0])
def f_sqrt(x):
    if isq(x) and qv(x) >= 0:
        import math
        v = qv(x); n, d = v.numerator, v.denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return q(Fraction(math.isqrt(n), math.isqrt(d)))
    return mk("sqrt", x)
REBUILD["sqrt"] = lambda a, t: apply(f_sqrt, a[0])
def fun1(name):
    def f(ev, st, a, c): return apply(lambda x: mk("fn1", name, x), a[0])
    return f
for n in ("sin", "cos", "tan", "atan", "asin", "acos", "exp", "ln", "log2", "log10", "ceil", "floor", "round", "trunc", "fract", "signum", "cbrt"):
    M["f64::" + n] = fun1(n); M["f32::" + n] = fun1(n)
for n in ("is_sign_positive", "is_sign_negative", "is_nan", "is_finite", "is_infinite"):
    def mkp(n):
        def f(ev, st, a, c): return apply(lambda x: tb(flag(mk("fn1", n, x))), a[0])
        return f
    M["f64::" + n] = mkp(n)
def flag(t): FLAGS.add(t); return t
def fun2(name):
    def f(ev, st, a, c): return apply(lambda x, y: mk("fn2", name, x, y), a[0], a[1])
    return f
for n in ("atan2", "powf", "copysign", "rem_euclid"): M["f64::" + n] = fun2(n)
@model("f64::hypot")
def m_hypot(ev, st, a, c): return apply(lambda x, y: f_sqrt(add(mul(x, x), mul(y, y))), a[0], a[1])
@model("f64::mul_add")
def m_mul_add(ev, st, a, c): return apply(add, apply(mul, a[0], a[1]), a[2])
@model("f64::recip")
def m_recip(ev, st, a, c): return apply(div, ONE, a[0])
@model("f64::max", "f64::min", "f32::max", "f32::min")
def m_fmax(ev, st, a, c):
    if c.info["name"] == "max": return apply(lambda x, y: ite(lt(x, y, True), y, x), a[0], a[1])
    return apply(lambda x, y: ite(lt(y, x, True), y, x), a[0], a[1])
@model("cmp::max", "Ord::max")
def m_max(ev, st, a, c): return vmax(a[0], a[1])
@model("cmp::min", "Ord::min")
def m_min(ev, st, a, c): return vmin(a[0], a[1])
@model("Ord::clamp", "f64::clamp")
def m_clamp(ev, st, a, c):
    fl = isf(c)
    return apply(lambda x, l, h: ite(lt(x, l, fl), l, ite(lt(h, x, fl), h, x)), *a)
@model("cmp::max_by", "cmp::min_by")
def m_max_by(ev, st, a, c):
    v, s2, cnd, pn = ev.call_value(a[2], [a[0], a[1]], st)
    gt = eq(v, ONE)
    r = ite(gt, a[0], a[1]) if c.info["name"] == "max_by" else ite(gt, a[1], a[0])
    return r, s2, cnd, pn
@model("f64::to_bits")
def m_to_bits(ev, st, a, c): return apply(lambda x: mk("to_bits", x), a[0])
@model("f64::from_bits")
def m_from_bits(ev, st, a, c): return apply(lambda x: mk("from_bits", x), a[0])
def sat(op):
    def f(ev, st, a, c):
        t = (c.info.get("rpath") or c.info["path"])
        m = re.search(r"<impl (\w+)>", t)
        lo, hi = ev_mod().Ev.RNG.get(m.group(1) if m else "usize")
        r = apply({"add": add, "sub": sub, "mul": mul}[op], a[0], a[1])
        return apply(lambda x: ite(lt(x, q(lo)), q(lo), ite(lt(q(hi), x), q(hi), x)) if hi < 2**32 or op == "sub" else x, r)
    return f
def chk(op):
    def f(ev, st, a, c):
        t = (c.info.get("rpath") or c.info["path"]); E = ev_mod()
        m = re.search(r"<impl (\w+)>", t)
        lo, hi = E.Ev.RNG.get(m.group(1) if m else "usize")
        r = apply({"add": add, "sub": sub, "mul": mul}[op], a[0], a[1])
        bad = b_or(lt(r, q(lo)), lt(q(hi), r) if hi < 2**32 else ZERO)
        return E.opt(b_not(bad), r)
    return f
def wrp(op):
    def f(ev, st, a, c):
        t = (c.info.get("rpath") or c.info["path"]); E = ev_mod()
        m = re.search(r"<impl (\w+)>", t); ty = m.group(1) if m else "usize"
        lo, hi = E.Ev.RNG.get(ty)
        r = apply({"add": add, "sub": sub, "mul": mul}[op], a[0], a[1])
        if hi > 2**32: return r
        return apply(lambda x: ite(b_or(lt(x, q(lo)), lt(q(hi), x)), mk("trunc", ty, x), x), r)
    return f
for ty in ("u8", "i8", "u16", "i16", "u32", "i32", "usize", "u64", "i64"):
    for op in ("add", "sub", "mul"):
        M["%s::saturating_%s" % (ty, op)] = sat(op); M["%s::checked_%s" % (ty, op)] = chk(op); M["%s::wrapping_%s" % (ty, op)] = wrp(op)
    def absd(ev, st, a, c): return apply(lambda x, y: ite(lt(x, y), sub(y, x), sub(x, y)), a[0], a[1])
    M[ty + "::abs_diff"] = absd
    def ise(ev, st, a, c): return eq(ev_mod().irem(a[0], q(2)), ZERO)
# comparisons -------------------------------------------------------------------------------
def argty(c):
    t = c.info.get("targs", [])
    return peel(t[0]) if t else (peel(c.info["self"]) if "self" in c.info else None)
def user_impl(ev, c, trait, name):
    t = argty(c)
    if t is None: return None
    return ev.resolve_trait(trait, name, t, [])
@model("PartialEq::eq", "PartialEq::ne")
def m_eq(ev, st, a, c):
    x = D(ev, st, a[0]); y = D(ev, st, a[1])
    t = argty(c)
    fl = t is not None and t["s"] in ("f64", "f32")
    k2 = ev.resolve_trait("std::cmp::PartialEq", "eq", t, []) if t is not None and t["k"] == "adt" else None
    if k2:
        b = ev.prog.fns[k2]
        if not b.j.get("derived"):
            v, s2, cnd, pn = ev.call_body(b, [x, y], st, {})
            return (b_not(v) if c.info["name"] == "ne" else v), st, cnd, pn
    r = eq(x, y, fl)
    return b_not(r) if c.info["name"] == "ne" else r
@model("PartialOrd::partial_cmp", "Ord::cmp", "f64::total_cmp")
def m_cmp(ev, st, a, c):
    E = ev_mod()
    x = D(ev, st, a[0]); y = D(ev, st, a[1]); t = argty(c)
    fl = t is not None and t["s"] in ("f64", "f32") or "f64" in c.info["path"]
    r = cmpv(x, y, fl)
    return E.SOME(r) if c.info["name"] == "partial_cmp" else r
def cmpv(x, y, fl):
    E = ev_mod()
    if x.op in ("tup", "arr") and y.op == x.op and len(x.args) == len(y.args):
        r = ZERO
        for p, s in reversed(list(zip(x.args, y.args))):
            cc = cmpv(p, s, fl); rr = r
            r = ite(eq(cc, ZERO), rr, cc)
        return r
    return E.cmp_(x, y, fl)
@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_lt(ev, st, a, c):
    x = D(ev, st, a[0]); y = D(ev, st, a[1]); t = argty(c)
    fl = t is not None and t["s"] in ("f64", "f32"); n = c.info["name"]
    if t is not None and t["k"] == "adt":
        k2 = ev.resolve_trait("std::cmp::PartialOrd", "partial_cmp", t, [])
        if k2:
            v, s2, cnd, pn = ev.call_body(ev.prog.fns[k2], [x, y], st, {})
            o = vfield(as_en(v, "Option"), 1, 0)
        else: o = cmpv(x, y, fl)
        return {"lt": eq(o, q(-1)), "gt": eq(o, ONE), "le": b_not(eq(o, ONE)), "ge": b_not(eq(o, q(-1)))}[n]
    return {"lt": lt(x, y, fl), "le": le(x, y, fl), "gt": lt(y, x, fl), "ge": le(y, x, fl)}[n]
@model("Ordering::reverse")
def m_orev(ev, st, a, c): return apply(neg, a[0])
@model("Ordering::then", "Ordering::then_with")
def m_then(ev, st, a, c):
    if c.info["name"] == "then": return ite(eq(a[0], ZERO), a[1], a[0])
    return branchy(ev, st, eq(a[0], ZERO), lambda s: ev.call_value(a[1], [], s), const_(a[0]))
for n, f in (("is_lt", lambda o: eq(o, q(-1))), ("is_gt", lambda o: eq(o, ONE)), ("is_eq", lambda o: eq(o, ZERO)), ("is_ne", lambda o: b_not(eq(o, ZERO))), ("is_le", lambda o: b_not(eq(o, ONE))), ("is_ge", lambda o: b_not(eq(o, q(-1))))):
    M["Ordering::" + n] = (lambda f: lambda ev, st, a, c: f(a[0]))(f)
@model("Hash::hash")
def m_hash(ev, st, a, c):
    x = D(ev, st, a[0])
    app(ev, st, a[1], mk("arr", x)); return UNIT
@model("DefaultHasher::new")
def m_hnew(ev, st, a, c): return NIL
@model("Hasher::finish")
def m_hfin(ev, st, a, c): return apply(lambda x: mk("hash", x), D(ev, st, a[0]))

# maps --------------------------------------------------------------------------------------
@model("HashMap::insert", "BTreeMap::insert", "Object::insert")
def m_minsert(ev, st, a, c):
    E = ev_mod(); m = deref(ev, st, a[0]); k = ev.deep(a[1], st)
    old = E.opt(has(m, k), mget(m, k))
    wr(ev, st, a[0], ins(m, k, a[2]))
    return old
@model("HashMap::get", "BTreeMap::get")
def m_mget(ev, st, a, c):
    E = ev_mod(); m = deref(ev, st, a[0]); k = D(ev, st, a[1])
    return E.opt(has(m, k), typed_get(m, k))
def typed_get(m, k):
    r = mget(m, k)
    if r.op == "mget":
        ty = TY.get(r.args[0])
        if ty is not None and len(ty.get("args", [])) > 1: typed(r, ty["args"][1])
    return r
@model("HashMap::get_mut", "BTreeMap::get_mut")
def m_mgetmut(ev, st, a, c):
    E = ev_mod(); r = inner_ref(ev, st, a[0]); m = ev.read_ref(r, st); k = D(ev, st, a[1])
    return E.opt(has(m, k), vapply(lambda l: mk("ref", l.args[0], l.args[1] + (("m", k),)), r))
@model("HashMap::contains_key", "BTreeMap::contains_key")
def m_mhas(ev, st, a, c): return has(deref(ev, st, a[0]), D(ev, st, a[1]))
@model("HashMap::remove", "BTreeMap::remove")
def m_mremove(ev, st, a, c):
    E = ev_mod(); m = deref(ev, st, a[0]); k = D(ev, st, a[1])
    wr(ev, st, a[0], apply(lambda x, y: ev.outflag(mk("mremove", x, y), m), m, k))
    return E.opt(has(m, k), mget(m, k))
@model("BTreeMap::last_key_value", "BTreeMap::first_key_value")
def m_lastkv(ev, st, a, c):
    E = ev_mod(); m = D(ev, st, a[0]); es = map_entries(m); n = length(es)
    return E.opt(lt(ZERO, n), idx(es, apply(sub, n, ONE) if c.info["name"] == "last_key_value" else ZERO))
@model("BTreeMap::append")
def m_mappend(ev, st, a, c):
    m = deref(ev, st, a[0]); n = deref(ev, st, a[1])
    wr(ev, st, a[0], insall_m(m, map_entries(n))); wr(ev, st, a[1], mk("map0")); return UNIT
@model("HashMap::entry", "BTreeMap::entry")
def m_entry(ev, st, a, c): return mk("entry", inner_ref(ev, st, a[0]), ev.deep(a[1], st))
def ent(ev, st, e):
    r, k = e.args
    m = ev.read_ref(r, st)
    return r, k, m, vapply(lambda l: mk("ref", l.args[0], l.args[1] + (("m", k),)) if l.op == "ref" else l, r)
@model("Entry::and_modify")
def m_and_modify(ev, st, a, c):
    r, k, m, slot = ent(ev, st, a[0])
    v, s, cnd, pn = branchy(ev, st, has(m, k), lambda s: ev.call_value(a[1], [slot], s), const_(UNIT))
    return a[0], s, cnd, pn
@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def m_or_insert(ev, st, a, c):
    r, k, m, slot = ent(ev, st, a[0]); n = c.info["name"]
    def absent(s):
        if n == "or_insert": v, s2, cnd, pn = a[1], s, ONE, {}
        elif n == "or_insert_with": v, s2, cnd, pn = ev.call_value(a[1], [], s)
        else:
            v, s2, cnd, pn = NIL, s, ONE, {}
            ty = TY.get(m)
            if ty is not None and ty["k"] == "adt" and len(ty["args"]) > 1:
                v = default_of(ev, ty["args"][1])
                if v is None: raise ev_mod().Undecided("or_default of %s" % short_ty(ty["args"][1]["s"]))
        if v is None: return None, None, ZERO, pn
        s2 = dict(s2)
        ev.write_ref(r, s2, ins(ev.read_ref(r, s2), k, v))
        return UNIT, s2, cnd, pn
    v, s, cnd, pn = branchy(ev, st, has(m, k), const_(UNIT), absent)
    return slot, s, cnd, pn

# text, io ------------------------------------------------------------------------------------
@model("Argument::new_display", "Argument::new_lower_exp", "Argument::new_upper_exp", "Argument::from_usize", "Argument::new_lower_hex", "Argument::new_debug", "Argument::new_binary")
def m_arg(ev, st, a, c):
    n = c.info["name"].replace("new_", "")
    return mk("farg", n, D(ev, st, a[0]))
@model("Arguments::from_str")
def m_afs(ev, st, a, c): return D(ev, st, a[0])
@model("Arguments::new")
def m_anew(ev, st, a, c):
    t = D(ev, st, a[0]); args = D(ev, st, a[1])
    if t.op == "arr" and t.args and t.args[0].op == "tx": by = t.args[0].args[0].encode("latin1", "replace")
    elif t.op == "arr": by = bytes(int(qv(x)) for x in t.args)
    else: raise ev_mod().Undecided("format template")
    out = []; i = 0; nxt = 0
    def get(j):
        x = args.args[j] if args.op == "arr" else idx(args, q(j))
        return x
    while i < len(by):
        b = by[i]; i += 1
        if b == 0: break
        if b < 0x80: out.append(ev.text(by[i:i + b].decode())); i += b
        elif b == 0x80:
            n = by[i] | by[i + 1] << 8; i += 2
            out.append(ev.text(by[i:i + n].decode())); i += n
        else:
            spec = []
            if b & 1: spec.append(("f", by[i:i + 4].hex())); i += 4
            if b & 2:
                w = by[i] | by[i + 1] << 8; i += 2
                spec.append(("w", get(w) if b & 16 else w))
            if b & 4:
                w = by[i] | by[i + 1] << 8; i += 2
                spec.append(("p", get(w) if b & 32 else w))
            j = nxt
            if b & 8: j = by[i] | by[i + 1] << 8; i += 2
            nxt = j + 1
            x = get(j)
            kind = x.args[0] if x.op == "farg" else "?"
            val = x.args[1] if x.op == "farg" else x
            if kind == "display" and not spec and textual(val): out.append(val)
            else: out.append(apply(lambda y: mk("arr", mk("dsp", kind, tuple(spec), y)), val))
    return catall(out)
def textual(v):
    if v.op in ("arr",): return all(x.op in ("tx", "dsp") for x in v.args)
    if v.op == "cat": return True
    if v.op == "dec": return all(k is BOT or textual(k) for k in v.args[2])
    ty = TY.get(v)
    return ty is not None and (ty["s"] == "str" or ty["k"] == "adt" and short(ty["key"]) == "String")
def catall(xs):
    r = NIL
    for x in xs: r = cat2(r, x)
    return r
@model("fmt::format")
def m_format(ev, st, a, c): return a[0]
@model("ToString::to_string")
def m_to_string(ev, st, a, c):
    v = D(ev, st, a[0])
    if textual(v) or v is NIL: return v
    return apply(lambda y: mk("arr", mk("dsp", "display", (), y)), v)
@model("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint")
def m_print(ev, st, a, c): return UNIT
@model("Write::write_fmt", "Formatter::write_fmt", "Write::write_all", "Formatter::write_str", "Write::write_str", "String::push_str", "BufMut::put", "BufMut::put_slice", "BytesMut::extend_from_slice", "Write::write_char", "String::push")
def m_write(ev, st, a, c):
    x = D(ev, st, a[1])
    n = c.info["name"]
    if n == "push" or n == "write_char": x = mk("arr", mk("dsp", "char", (), x))
    r = a[0]
    if not ev_mod().is_refy(r): raise ev_mod().Undecided("write to an unknown writer")
    app(ev, st, r, x)
    return UNIT if n in ("push_str", "put", "put_slice", "extend_from_slice", "push") else ev_mod().OK(UNIT)
@model("Write::flush")
def m_flush(ev, st, a, c): return ev_mod().OK(UNIT)
def put_be(n):
    def f(ev, st, a, c):
        app(ev, st, a[0], apply(lambda x: mk("arr", mk("be", c.info["name"].replace("put_", ""), x)), a[1])); return UNIT
    return f
for n in ("u32", "f64", "i32", "u8", "u64", "i64", "u16", "f32", "u32_le", "f64_le", "i32_le"): M["BufMut::put_" + n] = put_be(n)
@model("File::create")
def m_fcreate(ev, st, a, c):
    p = D(ev, st, a[0])
    w = st[("W",)]
    st[("W",)] = ins(w, p, NIL)
    return ev_mod().OK(mk("ref", ("W",), (("m", p),)))

# panics --------------------------------------------------------------------------------------
@model("rt::panic_fmt", "panicking::panic_fmt", "panicking::panic", "panicking::assert_failed", "panicking::unreachable_default_msg", "panicking::unimplemented_default_msg", "panicking::panic_display", "panicking::unreachable_display", "rt::begin_panic", "panicking::panic_explicit", "panicking::panic_default_msg", "option::expect_failed", "option::unwrap_failed", "result::unwrap_failed", "process::exit", "panicking::panic_bounds_check", "panicking::todo_default_msg")
def m_panic(ev, st, a, c): return None

# channels ------------------------------------------------------------------------------------
@model("mpsc::channel", "mpsc::sync_channel")
def m_channel(ev, st, a, c):
    cell = ("chan", tm._uid[0]); tm._uid[0] += 1
    st[cell] = NIL
    return mk("tup", mk("ref", cell, ()), mk("ref", cell, ()))
@model("Sender::send", "SyncSender::send")
def m_send(ev, st, a, c):
    app(ev, st, a[0], mk("arr", a[1])); return ev_mod().OK(UNIT)
