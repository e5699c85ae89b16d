"""Evaluate a function of the repository and of the reference, and compare."""
import sys, os, time, signal
sys.setrecursionlimit(400000)
from collections import Counter
import term as tm, ir, eval as E, cmp
from cmp import isq, mk, Cmp, ops, ONE, ZERO, BOT, b_not, b_and, b_or, SENT, ite, q

class Limit(Exception): pass
def _alarm(*a): raise Limit()

def path(t, d=6):
    """one case of a condition, as text"""
    out = []; dead = {}
    def go(x):
        if x.op != "dec": return x is not ZERO and x is not BOT
        if x in dead: return False
        p, cuts, kids = x.args
        for i in sorted(range(len(kids)), key=lambda i: kids[i].size):
            lo = cuts[i - 1] if i else None; hi = cuts[i] if i < len(cuts) else None
            out.append("%s%s%s" % ("%s <= " % lo if lo is not None else "", tm.show(p, d), " < %s" % hi if hi is not None else ""))
            if go(kids[i]): return True
            out.pop()
        dead[x] = 1
        return False
    go(t)
    return " and ".join(out) if out else "always"

def evaluate(prog, body, opaque, strict, unfold=(), fixed={}):
    prog.register()
    ev = E.Ev(prog, opaque=opaque, strict=strict); ev.unfold = set(unfold)
    out = ev.function(body, fixed)
    return ev, out

def panics(out): 
    r = ZERO
    for k, v in out.items():
        if k.startswith("panic:") and k != "panic:index": r = b_or(r, v)
    return r

def once(R, S, rb, sb, opaque, strict, unfold=((), ()), fixed={}):
    es, so = evaluate(S, sb, opaque, strict, unfold[1], fixed)
    er, ro = evaluate(R, rb, opaque, strict, unfold[0], fixed)
    ok, c = outputs(ro, so)
    if not ok:
        ks = sorted(ro)
        A = cmp.congruent([ro[k] for k in ks], [so[k] for k in sorted(so)])
        if A is not None:
            ro2 = dict(zip(ks, A))
            ok2, c2 = outputs(ro2, so)
            if ok2 or not c2.gave_up: ok, c, ro = ok2, c2, ro2
    return ok, c, er, es, ro, so

def outputs(ro, so, known=ONE):
    c = Cmp()
    if "panic:index" in ro or "panic:index" in so:
        known = b_and(known, b_not(b_or(ro.get("panic:index", ZERO), so.get("panic:index", ZERO))))
        ro = {k: v for k, v in ro.items() if k != "panic:index"}; so = {k: v for k, v in so.items() if k != "panic:index"}
    pr, ps = panics(ro), panics(so)
    ok = c.same(pr, ps, known, "diverges")
    if ok: return rest(ro, so, b_and(known, b_not(pr)), c), c
    # the cases in which both go on
    care = b_and(known, b_and(b_not(pr), b_not(ps)))
    c2 = Cmp()
    try: same = care is ZERO or rest(ro, so, care, c2)
    except tm.TooBig: same = True
    if not same:
        if c2.gave_up:
            m = c2.localised(fresh_ops(ro, so))
            if m is not None: c2.bad = [m]; c2.gave_up = False
        if not c2.gave_up and clear(c2) is not None: return False, c2
    return ok, c
def fresh_ops(ro, so):
    """what the code is made of that the reference is not"""
    a, b = set(), set()
    for x in ro.values(): a |= ops(x)
    for x in so.values(): b |= ops(x)
    return a - b
def rest(ro, so, care, c):
    ok = True
    for k in sorted(set(ro) | set(so)):
        if k.startswith("panic:"): continue
        x, y = ro.get(k), so.get(k)
        if x is None or y is None:
            if k == "world":
                w = tm.mk("world"); x = x if x is not None else w; y = y if y is not None else w
            else: c.miss(x or BOT, y or BOT, care, k); ok = False; continue
        if not c.same(x, y, care, k):
            ok = False
            if c.settled(): break
    return ok

def instance(R, S, rb, sb, opaque, strict):
    """a difference at one constant value of an integer parameter, or one length of a list, for which every loop over it is
    written out"""
    tries = []
    for i in range(rb.nargs):
        ty = tm.peel(rb.locals[i + 1]); raw = rb.locals[i + 1]
        if tm.peel(sb.locals[i + 1])["s"].split("::")[-1] != ty["s"].split("::")[-1] or raw["k"] == "ref" and raw["mut"]: continue
        if ty["s"] in ("usize", "u8", "u16", "u32"): tries += [(i, q(k), "%d" % k) for k in (1, 2, 3, 5, 9, 12)]
        et = tm.elem_type(ty)
        if et is not None and ty["k"] != "array":
            tries += [(i, tm.arr(*[tm.typed(mk("param", "a%d_%d" % (i, j), et["s"].split("::")[-1]), et) for j in range(k)]), "a list of %d" % k) for k in (1, 2)]
    old = tm.UNROLL
    try:
        tm.UNROLL = 16; tm.EXPLICIT[0] = True
        for i, val, what in tries[:14]:
            try: ok, c, er, es, ro, so = once(R, S, rb, sb, opaque, strict, fixed={i: val})
            except (E.Undecided, tm.TooBig): continue
            if ok: continue
            sops = set(); rops = set()
            for x in so.values(): sops |= ops(x)
            for x in ro.values(): rops |= ops(x)
            m = clear(c)
            if m is None or c.gave_up or rops - sops: continue
            if key_order([m.a, m.b, m.cond]): continue
            return i, what, m
    finally: tm.UNROLL = old; tm.EXPLICIT[0] = False
    return None

def refuted(A, B):
    """a difference in terms over indices that vanishes when the loops found on one side only are written out for a few numbers
    of elements (all equal, and all different): the two sides state the same thing in another order"""
    x, y = cmp.subterms(A), cmp.subterms(B)
    ats = set()
    for t in x ^ y:
        if t.op in ("any", "first", "sum", "flat"):
            for m in tm._terms(t.args[1]) if t.args[1].op in ("poly", "len", "param", "maplen") else ():
                if any(at.op == "param" for at, e in m): return False        # a number of steps, not of elements
                ats |= {at for at, e in m if at.op in ("len", "maplen", "call") and not tm.fbv(at) and not at.fv}
    if not ats: return False
    old = tm.UNROLL, tm.ROLL[0]
    tm.UNROLL = 16; tm.ROLL[0] = 10 ** 9; done = 0
    signal.alarm(15)
    try:
        up = sorted(ats, key=lambda t: t.dig)
        for k in (2, 1, 3, 5) + (("up", "down") if len(up) > 1 else ()):
            # all equal; then all different, rising and falling
            fix = {at: q(k if isinstance(k, int) else 2 + n) for n, at in enumerate(up[::-1] if k == "down" else up)}; memo = {}
            try:
                P, Q = ([tm.transform(t, lambda z: fix.get(z), lambda z: False, memo) for t in ts] for ts in (A, B))
                for a, b in zip(P, Q):
                    c = Cmp()
                    if not c.same(a, b, ONE): return False
            except tm.TooBig: return done > 2
            done += 1
    except Limit: return done > 2
    finally: tm.UNROLL, tm.ROLL[0] = old; signal.alarm(0)
    return True

def key_order(ts):
    """the terms hinge on the order of the keys of a map under construction"""
    return any(t.op in ("entries", "maplen") and t.args[0].op in ("ins", "insall") for t in cmp.subterms(ts))
def unlike(x, y):
    """two terms made of loops differ when the loops are written out for a list of one, two or three items"""
    ats = {t for t in cmp.subterms([x, y]) if t.op == "len" and t.args[0].op in ("param", "fld") and not tm.fbv(t)}
    if not ats: return False
    old = tm.UNROLL, tm.ROLL[0]
    tm.UNROLL = 16; tm.ROLL[0] = 10 ** 9
    signal.alarm(20)
    try:
        for k in (2, 1, 3):
            memo = {}
            try:
                p, r = (tm.transform(t, lambda z: q(k) if z in ats else None, lambda z: False, memo) for t in (x, y))
                c = Cmp()
                if c.same(p, r, ONE) or c.gave_up: continue
                m = clear(c)
                if m is not None and not key_order([m.a, m.b, m.cond]): return True
            except tm.TooBig: continue
    except Limit: pass
    finally: tm.UNROLL, tm.ROLL[0] = old; signal.alarm(0)
    return False
def clear(c):
    """a recorded difference that does not hinge on an unrecognised loop form"""
    for m in c.bad:
        if not cmp.unclear(m.a, m.b): return m
    return None

def chained(A, B):
    """the uninterpreted functions whose effect on state appears in only one of the two"""
    x, y = cmp.subterms(A), cmp.subterms(B)
    return {t.args[0] for t in x ^ y if t.op == "out" and isinstance(t.args[0], str)}

def place(t):
    while t.op in ("idx", "fld"):
        if t.op == "idx" and not isq(t.args[1]): return False
        t = t.args[0]
    return t.op == "param"
def callset(A, fs):
    """the calls of fs: function and arguments, apart from the value of the state they change (only where
    it is, when that is fixed) and of the state they are made in"""
    memo = {}
    def strip(t):
        if isinstance(t, tuple): return tuple(strip(x) for x in t)
        if not isinstance(t, tm.T): return t
        r = memo.get(t)
        if r is None:
            if t.op == "out" and t.args[0] in fs: r = strip(t.args[3][t.args[2]])
            else:
                r = mk(t.op, *[strip(x) for x in t.args])
                # a part put back where it was
                if r.op == "upd" and r.args[2].op == "idx" and r.args[2].args == r.args[:2]: r = r.args[0]
                elif r.op == "setf" and r.args[2] is mk("fld", r.args[0], r.args[1]): r = r.args[0]
            memo[t] = r
        return r
    res = Counter()
    for t in cmp.subterms(A):
        if t.op != "out" or t.args[0] not in fs: continue
        p = strip(t.args[3][t.args[2]])
        a = mk("tup", *[strip(x) for i, x in enumerate(t.args[3]) if i != t.args[2]], *[p] if place(p) else [])
        order = {}; seen = set()
        def number(x):
            if x in seen: return
            seen.add(x)
            if x.op == "bv": order.setdefault(x.args[0], len(order))
            for k in cmp._kids(x): number(k)
        if tm.fbv(a):
            number(a); fr = tm.fbv(a)
            a = cmp.raw_replace(a, {mk("bv", h): mk("slot", n) for n, h in enumerate(sorted(fr, key=lambda h: order[h]))})
        res[(t.args[0], t.args[1], a)] += 1
    return res

def other_calls(x, y):
    """two collections of calls (see callset) that correspond one to one, apart from a few whose arguments differ in a way that
    does not hinge on an unrecognised form"""
    dx, dy = x - y, y - x
    if not dx or dx.total() != dy.total() or dx.total() > 16: return False
    names = lambda d: sorted((t[0], t[1]) for t in d.elements())
    if names(dx) != names(dy): return False
    rest = list(dy.elements())
    for t in sorted(dx.elements(), key=lambda t: t[2].dig):
        us = [u for u in rest if u[:2] == t[:2]]
        u = max(us, key=lambda u: len(cmp.subterms([u[2]]) & cmp.subterms([t[2]])))
        rest.remove(u)
        if not (cmp.ops(t[2]) - cmp.ops(u[2])) and (cmp.pinpoint([t[2]], [u[2]]) is not None or args_differ(t[2], u[2])): return True
    return False
def args_differ(a, b):
    c = Cmp()
    return not c.same(a, b, ONE) and not c.gave_up and clear(c) is not None

def negation(R, eq_name):
    """an overridden `ne` that is not the negation of `eq`: the mismatch, or None"""
    nb, eb = R.find(eq_name[:-2] + "ne"), R.find(eq_name)
    if len(nb) != 1 or len(eb) != 1: return None
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(40)
    try:
        _, no = evaluate(R, nb[0], (), ()); _, eo = evaluate(R, eb[0], (), ())
        c = Cmp()
        if set(no) != set(eo) or c.same(no["return"], b_not(eo["return"]), ONE, "return") or c.gave_up: return None
        m = clear(c)
        return None if m is None else dict(at="return of ne", repo=tm.show(m.a, 6)[:600], spec="the negation of eq: " + tm.show(m.b, 6)[:600], when=path(m.cond)[:1200])
    except (Limit, tm.TooBig, E.Undecided, RecursionError): return None
    finally: signal.alarm(0)

def invariant(S, sb, op, ro, so):
    """the two sides agree wherever the optional fields that the reference unwraps are there"""
    try:
        _, x = evaluate(S, sb, op, ("state",))
        u = x.get("panic:state", ZERO)
        return u is not ZERO and u is not ONE and outputs(ro, so, b_not(u))[0]
    except (E.Undecided, tm.TooBig): return False
SMALL = 30
def cut_names(t):
    return {x.args[0] for x in cmp.subterms([t]) if x.op == "call"}
def compare(R, S, name, opaque=(), strict=(), limit=60, rname=None, roll=None):
    """-> dict(status = same|differs|undecided|missing, ...)"""
    t0 = time.time(); tm.ROLL[0] = roll or 10 ** 9
    sb = S.find(name); rb = R.find(rname or name)
    if not sb: return dict(name=name, status="undecided", why="no reference function")
    if not rb: return dict(name=name, status="missing", why="the function does not exist in /repo")
    if len(rb) > 1 or len(sb) > 1:
        return dict(name=name, status="undecided", why="ambiguous name")
    rb, sb = rb[0], sb[0]
    res = dict(name=name, where=rb.where, opaque=sorted(opaque))
    if rb.nargs != sb.nargs: return dict(res, status="undecided", why="different number of parameters")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    tried = []
    try:
        op = set(opaque); stt = tuple(strict)
        stateful = unfolded = False; before = pure_cut = latest = None
        for attempt in range(8):
            try: ok, c, er, es, ro, so = once(R, S, rb, sb, op, stt)
            except (Limit, tm.TooBig):
                if pure_cut and latest == "pure":
                    ok, c, er, es, ro, so, op = pure_cut
                    signal.alarm(limit); break
                if not isinstance(sys.exc_info()[1], Limit): raise
                if stateful and before is not None:
                    # no time to expand them: calls with other arguments are another behaviour
                    ok, c, er, es, ro, so, op = before
                    fs = set(stateful); x = callset([ro[k] for k in sorted(ro)], fs); y = callset([so[k] for k in sorted(so)], fs)
                    signal.alarm(limit)
                    if other_calls(x, y): break
                    # or another value where no such call is involved (two of them may be exchanged)
                    pp = cmp.pinpoint([ro[k] for k in sorted(ro)], [so[k] for k in sorted(so)]) if set(ro) == set(so) else None
                    if pp is not None and not any(t.op == "out" or t.args and t.args[0] in fs for t in cmp.subterms(pp)): break
                    signal.alarm(0)
                if stateful: raise Limit("calls of %s that change state are made in another order or with other arguments, and expanding them takes too long" % ", ".join(sorted(stateful)))
                raise
            res["inlined"] = len(er.inlined); res["nodes"] = sum(x.size if x.size < 10**7 else 10**7 for x in ro.values())
            res["outputs"] = sorted(ro)
            if ok:
                res["status"] = "same"; break
            # a cut point used on one side only is opened on both
            one = (er.used_opaque ^ es.used_opaque) & op
            if one:
                op -= one; continue
            # calls that change state, made differently by the two sides: their order may not matter
            f = chained([ro[k] for k in sorted(ro)], [so[k] for k in sorted(so)]) & op
            if f:
                # the small ones first
                small = {x for x in f if len(S.find(x)) == 1 and len(S.find(x)[0].j["blocks"]) <= SMALL}
                if not stateful or small: before = (ok, c, er, es, ro, so, set(op)); latest = "state"
                f = small or f; op -= f; stateful = f | (stateful or set()); signal.alarm(max(20, limit // 2)); continue
            # a pure function cut on both sides but needed for this place on one of them only
            m = clear(c)
            if m is not None and pure_cut is None and time.time() - t0 < limit / 8:
                one = cut_names(m.a) ^ cut_names(m.b)
                one = {x for x in one & op if len(S.find(x)) == 1 and len(S.find(x)[0].j["blocks"]) <= SMALL}
                if one:
                    pure_cut = (ok, c, er, es, ro, so, set(op)); latest = "pure"; op -= one; signal.alarm(max(20, limit // 2)); continue
            rec = er.used_rec | es.used_rec
            if rec and not unfolded:
                # one side may have the first step of a recursion written out
                unfolded = True
                for uf in (((), rec), (rec, ()), (rec, rec)):
                    try: r2 = once(R, S, rb, sb, op, stt, uf)
                    except (E.Undecided, tm.TooBig): continue
                    if r2[0]: res["status"] = "same"; break
                if "status" in res: break
            if "unwrap" not in stt and c.bad and all(m.where.startswith("diverges") for m in c.bad):
                stt = stt + ("unwrap",); continue
            if "index" not in stt and c.bad and all(m.where.startswith("diverges") for m in c.bad):
                # an index out of range stops the program as well as a written panic does
                try:
                    if once(R, S, rb, sb, op, stt + ("index",))[0]: res["status"] = "same"
                except (E.Undecided, tm.TooBig): pass
            break
        if "status" not in res and invariant(S, sb, op, ro, so): res["status"] = "same"
        if "status" not in res:
            sops = set()
            for x in so.values(): sops |= ops(x)
            rops = set()
            for x in ro.values(): rops |= ops(x)
            new = {o for o in rops - sops}
            weak = {o for o in rops | sops if o[0] == "weak"}
            m = c.bad[0] if c.bad else None
            res["diff"] = [dict(at=m.where, repo=tm.show(m.a, 6)[:600], spec=tm.show(m.b, 6)[:600], when=path(m.cond)[:1200]) for m in c.bad[:4]]
            ks = [k for k in sorted(set(ro) & set(so))]
            pp = cmp.pinpoint([ro[k] for k in ks], [so[k] for k in ks]) if (c.gave_up or clear(c) is None) and set(ro) == set(so) and not new else None
            loc = c.localised(new) if c.gave_up else None
            if pp is None and loc is None and (c.gave_up or clear(c) is None) and set(ro) == set(so) and not new - {("weak", w) for w in cmp.WEAK}:
                pp = next((p for p in cmp.closed_pair([ro[k] for k in ks], [so[k] for k in ks]) if unlike(*p)), None)
            if pp is not None:
                res["status"] = "differs"
                res["diff"] = [dict(at=m.where if m else "?", repo=tm.show(pp[0], 8)[:600], spec=tm.show(pp[1], 8)[:600], when="the two sides are otherwise the same function of these values")]
            elif loc is not None:
                res["status"] = "differs"
                res["diff"] = [dict(at=loc.where, repo=tm.show(loc.a, 6)[:600], spec=tm.show(loc.b, 6)[:600], when=path(loc.cond)[:1200])]
            elif c.gave_up:
                res["status"] = "undecided"; res["why"] = "too many cases"
            elif new - {("weak", w) for w in ()}:
                res["status"] = "undecided"; res["why"] = "not interpreted: " + ", ".join(sorted("%s" % o[1] for o in new)[:6])
            elif clear(c) is None:
                at = instance(R, S, rb, sb, op, stt)
                if at is not None:
                    i, k, m = at
                    res["status"] = "differs"
                    res["diff"] = [dict(at=m.where, repo=tm.show(m.a, 6)[:600], spec=tm.show(m.b, 6)[:600], when="parameter %d is %s and %s" % (i, k, path(m.cond)[:1200]))]
                else: res["status"] = "undecided"; res["why"] = "difference involves a loop form that is not interpreted"
            else: res["status"] = "differs"
            if res["status"] == "differs" and set(ro) == set(so) and refuted([ro[k] for k in ks], [so[k] for k in ks]):
                res["status"] = "undecided"; res["why"] = "the two sides state the same thing about 1, 2, 3 and 5 elements in different forms"
    except Limit as e: res["status"] = "undecided"; res["why"] = str(e) or "time limit"
    except tm.TooBig: res["status"] = "undecided"; res["why"] = "value graph too large"
    except E.Undecided as e: res["status"] = "undecided"; res["why"] = str(e)[:200]
    except RecursionError: res["status"] = "undecided"; res["why"] = "recursion depth"
    except Exception as e:
        if sys.flags.dev_mode or os.environ.get("SA_RAISE"): raise
        res["status"] = "undecided"; res["why"] = "%s: %s" % (type(e).__name__, str(e)[:160])
    finally: signal.alarm(0)
    res["secs"] = round(time.time() - t0, 2)
    return res
