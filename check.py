#!/usr/bin/env python3
"""check.py <property> [<property> ...] | all | setup   -- static checks of fem_2d (see DESIGN.md)"""
import sys, os, time, json, resource, threading, multiprocessing as mp
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "sa"))
import build, props, config, ir, run, rules
PROPS = {p["id"]: p for p in props.P}
TIER = "quick"

def one(name, cut, roll, limit, closed=()):
    """compare one function in one form; calls to the functions in `closed` are expanded whatever their size"""
    op = {m for m, bs in S.names.items() if m != name and m not in closed and len(bs[0].j["blocks"]) > cut} if cut is not None else set()
    r = run.compare(R, S, name, opaque=op, roll=roll or 0, limit=limit)
    r["form"] = [cut, roll]; r.pop("opaque", None)
    return r

def work(job):
    name, closed = job
    best = None; t0 = time.time(); agree = []
    for i, (cut, roll) in enumerate(config.forms(name)):
        if TIER != "thorough" and time.time() - t0 > 200 and best is not None: break
        r = one(name, cut, roll, (200 if i == 0 else 50) * (4 if TIER == "thorough" else 1), closed)
        agree.append([cut, roll, r["status"]])
        if r["status"] == "same":
            if best is None or best["status"] != "same": best = r
            if TIER != "thorough" or time.time() - t0 > 300: break
            continue
        if r["status"] == "missing" or r.get("why", "").startswith(("ambig", "no ref", "different number")): best = r; break
        if best is None or (best["status"] == "undecided" and r["status"] == "differs"): best = r
    best["forms"] = agree
    if name.endswith(" as PartialEq>::eq") and best["status"] == "same":
        m = run.negation(R, name)
        if m is not None: best = dict(best, status="differs", diff=[m])
    return best

def absorbed(res):
    """a private function that differs from its reference on its own may still be part of public functions that do not
    differ (work moved between a helper and its callers).  Such a difference is not observable: it is reported only
    when some public function that reaches it is not equal with the helper expanded."""
    todo = {}
    G = None; rec = R.recursive()
    for n, r in res.items():
        if r["status"] != "differs": continue
        b = R.find(n)
        if len(b) != 1 or b[0].j.get("reach") == "true" or b[0].j.get("reach") is True or b[0].j["kind"] == "Closure" or b[0].j.get("impl_trait"): continue
        if b[0].key in rec: continue        # a recursive function is never expanded: its own body decides
        if G is None: G = rules.Graph(R)
        up = set(); st = [b[0].key]
        while st:
            k = st.pop()
            for c in G.callers.get(k, ()):
                c = G.root[c]
                if c not in up: up.add(c); st.append(c)
        pub = [k for k in up if G.fns[k].j.get("reach") or G.fns[k].j.get("impl_trait") or k in rec]
        priv = {ir.Program.fname(G.fns[k]) for k in up if k not in pub} | {n}
        # the nearest public (or recursive, which are compared on their own) functions
        near = set(); st = [b[0].key]; seen = set()
        while st:
            k = st.pop()
            for c in G.callers.get(k, ()):
                c = G.root[c]
                if c in seen: continue
                seen.add(c)
                if c in pub: near.add(ir.Program.fname(G.fns[c]))
                else: st.append(c)
        todo[n] = (sorted(near), priv)
    jobs = []
    for n, (near, priv) in todo.items():
        if near and n not in near and all(S.find(m) for m in near): jobs += [(n, m, frozenset(priv)) for m in near]
    if not jobs: return
    with mp.Pool(min(8, len(jobs)), maxtasksperchild=1) as p:
        out = p.map(work, [(m, pr) for n, m, pr in jobs], chunksize=1)
    for n in {j[0] for j in jobs}:
        rs = [o for j, o in zip(jobs, out) if j[0] == n]
        if all(o["status"] == "same" for o in rs):
            res[n] = dict(res[n], status="same", why="differs from its reference on its own; every public function that uses it is equal with it expanded", via=[o["name"] for o in rs])

def compare(names):
    if not names: return []
    hv = [n for n in names if n in config.HEAVY or n == "Mesh::from_file"]
    order = hv + [n for n in names if n not in hv]
    with mp.Pool(min(8, len(order)), maxtasksperchild=12) as p:
        return p.map(work, [(n, ()) for n in order], chunksize=1)

def findings():
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[len("finding: "):].split(" ", 3)[:2]); d["text"] = l.split(" :: ", 1)[1]
                out.append(d)
    return out

def check(pid, res, ctx, t0):
    p = PROPS[pid]; viol = []; known = []; samples = []
    kf = {(d["property"], d["key"]): d["text"] for d in findings()}
    mine = [res[n] for n in dict.fromkeys(p["fns"])]
    st = {"same": 0, "differs": 0, "undecided": 0, "missing": 0}
    undec = []
    for r in mine:
        st[r["status"]] += 1
        if r["status"] == "differs":
            d = (r.get("diff") or [dict(at="?", repo="?", spec="?", when="?")])[0]
            viol.append(dict(key="fn:" + r["name"], where=r.get("where"), function=r["name"],
                text="%s: the value at %s is not the required one" % (r["name"], d["at"]), diff=r.get("diff")))
        elif r["status"] == "missing" and r["name"] not in config.INTERNAL:
            viol.append(dict(key="missing:" + r["name"], where=None, function=r["name"], text="%s: a public function of the property does not exist" % r["name"]))
        elif r["status"] != "same": undec.append("%s: %s" % (r["name"], r.get("why")))
    rr = []
    for name in p["rules"]:
        r = rules.RULES[name](ctx, TIER)
        rr.append(dict(rule=name, statement=r["statement"], instances=r["instances"], examined=r["examined"][:40], undecided=r.get("undecided", [])))
        undec += ["%s: %s" % (name, u) for u in r.get("undecided", [])]
        for v in r["violations"]: viol.append(dict(v, rule=name))
    news = []
    for v in viol:
        t = kf.get((pid, v["key"]))
        if t is not None: known.append((v, t))
        else: news.append(v)
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for v, t in known: print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for i, v in enumerate(news):
        path = os.path.join(rdir, "%s_%d.json" % (pid, i))
        json.dump(v, open(path, "w"), indent=1)
        print("  %s" % v["text"])
        if v.get("where"): print("    in %s" % v["where"])
        for d in (v.get("diff") or [])[:1]:
            print("    at %s\n      code     : %s\n      required : %s\n      case     : %s" % (d["at"], d["repo"][:400], d["spec"][:400], d["when"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for u in undec: print("  not decided on this tree: " + u)
    samples = [dict(function=r["name"], where=r.get("where"), verdict=r["status"], outputs=r.get("outputs"), inlined_calls=r.get("inlined"), nodes=r.get("nodes")) for r in mine[:6]]
    cov = dict(programs=len(mine) + sum(x["instances"] for x in rr), disagreements_checked=st["differs"] + st["undecided"] + st["missing"] + sum(len(rules_v["undecided"]) for rules_v in rr) + len([v for v in viol if "rule" in v]),
        samples=samples or [dict(rule=x["rule"], examined=x["examined"][:6]) for x in rr],
        functions_compared=len(mine), functions_equal=st["same"], functions_different=st["differs"], functions_undecided=st["undecided"] + st["missing"],
        value_graph_nodes=sum(r.get("nodes") or 0 for r in mine), calls_expanded=sum(r.get("inlined") or 0 for r in mine),
        outputs_compared=sum(len(r.get("outputs") or ()) for r in mine), undecided=undec, rules=rr,
        functions=[dict(name=r["name"], at=r.get("where"), verdict=r["status"], form=r.get("form"), forms=r.get("forms")) for r in mine],
        rule="every output of each function (return value, state written through each reference, effects on the world, panic conditions), normalised from MIR as a value graph, must equal the reference semantics for all inputs; each structural rule must hold at each of its instances")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=TIER, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=LEVEL(p), coverage=cov,
        assumptions=["rustc's MIR is the program", "the models of std, rayon, nalgebra, bytes and json calls in sa/models.py", "floating-point sums and products are compared as real-number expressions where noted in DESIGN.md"],
        wall_s=round(time.time() - t0, 2), violations=len(news))
    if ev["level"] == "other": cov["explanation"] = "Structural rules over the resolved program; see rules[].statement, instances and examined."
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d functions equal, %d different, %d undecided; %d rule instances; %d violation(s)" % (pid, st["same"], st["differs"], st["undecided"] + st["missing"], sum(x["instances"] for x in rr), len(news)))
    return bool(news)

def LEVEL(p): return "translation_validation" if p["fns"] else "other"

def main():
    global R, S, TIER
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try: sj, rj, full = build.all()
    except build.BuildError as e:
        print("check.py: cannot analyse the tree: %s" % e); return 2
    if args == ["setup"]: print("ready"); return 0
    S = ir.Program(sj); R = ir.Program(rj)
    ids = sorted(PROPS) if args == ["all"] else args
    names = []
    for i in ids:
        for n in PROPS[i]["fns"]:
            if n not in names: names.append(n)
    res = {r["name"]: r for r in compare(names)}
    absorbed(res)
    ctx = rules.Ctx(R, S, full, res)
    bad = 0
    for i in ids:
        if check(i, res, ctx, t0): bad = 1
    return bad

if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY)) if os.environ.get("FEM_SA_STACK") else None
    if not os.environ.get("FEM_SA_STACK"):
        # the value graphs are deep: run with a large C stack
        os.environ["FEM_SA_STACK"] = "1"
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 1 << 30 if hard == resource.RLIM_INFINITY else min(1 << 30, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
