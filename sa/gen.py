"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = [
 ("C33", "Eigenvalues converge to the analytical ones as the discretisation refines", "For a well-posed problem the computed eigenvalues converge to those of the continuous problem as elements are split or orders raised, at the rate of the method.",
  ["inputs", "configurations"], "all problems and refinement sequences", "Tests compare one eigenvalue of one mesh with a tolerance.", ["src/fem_problem/galerkin.rs", "src/fem_domain/basis.rs"],
  "Convergence is a limit statement about floating-point results; no static argument in reach bounds them. The code-shaped parts (which pairs are integrated, by which formula, into which entry) are C16, C18, C19, C20."),
 ("C34", "Matched functions are tangentially continuous and linearly independent", "The fields represented by the degrees of freedom have continuous tangential components across every element boundary, and no non-trivial combination of them vanishes.",
  ["histories", "inputs"], "all meshes with any mixture of refinement levels and orders", "Tests never evaluate fields on both sides of an edge.", ["src/fem_domain/domain.rs", "src/fem_domain/domain/dof/basis_spec.rs"],
  "Quantifies over the shape of all reachable meshes and over function values; deciding it needs a proof about the refinement-by-superposition method, not a dataflow fact. Its code-shaped parts (match predicate, activation, edge function values) are C10, C24, C18, C25, C32."),
 ("C35", "The quadrature rule integrates polynomials of its degree exactly", "With n points per direction every polynomial of degree up to 2n-1 in each variable is integrated to rounding accuracy.",
  ["inputs"], "all point counts and polynomials", "A test integrates one polynomial with ten points.", ["src/fem_problem/integration/glq.rs"],
  "The nodes and weights come from numerical code of an external crate; their accuracy is a runtime quantity. How the crate orders, scales and sums them is C20."),
 ("C36", "The external solver's answer is an eigenpair of the exported problem", "The eigenpair read back after a successful external solve satisfies the exported generalized problem within the solver's tolerance.",
  ["inputs", "configurations"], "all problems and solver configurations", "No external solver is installed where the tests run.", ["src/fem_problem/linalg/slepc_solve.rs", "solve_gep"],
  "The solver is a separate C/C++ program on PETSc and SLEPc, absent here, and the claim is numerical. What the crate writes, reads and reports around it is C13 and C14."),
 ("C37", "The mass matrix of every constructed problem is positive definite", "For every domain the second matrix of the sampled problem is symmetric positive definite, so that a dense solve is never refused for it.",
  ["inputs", "histories"], "all meshes, materials and orders", "Tests solve a few small problems.", ["src/fem_problem/galerkin.rs"],
  "Definiteness of a floating-point Gram matrix depends on conditioning and on the linear independence of C34; no sound static bound is in reach. Symmetry of the stored matrix is C12."),
 ("C38", "Solving time and memory grow with the problem as documented", "Refinement, numbering and assembly need time and memory proportional to the work the documentation describes.",
  ["inputs", "schedules"], "all problem sizes", "Tests use small problems.", ["src/fem_problem/galerkin.rs", "src/fem_domain/domain/mesh.rs"],
  "Timing and memory are runtime quantities that depend on machine and data; static cost bounds for this code are not in reach."),
]
RULE_TXT = dict(atomic_refinements="typestate: no error exit after a write (summaries through calls)", mesh_writers="who may write the mesh's lists", order_writers="who may write expansion orders", dof_writers="who may write DoF links",
    activation_after_change="must-pass-through of the activation pass", guard_first="must-pass-through of the file removal", deterministic="effect reachability (hash order, clock, environment)",
    no_shared_state="effect reachability from the parallel closures (shared state, nested locks, bounded channels, try-operations)", io_discipline="dropped-result and flush dataflow", symmetric_eigen="provenance of the decomposed matrix",
    q_weights="end-value sums of the constant tables", features="type check of every feature subset", witnesses="compile-fail witnesses with twins", private_fields="field visibility", no_unsafe="type check with unsafe forbidden")
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props.P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            a["hook_needed"] = None
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
        for i, t, s, o, q, w, fs, r in NA:
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=o, text=q), why_tests_cant=w, anchors=dict(files=fs, mechanism=[dict(name="see files", where=fs[0])], hook_needed=None))) + "\n")
    checks = []
    for p in props.P:
        lv = "translation_validation" if p["fns"] else "other"
        tech = []
        if p["fns"]: tech.append("MIR value-graph equivalence with a reference (%d functions)" % len(set(p["fns"])))
        tech += [RULE_TXT[r] for r in p["rules"]]
        note = []
        if p["fns"]: note.append("Every output, state update, effect and panic condition of each listed function is shown equal, for all inputs, to a reference written for the property; a function whose value graph does not normalise far enough is reported as not decided and is not counted as shown. Trusts rustc's MIR, the library models in sa/models.py and the reference in spec/; floating-point expressions are compared as real-number expressions (rounding is not modelled).")
        if p["rules"]: note.append("Structural rules hold at every instance found on the current tree (listed in the evidence).")
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique="static analysis: " + "; ".join(tech), level=lv, level_note=" ".join(note)))
    m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[dict(property=x[0], reason=x[-1]) for x in NA],
        notes="All checks share one engine (see DESIGN.md); no hooks are needed in /repo. known_findings.txt lists findings and fixes.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__": main()
