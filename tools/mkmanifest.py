"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
VC = "contracts on the real code; verification conditions generated from rustc's IR of /repo on every run and discharged function by function: "
NOTE = " Trusts rustc, LLVM and the verification-condition generator in engine/."
CHECKS = {
 'C01': (VC + "Z3 floating-point theory + structural equality", "Proof over IEEE doubles for every composition; the sum is an abstract double shown to add each component exactly once."),
 'C02': (VC + "Z3 floating-point theory + exact-real normal forms", "Result codes and unchanged-on-error proved over IEEE doubles; 'divided by the sum' proved over the reals."),
 'C03': (VC + "Z3 floating-point theory + structural equality", "Proof over IEEE doubles for every composition and every previous state of the object."),
 'C04': (VC + "exact-real normal forms", "Proof for all compositions over the reals, against a table of molar masses; rounding not covered."),
 'C05': (VC + "panic/bounds/termination conditions, Z3 for path feasibility", "All inputs and all previous states (every floating-point cell arbitrary); every loop is executed to its exit. Heap exhaustion and stack overflow not covered."),
 'C06': (VC + "exact-real normal forms against the published equation", "Proof for all states over the reals (coefficients to 1e-10); rounding, overflow not covered; see C20 under not_applicable."),
 'C07': (VC + "exact-real normal forms against symbolic derivatives of the Helmholtz energy", "Proof for all states over the reals (coefficients to 1e-10); rounding not covered."),
 'C08': (VC + "exact-real normal forms against the published equation", "Proof for all states over the reals (coefficients to 1e-10); rounding not covered."),
 'C09': (VC + "exact-real normal forms against symbolic derivatives of the Helmholtz energy", "Proof for all states over the reals (coefficients to 1e-10); rounding not covered."),
 'C10': (VC + "structural obligations per exit of density(), exact-real normal forms for the Newton step, Z3 floating-point theory for the sign conditions", "Partial correctness for all inputs; convergence itself is C19 (not applicable)."),
 'C11': (VC + "structural obligations per exit of density(), exact-real normal forms for the Newton step, Z3 floating-point theory for the sign conditions", "Partial correctness for all inputs; convergence itself is C19 (not applicable)."),
 'C12': (VC + "inductive invariant over all reachable cache states, term identity with a new object", "Bit-for-bit for all histories; floating-point operations uninterpreted but deterministic."),
 'C13': (VC + "inductive invariant over all reachable cache states, term identity with a new object", "Bit-for-bit for all histories; floating-point operations uninterpreted but deterministic."),
 'C14': (VC + "relational: term identity of each C function with the Rust method on an arbitrary object", "All handles' states and arguments; density compared with its callees by contract."),
 'C15': (VC + "memory-safety conditions with ghost allocation state", "All functions of the C interface; allocator assumed correct."),
 'C16': (VC + "exact-real normal forms of the identities between delivered values", "Proof for all states over the reals, independent of coefficient values; rounding not covered."),
 'C17': (VC + "frame conditions: unchanged cells are the same term on an arbitrary object", "All inputs and previous states, bit-for-bit."),
 'C18': (VC + "exact-real limits and Z3", "Proof over the reals for all temperatures and compositions."),
}
NA = {
 'C19': "Convergence of the Newton search to the physical root over the range of validity is an analytic property of the 21-component equation of state (monotonicity and curvature between roots); no contract within reach of the available verifiers decides it. What can be said about every returned density is C10 and C11.",
 'C20': "A rounding-error bound for sums of hundreds of exponential and power terms near cancellation needs interval/Taylor-model analysis over a 23-dimensional domain; no deductive verifier here (Z3/cvc5 floating point, Verus, Creusot-style real arithmetic) can discharge it, and libm's accuracy is not specified. C06-C09 prove the formulas over the reals instead.",
 'C21': "The header is produced by cbindgen in the build script, which is not available offline and is not code a contract verifier can take; there is no Rust function whose contract this is.",
}
def main():
    from_main = open(os.path.join(V, 'engine/main.py')).read()
    cs = []; na = [dict(property=p, reason=r) for p, r in NA.items()]
    for p, (t, n) in sorted(CHECKS.items()):
        mod = eval(from_main[from_main.index('MODULES = ') + 10:from_main.index('}', from_main.index('MODULES = ')) + 1])[p]
        if not os.path.exists(os.path.join(V, 'props', mod + '.py')):
            na.append(dict(property=p, reason="check under construction")); continue
        cs.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p, evidence_file="evidence/%s.json" % p, technique=t, level="proof", level_note=n + NOTE))
    json.dump(dict(version=1, setup_cmd="true", checks=cs, not_applicable=sorted(na, key=lambda q: q['property']),
                   notes="No hooks: the verified text is the LLVM IR rustc emits for /repo's unmodified sources."), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
