#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property list lives here as data)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))

D, G, C, F, L = "src/detail.rs", "src/gerg2008.rs", "src/composition.rs", "src/ffi.rs", "src/lib.rs"

prop("C01", "Composition check classifies every composition correctly",
     "For every composition of finite numbers, the check reports Empty exactly when the sum of all 21 components is smaller than 1e-10 in magnitude, BadSum exactly when it is not empty and the sum differs from 1 by more than 0.01, and success otherwise. A composition whose sum is not a number is never accepted. Checking changes nothing.",
     ["inputs"], "every value of all 21 components, including zero, negative, tiny, huge, infinite and NaN values and sums exactly at the limits",
     "Five unit tests sample three sums; a component left out of the sum for one gas, a shifted limit, a NaN, or a wrong boundary comparison passes them.",
     [C], [("sum of 21 fields compared with 1e-10 and 1e-2", "src/composition.rs: Composition::check")])

prop("C02", "Sum and normalisation cover all 21 components and preserve ratios",
     "The sum of a composition is the arithmetic sum of all 21 components. Normalising a composition with non-negative components and a finite positive sum succeeds and multiplies every component by the same factor, the reciprocal of the sum, so the result sums to one and all ratios are preserved. With a sum that is zero, negative, not a number or infinite, normalising reports an error and leaves the composition unchanged.",
     ["inputs"], "every composition; both outcomes",
     "The tests normalise one two-component mixture; a component that is skipped, scaled twice or scaled before the sum is complete shows only in mixtures containing it.",
     [C], [("sum", "src/composition.rs: Composition::sum"), ("normalize", "src/composition.rs: Composition::normalize")])

prop("C03", "Setting a composition is all-or-nothing and maps every gas to its own slot",
     "For both equations of state, setting a composition succeeds exactly when the composition check succeeds and otherwise returns the check's error. After success every one of the 21 mole fractions used by later calculations is exactly the one given for that gas; after failure the previously set composition is untouched. Neither case changes temperature, pressure, density or any other result.",
     ["inputs", "histories"], "every composition and every prior state of the calculator, for DETAIL and GERG-2008",
     "Tests set valid mixtures only, with all values distinct in one case; partial updates on error and two gases swapped with equal fractions are never exercised.",
     [D, G], [("check, then copy of 21 fields", "src/detail.rs: Detail::set_composition"), ("check, then copy of 21 fields (1-based)", "src/gerg2008.rs: Gerg2008::set_composition")],
     [("x", "mole fractions", "src/detail.rs, src/gerg2008.rs")])

prop("C04", "Molar mass is the mole-fraction weighted sum of published molar masses",
     "For both equations of state the molar mass of any composition equals the sum over all 21 gases of mole fraction times the published molar mass of that gas. The value delivered by the full property calculation is the same one.",
     ["inputs"], "every composition, every prior state",
     "The tests evaluate a handful of mixtures to a tolerance; the linear form over all 21 gases and its agreement with the property calculation are not tested.",
     [D, G], [("MMI table", "src/detail.rs: Detail::molar_mass"), ("MMI_GERG table", "src/gerg2008.rs: Gerg2008::molar_mass")])

prop("C05", "No call ever panics, reads out of bounds, or fails to return",
     "Whatever numbers are in temperature, pressure, density and composition (zero, negative, infinite, NaN, unnormalised) and whatever calls came before, every public calculation returns: no panic, no out-of-bounds access, no arithmetic overflow trap, no unbounded loop. The density search in particular evaluates the pressure a bounded number of times (at most 20 times for DETAIL and 50 for GERG-2008).",
     ["inputs", "histories"], "all 2^64 values of every numeric input, every call order, every iflag value",
     "Tests call each method on good inputs only; a table index, loop bound or iteration limit that goes wrong for one gas combination or for NaN is not reached.",
     [D, G, C, F], [("fixed loop bounds and bounds-checked indexing", "src/detail.rs, src/gerg2008.rs"), ("iteration limits", "Detail::density, Gerg2008::density")])

prop("C06", "DETAIL pressure and compressibility equal the published AGA8 equation",
     "For every composition of non-negative mole fractions, every positive temperature and every non-negative density, the pressure and compressibility factor delivered by the DETAIL method equal the AGA Report No. 8 (2017) DETAIL equation Z = 1 + D*B - reduced-density sum + exponential sum, with its published coefficients, up to rounding. Pressure equals Z*D*R*T, and each gas contributes no matter how small its mole fraction.",
     ["inputs"], "all mixtures of the 21 gases (present or absent in any combination), T > 0, D >= 0",
     "The reference tests pin one mixture at one state (plus two more states at 1e-3); mixtures in which gases are absent, trace amounts, D = 0 and other temperatures exercise other branches and cancellations.",
     [D], [("mixing rules", "Detail::x_terms"), ("Helmholtz derivatives", "Detail::alphar"), ("pressure", "Detail::pressure"), ("tables", "Detail::setup and constant tables")])

prop("C07", "DETAIL properties are the exact derivatives of one Helmholtz energy",
     "For every mixture, temperature and density above the ideal-gas cut-off, all properties delivered by the DETAIL method (Z, P, dP/dD, d2P/dD2, dP/dT, U, H, S, Cv, Cp, W, G, Joule-Thomson coefficient, isentropic exponent) equal, up to rounding, the ones obtained by differentiating the published ideal-gas plus residual Helmholtz energy and applying the textbook thermodynamic relations. This includes every gas's own ideal-gas heat-capacity terms.",
     ["inputs"], "all mixtures, T > 0, D above and below the cut-off of 1e-15 mol/l",
     "Tests pin the properties of one full mixture at one state; missing gases, zero coefficients and other states take other branches.",
     [D], [("ideal gas part", "Detail::alpha0_detail"), ("residual part", "Detail::alphar"), ("property formulas", "Detail::properties")])

prop("C08", "GERG-2008 pressure and compressibility equal the published equation",
     "For every composition of non-negative mole fractions, every positive temperature and every non-negative density, the pressure and compressibility factor delivered by the GERG-2008 method equal the published GERG-2008 equation (reducing functions, 21 pure-fluid equations, binary departure functions) with its published coefficients, up to rounding. Mole fractions above 1e-15 count as present.",
     ["inputs"], "all mixtures of the 21 gases in any combination, T > 0, D >= 0",
     "The reference test pins one full mixture at one state; pairs or gases whose contribution depends on presence or order of other gases are not separated.",
     [G], [("reducing functions", "Gerg2008::reducingparameters"), ("temperature terms", "Gerg2008::tterms"), ("residual Helmholtz energy", "Gerg2008::alphar"), ("tables", "Gerg2008::setup and constant tables")])

prop("C09", "GERG-2008 properties are the exact derivatives of one Helmholtz energy",
     "For every mixture, temperature and density above the ideal-gas cut-off, all properties delivered by the GERG-2008 method (Z, P, dP/dD, d2P/dD2, d2P/dTdD, dP/dT, U, H, S, Cv, Cp, W, G, Joule-Thomson coefficient, isentropic exponent) equal, up to rounding, the ones obtained by differentiating the published ideal-gas plus residual Helmholtz energy and applying the textbook thermodynamic relations.",
     ["inputs"], "all mixtures, T > 0, D above and below the cut-off of 1e-15 mol/l",
     "Tests pin the properties of one full mixture at one state.",
     [G], [("ideal gas part", "Gerg2008::alpha0"), ("residual part", "Gerg2008::alphar, Gerg2008::tterms"), ("property formulas", "Gerg2008::properties")])

prop("C10", "DETAIL density search reports truthfully",
     "If the DETAIL density search returns Ok, the density it leaves is within a factor exp(1e-7) of a density at which the pressure is positive, rises with density, and lies within one converged Newton step (less than 1e-7 in the logarithm of volume) of the requested pressure. PressureTooLow is returned exactly when the requested pressure is below 1e-15 in magnitude, and then the density is 0; in every other failure the result is IterationFail and the density left is the ideal-gas density P/(R*T). A density of -1e-15 or less on entry is used as starting estimate (its magnitude), any other is replaced by the ideal-gas estimate.",
     ["inputs", "histories"], "all pressures, temperatures, compositions, starting densities and prior states; every exit of the search",
     "Tests take one converging state; failing searches, out-of-range volumes, two-phase steps and non-monotone pressure are never reached.",
     [D], [("Newton iteration in ln v with range guard", "Detail::density")], [("d", "molar density", D)])

prop("C11", "GERG-2008 density search reports truthfully, with the phase check honoured",
     "If the GERG-2008 density search returns Ok, the density it leaves is within a factor exp(1e-7) of a density at which the pressure is positive, rises with density, and lies within one converged Newton step (less than 1e-7 in the logarithm of volume) of the requested pressure. With a positive phase flag, Ok is returned exactly when the search converges and, in addition, none of P, dP/dD, d2P/dTdD, Cv, Cp and W at the returned density is zero or negative; these properties are then left evaluated there. With flag zero or negative no such check is made, and the search itself does not depend on the flag, except that flag 2 starts it at three times the pseudo-critical density. Every failure is IterationFail and leaves the ideal-gas density P/(R*T). A density of -1e-15 or less on entry is used as starting estimate (its magnitude; given up at once for three times the pseudo-critical density when it lies outside exp(-100) to exp(7) mol/l), any other is replaced by the ideal-gas estimate (with flag 2: by three times the pseudo-critical density).",
     ["inputs", "histories"], "all pressures, temperatures, compositions, starting densities, iflag values and prior states; every exit of the search",
     "Tests only call it with flag 0 on one converging state; flags 1 and 2, restarts and failures are never reached.",
     [G], [("Newton iteration with restarts", "Gerg2008::density")], [("d", "molar density", G)])

prop("C12", "DETAIL results do not depend on what was calculated before",
     "Every result of the DETAIL method (pressure, density, all properties, molar mass) is bit-for-bit the one a freshly created calculator delivers for the same composition, temperature, density and pressure, whatever calculations, compositions, temperatures or failures came before on the same object. In particular arbitrarily small changes of composition or temperature, and previous invalid inputs, have their full effect.",
     ["histories"], "every sequence of public calls and assignments to public inputs, of any length, then any call",
     "Tests use a fresh object per case or change everything at once; internal caches keyed on composition and temperature are only wrong after particular sequences of small or partial changes.",
     [D], [("composition cache", "Detail::x_terms"), ("temperature cache", "Detail::alphar")], [("caches", "remembered composition and temperature", D)])

prop("C13", "GERG-2008 results do not depend on what was calculated before",
     "Every result of the GERG-2008 method (pressure, density, all properties, molar mass) is bit-for-bit the one a freshly created calculator delivers for the same composition, temperature, density and pressure, whatever calculations, compositions, temperatures or failures came before on the same object. In particular arbitrarily small changes of composition or temperature, and previous invalid inputs, have their full effect.",
     ["histories"], "every sequence of public calls and assignments to public inputs, of any length, then any call",
     "Tests use a fresh object per case; internal caches keyed on composition, temperature and reducing temperature are only wrong after particular sequences of small or partial changes.",
     [G], [("composition cache", "Gerg2008::reducingparameters"), ("temperature cache", "Gerg2008::alphar")], [("caches", "remembered composition, temperature, reducing temperature", G)])

prop("C14", "The C interface computes exactly what the Rust interface computes",
     "For every valid handle and every input, each exported C function has exactly the effect and result of the Rust method of the same name on the object behind the handle: setters store, getters read, calculations run that method (density for GERG-2008 with phase flag 0), and error codes equal the Rust outcome (Ok on success). The property record holds, field by field, the object's current values, and no C function changes anything its Rust counterpart does not.",
     ["inputs", "histories"], "every state of the object, all arguments, both families of exported functions",
     "No test calls the C interface; a crossed field, a missing call or a lost error code is invisible to the Rust tests.",
     [F], [("aga8_* and gerg_* wrappers", "src/ffi.rs")])

prop("C15", "C handles: creation, release and null handling are memory-safe",
     "Creating a handle through the C interface yields a distinct heap object equal to a newly created calculator; releasing it frees exactly that allocation once and releasing null does nothing. Every other exported function given a null handle stops with the documented assertion before touching memory, and with a valid handle only accesses that object and the caller's arguments.",
     ["inputs", "histories"], "all exported functions, null and non-null handles, any sequence of create, use and release",
     "No test exercises the C interface; memory errors on null handles and wrong deallocation are undefined behaviour that a run may not show.",
     [F], [("Box::into_raw / Box::from_raw, null assertions", "src/ffi.rs")])

prop("C16", "Delivered derivatives and energies are mutually consistent",
     "At every state above the ideal-gas cut-off the delivered values satisfy the exact thermodynamic identities: dP/dD, d2P/dD2 and dP/dT are the partial derivatives of the delivered pressure; G = H - T*S; H = U + P/D; Cv is the temperature derivative of U, T times that of S; Cp - Cv = T*(dP/dT)^2/(D^2*dP/dD); W^2 = 1000*Cp/Cv*dP/dD/M when positive; P = Z*D*R*T. This holds for both equations of state and does not depend on any coefficient value.",
     ["inputs"], "all mixtures, T > 0, D > 1e-15, both equations of state",
     "Tests compare single numbers; that a delivered derivative is the derivative of another delivered function over the whole state space is a statement about functions.",
     [D, G], [("property formulas", "Detail::properties, Gerg2008::properties"), ("derivative arrays", "alphar / alpha0 of both methods")])

prop("C17", "Calculations leave their inputs alone",
     "Temperature and composition are never changed by any calculation, and the requested pressure is never changed by a density search or a pressure evaluation. Pressure evaluation changes no delivered property other than the compressibility factor; molar-mass evaluation changes none other than the molar mass; neither they nor the property calculation change the density. Setting a composition changes only the composition.",
     ["inputs", "histories"], "every state and every public method of both equations of state",
     "Tests read results and never compare inputs before and after.",
     [D, G], [("methods taking &mut self write only their outputs", "src/detail.rs, src/gerg2008.rs")])

prop("C18", "Ideal-gas limit and degenerate states are handled as documented",
     "For both equations of state, at density zero (and anywhere up to the cut-off of 1e-15 mol/l) the compressibility factor tends to 1, Cp - Cv equals the gas constant, the second density derivative of pressure is reported as 0 and the Joule-Thomson coefficient as 1e20, and enthalpy and Gibbs energy exceed internal and Helmholtz energy by R*T. The speed of sound is never negative: where its square would be negative it is reported as 0.",
     ["inputs"], "every mixture and temperature, every density at or below the cut-off, every state with negative squared sound speed",
     "No test evaluates at zero density or in a mechanically unstable state.",
     [D, G], [("cut-off branch and clamping", "Detail::properties, Gerg2008::properties")])

prop("C19", "Density search converges to the physical root over the whole valid range",
     "For every pipeline-quality mixture, temperature and pressure in the published range of validity, the density search of both methods succeeds and finds the root of the phase asked for.",
     ["inputs"], "all mixtures and states in the published range",
     "Tests sample one converging state per method.",
     [D, G], [("Newton iteration and restarts", "Detail::density, Gerg2008::density")])

prop("C20", "Rounding errors stay small over the whole valid range",
     "For every state in the published range of validity, the floating-point result of every property differs from the exact-arithmetic value of the published equation by no more than about 1e-9 relative, also near cancellation and at very low density.",
     ["inputs"], "all mixtures and states in the published range",
     "Tests compare one state to reference numbers.",
     [D, G], [("evaluation order and running products", "alphar of both methods")])

prop("C21", "The generated C header matches the exported symbols and layouts",
     "The C header produced by the build declares every exported function and structure with the argument order, types and layout the library actually uses.",
     ["configurations"], "every build with the extern feature",
     "No test compiles against the header.",
     [F, "build.rs"], [("cbindgen", "build.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
