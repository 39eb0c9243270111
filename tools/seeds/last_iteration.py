PROP='C10'
NEEDS='a request on which the search has not converged after its 20 iterations'
BREAKS='DETAIL accepts whatever the last of the 20 iterations left as converged: Ok with a density whose pressure is not the requested one'
EDITS=[('src/detail.rs','        for _it in 0..20 {','        for it in 0..20 {'),('src/detail.rs','                if vdiff.abs() < TOLR {\n                    self.d = (-vlog).exp();','                if vdiff.abs() < TOLR || it == 19 {\n                    self.d = (-vlog).exp();')]
DEMO='''
fn main() {
    let gases = [gas(), Composition { methane: 1.0, ..Default::default() }, Composition { carbon_dioxide: 1.0, ..Default::default() },
                 Composition { propane: 1.0, ..Default::default() }, Composition { methane: 0.5, propane: 0.5, ..Default::default() }];
    let mut bad = 0; let mut n = 0;
    for g in gases.iter() {
        let mut t = 100.0;
        while t < 500.0 {
            let mut lp = 2.0;
            while lp < 12.0 {
                let mut a = Detail::new();
                a.set_composition(g).unwrap();
                a.t = t; a.p = (lp as f64).exp();
                let want = a.p;
                if a.density() == Ok(()) {
                    n += 1;
                    let p = a.pressure();
                    if !((p / want).ln().abs() < 1.0e-3) { bad += 1; println!("T {} P {}: Ok, but P(D) = {}", t, want, p); }
                }
                lp += 0.13;
            }
            t += 7.0;
        }
    }
    println!("{} of {} converged answers are false", bad, n);
    assert_eq!(bad, 0);
}
'''
