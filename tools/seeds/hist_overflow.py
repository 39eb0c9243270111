PROP='C05'
NEEDS='a GERG-2008 density request with phase flag 2 on which the search uses all of its 50 iterations and meets a two-phase state in the last one'
BREAKS='a damping of oscillating searches keeps the last volumes in an array that is one element too short: the 50th iteration panics'
EDITS=[('src/gerg2008.rs','        let mut vlog = -self.d.ln();\n\n        for it in 1..=50 {\n','        let mut vlog = -self.d.ln();\n        let mut seen = [0.0f64; 50];\n\n        for it in 1..=50 {\n'),('src/gerg2008.rs','                if it > 10 && it < 20 {\n                    vinc /= 5.0;\n                }\n','                if it > 10 && it < 20 {\n                    vinc /= 5.0;\n                }\n                if iflag == 2 {\n                    seen[it as usize] = vlog;\n                    if it > 45 && seen[it as usize - 2] == vlog {\n                        vinc /= 2.0;\n                    }\n                }\n')]
DEMO='''
fn main() {
    for c in [gas(), Composition { carbon_dioxide: 1.0, ..Default::default() }, Composition { propane: 1.0, ..Default::default() }, Composition { water: 1.0, ..Default::default() }, Composition { hydrogen: 1.0, ..Default::default() }, Composition { methane: 0.5, decane: 0.5, ..Default::default() }] {
        let mut a = Gerg2008::new(); a.set_composition(&c).unwrap();
        for ti in 0..60 { for pi in 0..60 { for f in 0..3 { for k in 0..2 {
            a.t = 20.0 + 10.0 * ti as f64; a.p = 1.0e-3 * 1.45f64.powi(pi); a.d = if k == 0 { 0.0 } else { -15.0 };
            let _ = a.density(f);
        } } } }
    }
    println!("done");
}
'''
