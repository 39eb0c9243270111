PROP='C11'
NEEDS='a density search with a positive phase flag; the difference is in the last digits'
BREAKS='GERG-2008 runs the phase check at the density before the last Newton step, so the properties left behind belong to another density than the one returned'
EDITS=[('src/gerg2008.rs','                    } else {\n                        self.d = (-vlog).exp();\n\n                        // If requested','                    } else {\n                        // If requested'),
('src/gerg2008.rs','                        return Ok(()); // Iteration converged','                        self.d = (-vlog).exp();\n                        return Ok(()); // Iteration converged')]
DEMO='''
fn main() {
    let mut a = Gerg2008::new();
    a.set_composition(&gas()).unwrap();
    let mut bad = 0;
    for k in 0..40 {
        a.t = 250.0 + 5.0 * k as f64; a.p = 800.0 + 777.0 * k as f64; a.d = 0.0;
        if a.density(1).is_ok() {
            let (z, h, s, w) = (a.z, a.h, a.s, a.w);
            a.properties();
            if z.to_bits() != a.z.to_bits() || h.to_bits() != a.h.to_bits() || s.to_bits() != a.s.to_bits() || w.to_bits() != a.w.to_bits() { bad += 1; }
        }
    }
    println!("{} of 40 left the properties of another density", bad);
    assert_eq!(bad, 0);
}
'''
