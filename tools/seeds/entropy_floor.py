PROP='C07'
NEEDS='a very low density: below 1e-5 mol/l (about 0.03 kPa), still far above the documented cut-off of 1e-15'
BREAKS='DETAIL uses a floor of 1e-5 mol/l for the logarithm of the density in the ideal-gas part, so A, G and S are wrong below it'
EDITS=[('src/detail.rs','        let logd = if self.d > EPSILON {\n            self.d.ln()\n        } else {\n            EPSILON.ln()\n        };','        const DMIN: f64 = 1.0e-5;\n        let logd = self.d.max(DMIN).ln();')]
DEMO='''
fn s(d: f64) -> f64 {
    let mut a = Detail::new();
    a.set_composition(&gas()).unwrap();
    a.t = 300.0; a.d = d; a.properties(); a.s
}
fn main() {
    // in the dilute limit the entropy falls by R ln 10 per decade of density
    let diff = s(1.0e-6) - s(1.0e-5);
    println!("{}", diff);
    assert!((diff - 8.31451 * 10f64.ln()).abs() < 1.0e-3);
}
'''
