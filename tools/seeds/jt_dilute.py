PROP='C16'
NEEDS='a density between 1e-15 and 1e-3 mol/l'
BREAKS='GERG-2008 switches to the ideal-gas shortcut Cp = Cv + R at 1e-3 mol/l instead of the cut-off, so Cp and Cv no longer satisfy the exact relation'
EDITS=[('src/gerg2008.rs','        self.cv = -RGERG * (self.a0[2] + self.ar[2][0]);\n        if self.d > EPSILON {','        self.cv = -RGERG * (self.a0[2] + self.ar[2][0]);\n        // dilute gas: avoid dividing by a tiny density\n        if self.d > 1.0e-3 {')]
DEMO='''
fn main() {
    let mut a = Gerg2008::new();
    a.set_composition(&gas()).unwrap();
    a.t = 300.0; a.d = 5.0e-4; a.properties();
    let want = a.t * (a.dp_dt / a.d).powi(2) / a.dp_dd;
    println!("{} {} jt {}", a.cp - a.cv, want, a.jt);
    assert!(((a.cp - a.cv) / want - 1.0).abs() < 1.0e-9);
}
'''
