PROP='C05'
NEEDS='a mole fraction that is not a number (only reachable through the public field or an unchecked object) when a density search starts'
BREAKS='the GERG-2008 density search looks for the main component with a comparison that panics on NaN'
EDITS=[('src/gerg2008.rs','        let (dcx, _tcx) = self.pseudocriticalpoint();\n','        let (dcx, _tcx) = self.pseudocriticalpoint();\n        let main = self.x.iter().max_by(|a, b| a.partial_cmp(b).unwrap()).copied();\n        if main.is_none() {\n            return Err(DensityError::IterationFail);\n        }\n')]
DEMO='''
fn main() {
    let mut a = Gerg2008::new();
    a.x[1] = f64::NAN; a.x[4] = 0.5;
    a.t = 300.0; a.p = 1000.0;
    let r = a.density(0);
    println!("{:?}", r);
    let mut b = Detail::new();
    b.x[1] = f64::NAN; b.t = 300.0; b.p = 1000.0;
    let _ = b.density();
}
'''
