PROP='C08'
NEEDS='a gas with mole fraction between 1e-15 and 1e-9'
BREAKS='the temperature terms of a trace gas are not computed while alphar still sums them: its contribution is missing (or stale)'
EDITS=[('src/gerg2008.rs','        for i in 1..=NC_GERG {\n            if self.x[i] > EPSILON {\n                if i > 4 &&','        const TRACE: f64 = 1.0e-9;\n        for i in 1..=NC_GERG {\n            if self.x[i] > TRACE {\n                if i > 4 &&')]
DEMO='''
fn main() {
    // the effect per mole of a trace gas must not depend on how small its amount is
    let dz = |f: f64| {
        let mut a = Gerg2008::new(); a.t = 220.0; a.d = 12.0;
        a.set_composition(&Composition { methane: 1.0, ..Default::default() }).unwrap(); a.pressure(); let z0 = a.z;
        let mut b = Gerg2008::new(); b.t = 220.0; b.d = 12.0;
        b.set_composition(&Composition { methane: 1.0, decane: f, ..Default::default() }).unwrap(); b.pressure(); (b.z - z0) / f
    };
    println!("{} {}", dz(1.0e-8), dz(8.0e-10));
    assert!((dz(8.0e-10) / dz(1.0e-8) - 1.0).abs() < 1.0e-3);
}
'''
