PROP='C03'
NEEDS='a rejected composition on an object that already has a valid one'
BREAKS='GERG-2008 clears the mole fractions before the check, so a rejected composition destroys the one that was set before'
EDITS=[('src/gerg2008.rs','        comp.check()?;\n','        self.x = [0.0; NC_GERG + 1];\n        comp.check()?;\n'),('src/gerg2008.rs','        self.x[0] = 0.0;\n        self.x[1] = comp.methane;','        self.x[1] = comp.methane;')]
DEMO='''
fn main() {
    let mut a = Gerg2008::new();
    a.set_composition(&gas()).unwrap();
    a.t = 300.0; a.d = 3.0;
    let p = a.pressure();
    assert!(a.set_composition(&Composition { methane: 0.5, ..Default::default() }).is_err());
    let q = a.pressure();
    println!("{} {}", p, q);
    assert_eq!(p.to_bits(), q.to_bits());
}
'''
