PROP='C12'
NEEDS='pressure or density calculated after a composition change and before the molar mass: set composition, calculate, set another composition, pressure(), then properties()'
BREAKS='DETAIL skips recomputing the molar mass when the composition equals the one of the last x_terms call, but the pressure calculation updates that marker without updating the molar mass'
EDITS=[('src/detail.rs','        let mut mm = 0.0;\n        for (i, item) in MMI.iter().enumerate() {','        if self.mm > 0.0 && self.x == self.xold {\n            return self.mm; // unchanged composition\n        }\n        let mut mm = 0.0;\n        for (i, item) in MMI.iter().enumerate() {')]
DEMO='''
fn main() {
    let mut a = Detail::new();
    a.t = 300.0; a.d = 3.0;
    a.set_composition(&gas()).unwrap();
    a.properties();
    let other = Composition { methane: 0.9, ethane: 0.1, ..Default::default() };
    a.set_composition(&other).unwrap();
    a.pressure();
    a.properties();
    let mut f = Detail::new();
    f.t = 300.0; f.d = 3.0;
    f.set_composition(&other).unwrap();
    f.properties();
    println!("{} {} / {} {}", a.mm, f.mm, a.w, f.w);
    assert_eq!(a.mm.to_bits(), f.mm.to_bits());
    assert_eq!(a.w.to_bits(), f.w.to_bits());
}
'''
