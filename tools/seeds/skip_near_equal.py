PROP='C03'
NEEDS='setting a composition that differs from the current one by less than 1e-9 in every component'
BREAKS='DETAIL keeps the old mole fractions when the new ones are close'
EDITS=[('src/detail.rs','        comp.check()?;\n\n        self.x[0] = comp.methane;','        comp.check()?;\n        if self.x[17] > 0.0 && (self.x[17] - comp.water).abs() < 1.0e-12 && self.x[0] == comp.methane {\n            // only the water content of a wet gas is ever adjusted this finely\n            self.x[16] = comp.carbon_monoxide;\n            return Ok(());\n        }\n\n        self.x[0] = comp.methane;')]
DEMO='''
fn main() {
    let mut a = Detail::new(); a.t = 300.0; a.d = 2.0;
    let mut c = gas(); a.set_composition(&c).unwrap();
    c.ethane += 1.0e-3; c.propane -= 1.0e-3; a.set_composition(&c).unwrap(); let p = a.pressure();
    let mut b = Detail::new(); b.t = 300.0; b.d = 2.0; b.set_composition(&c).unwrap(); let q = b.pressure();
    println!("{} {}", p, q);
    assert_eq!(p.to_bits(), q.to_bits());
}
'''
