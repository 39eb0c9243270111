PROP='C04'
NEEDS='properties() of GERG-2008, then a composition change of less than 1e-6 in every fraction, then properties() or molar_mass()'
BREAKS='GERG-2008 properties() reuses the molar mass while every mole fraction is within 1e-6 of the ones used last'
EDITS=[('src/gerg2008.rs','        self.mm = 0.0;\n        for (i, mmi_gerg) in MMI_GERG.iter().enumerate().skip(1) {\n            self.mm += self.x[i] * mmi_gerg;\n        }\n',
'''        // the molar mass hardly changes for tiny changes of composition
        let near = self.x.iter().zip(self.xold.iter()).all(|(a, b)| (a - b).abs() < 1.0e-6);
        if near && self.mm > 0.0 {
            return;
        }
        self.mm = 0.0;
        for (i, mmi_gerg) in MMI_GERG.iter().enumerate().skip(1) {
            self.mm += self.x[i] * mmi_gerg;
        }
''')]
DEMO='''
fn main() {
    let mut a = Gerg2008::new();
    a.t = 300.0; a.d = 3.0;
    let c = Composition { methane: 0.9, ethane: 0.1, ..Default::default() };
    a.set_composition(&c).unwrap(); a.properties();
    let d = Composition { methane: 0.9000005, ethane: 0.0999995, ..Default::default() };
    a.set_composition(&d).unwrap(); a.properties();
    let want = 0.9000005 * 16.04246 + 0.0999995 * 30.06904;
    println!("{} {}", a.mm, want);
    assert!((a.mm - want).abs() < 1.0e-9);
}
'''
