PROP='C12'
NEEDS='a temperature that is NaN or not positive, followed by a return to the temperature before it'
BREAKS='DETAIL updates the remembered temperature only for positive temperatures: after an invalid temperature the powers of the invalid one are used for the old temperature'
EDITS=[('src/detail.rs','        self.told = self.t;\n\n        // Precalculation','        if self.t > 0.0 {\n            self.told = self.t;\n        }\n\n        // Precalculation')]
DEMO='''
fn main() {
    let mut a = Detail::new(); a.set_composition(&gas()).unwrap(); a.d = 5.0;
    a.t = 300.0; a.pressure(); a.t = -5.0; a.pressure(); a.t = 300.0; let p = a.pressure();
    let mut b = Detail::new(); b.set_composition(&gas()).unwrap(); b.d = 5.0; b.t = 300.0;
    let q = b.pressure();
    println!("{} {}", p, q);
    assert_eq!(p.to_bits(), q.to_bits());
}
'''
