PROP='C12'
NEEDS='properties() at T1, then a pressure evaluation at T2, then any evaluation at T1 again'
BREAKS='DETAIL records the temperature of its temperature powers only in the full property calculation: after a pressure evaluation at another temperature, returning to the first one uses the powers of the second'
EDITS=[('src/detail.rs','        self.told = self.t;\n','        if itau > 0 {\n            self.told = self.t;\n        }\n')]
DEMO='''
fn main() {
    let mut a = Detail::new(); a.set_composition(&gas()).unwrap();
    a.d = 8.0; a.t = 300.0; a.properties(); let p = a.p + a.h;
    a.t = 350.0; a.pressure();
    a.t = 300.0; a.properties(); let q = a.p + a.h;
    println!("{} {}", p, q);
    assert_eq!(p.to_bits(), q.to_bits());
}
'''
