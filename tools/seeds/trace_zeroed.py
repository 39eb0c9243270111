PROP='C17'
NEEDS='a GERG-2008 composition with a trace fraction of 1e-15 or less'
BREAKS='the reducing parameters drop traces from the stored composition instead of skipping them'
EDITS=[('src/gerg2008.rs','        for i in 1..=NC_GERG {\n            if self.x[i] != self.xold[i] {','        for i in 1..=NC_GERG {\n            if self.x[i] <= EPSILON {\n                self.x[i] = 0.0;\n            }\n            if self.x[i] != self.xold[i] {')]
DEMO='''
fn main() {
    let mut a = Gerg2008::new();
    a.set_composition(&Composition { methane: 0.9, helium: 0.1, argon: 8.0e-16, ..Default::default() }).unwrap();
    a.molar_mass(); let m = a.mm; let x = a.x;
    a.t = 300.0; a.d = 2.0; a.pressure();
    println!("{} {:?}", m, a.x);
    assert!(x.iter().zip(a.x.iter()).all(|(p, q)| p.to_bits() == q.to_bits()));
}
'''
