PROP='C13'
NEEDS='three compositions in turn: B lacks a gas of A and differs from A elsewhere, C has that gas again with the fraction it had in A and agrees with B in all other gases'
BREAKS='GERG-2008 remembers the previous fractions of the gases present only, so a gas that vanished and returns with its old fraction is not seen as a change'
EDITS=[('src/gerg2008.rs','            self.xold[i] = self.x[i];\n','            if self.x[i] > EPSILON {\n                self.xold[i] = self.x[i];\n            }\n')]
DEMO='''
fn p(a: &mut Gerg2008, m: f64, n: f64, e: f64) -> f64 {
    a.set_composition(&Composition { methane: m, nitrogen: n, ethane: e, ..Default::default() }).unwrap();
    a.t = 300.0; a.d = 8.0; a.pressure()
}
fn main() {
    let mut a = Gerg2008::new(); let mut b = Gerg2008::new();
    p(&mut a, 0.988, 0.0075, 0.0); p(&mut a, 0.988, 0.0, 0.0075);
    // all three fractions are the ones remembered
    let q = p(&mut a, 0.988, 0.0075, 0.0075); let r = p(&mut b, 0.988, 0.0075, 0.0075);
    println!("{} {}", q, r);
    assert_eq!(q.to_bits(), r.to_bits());
}
'''
