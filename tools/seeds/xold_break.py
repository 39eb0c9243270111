PROP='C13'
NEEDS='A evaluated a few times, then B differing from A in an early and a late gas, then C with the early gas of B and the late gas of A, all on one object'
BREAKS='GERG-2008 stops comparing (and remembering) mole fractions at the first change, so the remembered composition is a mixture of two and a later change goes unnoticed'
EDITS=[('src/gerg2008.rs','                icheck = 1;\n            }\n            self.xold[i] = self.x[i];\n        }','                icheck = 1;\n                self.xold[i] = self.x[i];\n                break; // one difference is enough\n            }\n        }')]
DEMO='''
fn main() {
    let a = Composition { methane: 0.90, nitrogen: 0.05, ethane: 0.05, ..Default::default() };
    let b = Composition { methane: 0.85, nitrogen: 0.05, ethane: 0.10, ..Default::default() };
    let c = Composition { methane: 0.85, nitrogen: 0.10, ethane: 0.05, ..Default::default() };
    let c2 = Composition { methane: 0.85, nitrogen: 0.05, ethane: 0.05, hydrogen: 0.05, ..Default::default() };
    let c3 = Composition { methane: 0.8505, nitrogen: 0.05, ethane: 0.1, ..Default::default() };
    let c4 = Composition { methane: 0.85, nitrogen: 0.05, ethane: 0.1005, ..Default::default() };
    let mut o = Gerg2008::new();
    o.t = 300.0; o.d = 6.0;
    for (k, s) in [a, b, c, c2, c3, c4].iter().enumerate() {
        o.set_composition(s).unwrap();
        let p = o.pressure();
        let mut f = Gerg2008::new();
        f.t = 300.0; f.d = 6.0;
        f.set_composition(s).unwrap();
        let q = f.pressure();
        println!("{} {} {}", k, p, q);
        assert_eq!(p.to_bits(), q.to_bits());
    }
    // A, B', C with B' -> C only in the late gas, back to the value of A
    let a = Composition { methane: 0.90, ethane: 0.095, ..Default::default() };
    let b = Composition { methane: 0.905, ethane: 0.09, ..Default::default() };
    let c = Composition { methane: 0.905, ethane: 0.095, ..Default::default() };
    let mut o = Gerg2008::new();
    o.t = 300.0; o.d = 6.0;
    let mut last = 0.0;
    for s in [&a, &a, &a, &b, &c] { o.set_composition(s).unwrap(); last = o.pressure(); }
    let mut f = Gerg2008::new();
    f.t = 300.0; f.d = 6.0;
    f.set_composition(&c).unwrap();
    let q = f.pressure();
    println!("{} {}", last, q);
    assert_eq!(last.to_bits(), q.to_bits());
}
'''
