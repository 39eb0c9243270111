PROP='C09'
NEEDS='a temperature low enough for theta/T > 8 (below 280 K for hydrogen sulfide or hydrocarbons with high vibrational temperatures)'
BREAKS='GERG-2008 drops ideal-gas heat-capacity terms that are "frozen out": their contribution to energy and entropy does not vanish'
EDITS=[('src/gerg2008.rs','                        th0t = th0ij / self.t;\n','                        th0t = th0ij / self.t;\n                        if th0t > 8.0 {\n                            continue; // frozen out\n                        }\n')]
DEMO='''
fn main() {
    let g = Composition { hydrogen_sulfide: 1.0, ..Default::default() };
    let u = |t: f64| { let mut a = Gerg2008::new(); a.set_composition(&g).unwrap(); a.t = t; a.d = 1.0e-6; a.properties(); a.u };
    let mut worst: f64 = 0.0; let mut t = 150.0;
    while t < 500.0 { worst = worst.max((u(t + 0.5) - u(t)).abs()); t += 0.5; }
    println!("{}", worst);
    assert!(worst < 50.0);
}
'''
