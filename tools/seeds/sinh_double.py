PROP='C07'
NEEDS='a gas with a third or fourth ideal-gas heat-capacity term (j = 5, 6) at high temperature'
BREAKS='DETAIL drops hyperbolic terms whose argument is small (theta/T < 0.25), which are not negligible for T above 4 theta'
EDITS=[('src/detail.rs','                        th0t = TH0I[i][j] / self.t;\n','                        th0t = TH0I[i][j] / self.t;\n                        if th0t < 0.25 {\n                            continue; // fully excited\n                        }\n')]
DEMO='''
fn main() {
    let g = Composition { hydrogen: 1.0, ..Default::default() };
    let cv = |t: f64| { let mut a = Detail::new(); a.set_composition(&g).unwrap(); a.t = t; a.d = 1.0e-3; a.properties(); a.cv };
    let mut worst: f64 = 0.0; let mut t = 200.0;
    while t < 2000.0 { worst = worst.max((cv(t + 0.5) - cv(t)).abs()); t += 0.5; }
    println!("{}", worst);
    assert!(worst < 0.05);
}
'''
