PROP='C06'
NEEDS='a dense state: fourth power of the reduced density above 5, i.e. above about 20 mol/l for natural gas'
BREAKS='DETAIL sets the exponential density factors to zero once their argument exceeds 5'
EDITS=[('src/detail.rs','            expn[n] = (-dknn[n]).exp();','            expn[n] = if dknn[n] > 5.0 { 0.0 } else { (-dknn[n]).exp() };')]
DEMO='''
// the pressure must be a smooth function of density
fn main() {
    let mut a = Detail::new(); a.set_composition(&gas()).unwrap(); a.t = 250.0;
    let mut p = |d: f64| { a.d = d; a.pressure() };
    let mut worst: f64 = 0.0; let mut d = 5.0; let h = 1.0e-4;
    while d < 30.0 {
        let (x, y, z) = (p(d - h), p(d), p(d + h));
        worst = worst.max((x + z - 2.0 * y).abs() / (1.0 + y.abs()));
        d += h;
    }
    println!("{}", worst);
    assert!(worst < 1.0e-6);
}
'''
