PROP='C08'
NEEDS='a dense state (reduced density above about 1.5), where the high powers of the reduced density exceed 12'
BREAKS='GERG-2008 sets exp(-delta^c) to zero once delta^c exceeds 12, although the term is still several 1e-6 there'
EDITS=[('src/gerg2008.rs','            expd[i] = (-delp[i]).exp();\n        }','            // beyond this the exponential no longer matters\n            expd[i] = if delp[i] > 12.0 { 0.0 } else { (-delp[i]).exp() };\n        }')]
DEMO='''
// dP/dD must be the slope of the delivered pressure: a jump in the pressure shows as a huge slope.
fn p(d: f64) -> f64 {
    let mut a = Gerg2008::new();
    a.set_composition(&Composition { methane: 1.0, ..Default::default() }).unwrap();
    a.t = 200.0; a.d = d; a.pressure()
}
fn main() {
    let mut worst: f64 = 0.0;
    let mut d = 10.0; let h = 1.0e-3;
    while d < 32.0 {
        let (a, b, c) = (p(d - h), p(d), p(d + h));
        worst = worst.max(((a - 2.0 * b + c) / b).abs());
        d += h;
    }
    println!("largest second difference {:e}", worst);
    assert!(worst < 1.0e-6);
}
'''
