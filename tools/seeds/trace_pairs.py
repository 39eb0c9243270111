PROP='C06'
NEEDS='a trace component (below 1e-6 mole fraction) next to other gases'
BREAKS='DETAIL drops the binary pair contributions of components below 1e-6, so a trace gas no longer contributes as the equation says'
EDITS=[('src/detail.rs','                    if xj > &0.0 {\n                        xij = 2.0 * xi * xj;','                    if xj > &1.0e-6 {\n                        xij = 2.0 * xi * xj;')]
DEMO='''
// The response to a trace of decane must be the same slope below and above 1e-6.
fn z(x: f64) -> f64 {
    let mut a = Detail::new();
    a.set_composition(&Composition { methane: 1.0 - x, decane: x, ..Default::default() }).unwrap();
    a.t = 320.0; a.d = 6.0; a.pressure(); a.z
}
fn main() {
    let z0 = z(0.0);
    let lo = (z(9.0e-7) - z0) / 9.0e-7;
    let hi = (z(1.1e-5) - z0) / 1.1e-5;
    println!("slopes {} {}", lo, hi);
    assert!((lo / hi - 1.0).abs() < 1.0e-3);
}
'''
