PROP='C18'
NEEDS='a density between 1e-15 and 1e-12 mol/l (there: d2P/dD2 and the Joule-Thomson coefficient), or exactly at the cut-off'
BREAKS='DETAIL: the ideal-gas entropy uses the logarithm of the density only above 1e-12 while the rest uses the documented cut-off'
EDITS=[('src/detail.rs','        if self.d > EPSILON {\n            self.h = self.u + self.p / self.d;','        if self.d > 1.0e-12 * EPSILON {\n            self.h = self.u + self.p / self.d;')]
DEMO='''
fn main() {
    let mut a = Detail::new(); a.set_composition(&gas()).unwrap(); a.t = 300.0; a.d = 1.0e-16; a.properties();
    println!("{} {}", a.jt, a.d2p_dd2);
    assert_eq!(a.jt, 1.0e20);
    assert_eq!(a.d2p_dd2, 0.0);
}
'''
