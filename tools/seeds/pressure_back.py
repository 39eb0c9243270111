PROP='C17'
NEEDS='GERG-2008 density with a positive phase flag that succeeds'
BREAKS='the accepted state stores its own pressure over the requested one'
EDITS=[('src/gerg2008.rs','                            if (self.properties() <= 0.0\n                                ||','                            let p3 = self.properties();\n                            if (p3 <= 0.0\n                                ||'),
('src/gerg2008.rs','                        return Ok(()); // Iteration converged','                        if iflag > 0 {\n                            self.p = self.d * RGERG * self.t * self.z;\n                        }\n                        return Ok(()); // Iteration converged')]
DEMO='''
fn main() {
    let mut n = 0;
    for k in 0..200 {
        let mut a = Gerg2008::new(); a.set_composition(&gas()).unwrap();
        a.t = 250.0 + k as f64; a.p = 100.0 + 61.3 * k as f64; let p = a.p;
        let _ = a.density(1);
        if a.p.to_bits() != p.to_bits() { n += 1; }
    }
    println!("{} requests changed", n);
    assert_eq!(n, 0);
}
'''
