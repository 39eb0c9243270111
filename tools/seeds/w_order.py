PROP='C18'
NEEDS='a mechanically unstable state (dP/dD below zero), where the square of the speed of sound would be negative'
BREAKS='GERG-2008 takes the square root before the test for a negative square, so the speed of sound is NaN instead of 0'
EDITS=[('src/gerg2008.rs','        if self.w < 0.0 {\n            self.w = 0.0;\n        }\n        self.w = self.w.sqrt();','        self.w = self.w.sqrt();\n        if self.w < 0.0 {\n            self.w = 0.0;\n        }')]
DEMO='''
fn main() {
    let mut a = Gerg2008::new();
    a.set_composition(&Composition { propane: 1.0, ..Default::default() }).unwrap();
    a.t = 250.0;
    let mut n = 0;
    for k in 1..120 {
        a.d = 0.1 * k as f64;
        a.properties();
        if a.dp_dd < 0.0 { n += 1; }
        assert!(a.w >= 0.0, "w = {} at d = {} (dp/dd {})", a.w, a.d, a.dp_dd);
    }
    assert!(n > 0);
}
'''
