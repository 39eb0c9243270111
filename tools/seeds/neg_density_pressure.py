PROP='C17'
NEEDS='a pressure evaluation at a negative density (for example while a starting estimate is stored)'
BREAKS='DETAIL pressure() replaces a negative density by its magnitude in the object: the input of the calculation is changed'
EDITS=[('src/detail.rs','    pub fn pressure(&mut self) -> f64 {\n        self.x_terms();','    pub fn pressure(&mut self) -> f64 {\n        if self.d < 0.0 {\n            self.d = -self.d; // stored starting estimate\n        }\n        self.x_terms();')]
DEMO='''
fn main() {
    let mut a = Detail::new();
    a.set_composition(&gas()).unwrap();
    a.t = 300.0; a.d = -15.0;
    a.pressure();
    println!("{}", a.d);
    assert_eq!(a.d, -15.0);
}
'''
