PROP='C01'
NEEDS='a composition whose sum is too small (between 1e-10 and 0.99)'
BREAKS='the composition check compares the signed excess, so sums below 0.99 are accepted'
EDITS=[('src/composition.rs','        if (self.sum() - 1.0).abs() > 1.0e-2 {','        if self.sum() - 1.0 > 1.0e-2 {')]
DEMO='''
fn main() {
    let c = Composition { methane: 0.5, ethane: 0.2, ..Default::default() };
    println!("{:?}", c.check());
    assert_eq!(c.check(), Err(CompositionError::BadSum));
    assert!(Detail::new().set_composition(&c).is_err());
}
'''
