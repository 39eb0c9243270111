PROP='C02'
NEEDS='a composition with a tiny sum (below 1e-10), which is empty for check but has a finite positive sum'
BREAKS='normalize reports Empty for every sum that check calls empty'
EDITS=[('src/composition.rs','        if sum > 0.0 {\n            let factor','        if sum > 1.0e-10 {\n            let factor')]
DEMO='''
fn main() {
    let mut c = Composition { methane: 3.0e-12, ethane: 1.0e-12, ..Default::default() };
    assert!(c.normalize().is_ok());
    assert!((c.methane - 0.75).abs() < 1.0e-12);
}
'''
