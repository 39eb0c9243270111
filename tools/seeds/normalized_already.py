PROP='C02'
NEEDS='a composition whose sum is within 1e-6 of one but not one'
BREAKS='normalize leaves a nearly normalised composition as it is, so the result does not sum to one'
EDITS=[('src/composition.rs','            let factor = 1.0 / sum;','            // already normalized: leave it bit for bit\n            let factor = if (sum - 1.0).abs() < 1.0e-6 { 1.0 } else { 1.0 / sum };')]
DEMO='''
fn main() {
    let mut c = Composition { methane: 0.9000005, ethane: 0.1, ..Default::default() };
    c.normalize().unwrap();
    println!("{:.16}", c.sum());
    assert!((c.sum() - 1.0).abs() < 1.0e-14);
}
'''
