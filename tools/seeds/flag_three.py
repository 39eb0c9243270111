PROP='C11'
NEEDS='a phase flag other than 1 and 2, positive, on a state that fails the phase check'
BREAKS='only flags 1 and 2 make the phase check; larger flags skip it'
EDITS=[('src/gerg2008.rs','                        if iflag > 0 {','                        if iflag == 1 || iflag == 2 {')]
DEMO='''
fn main() {
    let mut n = 0; let mut bad = 0;
    let gases = [Composition { water: 1.0, ..Default::default() }, Composition { propane: 1.0, ..Default::default() }, Composition { methane: 0.5, decane: 0.5, ..Default::default() }, Composition { hydrogen: 0.5, water: 0.5, ..Default::default() }];
    for g in gases.iter() { for i in 0..40 { for j in 0..40 {
        let mk = |f: i32| { let mut a = Gerg2008::new(); a.set_composition(g).unwrap(); a.t = 70.0 + 15.0 * i as f64; a.p = (0.5 * j as f64 - 3.0).exp(); let r = a.density(f).is_ok(); (r, a.d) };
        let (a, b) = (mk(1), mk(3)); n += 1;
        if a.0 != b.0 { bad += 1; }
    } } }
    println!("{} of {} differ", bad, n);
    assert_eq!(bad, 0);
}
'''
