PROP='C14'
NEEDS='a negative density stored through the C interface (the documented way to give the search a starting estimate)'
BREAKS='gerg_set_density stores the magnitude, so a starting estimate can no longer be given and the search finds another root than the Rust interface'
EDITS=[('src/ffi.rs','        gerg.d = density;','        gerg.d = density.abs();')]
DEMO='''
use aga8::ffi::gerg2008::*;
fn main() {
    let c = Composition { propane: 1.0, ..Default::default() };
    let mut a = Gerg2008::new();
    a.set_composition(&c).unwrap();
    a.t = 300.0; a.p = 950.0; a.d = -12.0;
    let r = a.density(0).is_ok();
    let e = unsafe {
        let h = gerg_new();
        let mut ce = CompositionError::Ok; let mut de = DensityError::Ok;
        gerg_set_composition(h, &c, &mut ce);
        gerg_set_temperature(h, 300.0); gerg_set_pressure(h, 950.0); gerg_set_density(h, -12.0);
        gerg_calculate_density(h, &mut de);
        let d = gerg_get_density(h);
        gerg_free(h);
        (d, de)
    };
    println!("{} {} {:?}", r, a.d, e);
    assert_eq!(a.d.to_bits(), e.0.to_bits());
}
'''
