PROP='C14'
NEEDS='a DETAIL density request through the C interface with pressure 0'
BREAKS='the C interface reports IterationFail where Rust reports PressureTooLow'
EDITS=[('src/ffi.rs','        match aga8.density() {\n            Ok(_) => *_err = DensityError::Ok,\n            Err(e) => *_err = e,\n        }','        match aga8.density() {\n            Ok(_) => *_err = DensityError::Ok,\n            Err(_) => *_err = DensityError::IterationFail,\n        }')]
DEMO='''
use aga8::ffi::detail::*;
fn main() { unsafe {
    let h = aga8_new(); let mut ce = CompositionError::Ok; let mut e = DensityError::Ok;
    aga8_set_composition(h, &gas(), &mut ce); aga8_set_temperature(h, 300.0); aga8_set_pressure(h, 0.0);
    aga8_calculate_density(h, &mut e); aga8_free(h);
    println!("{:?}", e as i32);
    let mut f = DensityError::Ok; let k = aga8_new(); aga8_set_composition(k, &gas(), &mut ce); aga8_set_temperature(k, 300.0); aga8_set_pressure(k, 0.0);
    aga8_calculate_density(k, &mut f); assert!(f as i32 == DensityError::PressureTooLow as i32); aga8_free(k);
} }
'''
