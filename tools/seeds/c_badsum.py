PROP='C14'
NEEDS='a GERG-2008 composition set through the C interface whose sum is wrong but not zero'
BREAKS='the C interface reports Empty where the Rust method reports BadSum'
EDITS=[('src/ffi.rs','        match gerg.set_composition(composition) {\n            Ok(_) => *_err = CompositionError::Ok,\n            Err(e) => *_err = e,\n        }','        *_err = if gerg.set_composition(composition).is_ok() {\n            CompositionError::Ok\n        } else {\n            CompositionError::Empty\n        };')]
DEMO='''
use aga8::ffi::gerg2008::*;
fn main() { unsafe {
    let h = gerg_new(); let mut e = CompositionError::Ok;
    gerg_set_composition(h, &Composition { methane: 0.5, ..Default::default() }, &mut e);
    gerg_free(h);
    println!("{:?}", e);
    assert!(matches!(e, CompositionError::BadSum));
} }
'''
