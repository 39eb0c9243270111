PROP='C15'
NEEDS='a null handle given to gerg_set_density'
BREAKS='the null handle is ignored silently instead of stopping with the documented assertion'
EDITS=[('src/ffi.rs','        assert!(!ptr.is_null());\n        let gerg = &mut *ptr;\n        gerg.d = density;','        if let Some(gerg) = ptr.as_mut() {\n            gerg.d = density;\n        }')]
DEMO='''
fn main() {
    if std::env::args().count() > 1 { unsafe { aga8::ffi::gerg2008::gerg_set_density(std::ptr::null_mut(), 1.0); } return; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    println!("{:?} {}", o.status, e);
    assert!(!o.status.success() && e.contains("assertion failed: !ptr.is_null()"));
}
'''
