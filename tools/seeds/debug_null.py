PROP='C15'
NEEDS='a null handle and a build without debug assertions'
BREAKS='the null check of aga8_get_properties disappears in release builds: null is dereferenced'
EDITS=[('src/ffi.rs','        assert!(!ptr.is_null());\n        let aga8 = &*ptr;','        debug_assert!(!ptr.is_null());\n        let aga8 = &*ptr;')]
DEMO='''
fn main() {
    if std::env::args().count() > 1 { unsafe { let p = aga8::ffi::detail::aga8_get_properties(std::ptr::null()); println!("{}", p.d); } return; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    println!("{:?} {}", o.status, e);
    assert!(e.contains("assertion failed: !ptr.is_null()"));
}
'''
