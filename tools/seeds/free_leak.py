PROP='C15'
NEEDS='releasing many handles'
BREAKS='gerg_free runs the destructor in place but never returns the allocation'
EDITS=[('src/ffi.rs','    pub unsafe extern "C" fn gerg_free(ptr: *mut Gerg2008) {\n        if ptr.is_null() {\n            return;\n        }\n        drop(Box::from_raw(ptr));','    pub unsafe extern "C" fn gerg_free(ptr: *mut Gerg2008) {\n        if ptr.is_null() {\n            return;\n        }\n        std::ptr::drop_in_place(ptr);')]
DEMO='''
use aga8::ffi::gerg2008::*;
fn rss() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap();
    s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
}
fn main() {
    unsafe { for _ in 0..100 { gerg_free(gerg_new()); } }
    let a = rss();
    unsafe { for _ in 0..4000 { gerg_free(gerg_new()); } gerg_free(std::ptr::null_mut()); }
    let b = rss();
    println!("{} -> {}", a, b);
    assert!(b < a + 20_000_000);
}
'''
