use std::ffi::{c_char, c_int, c_void, CString};
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
pub struct Lib(*mut c_void);
impl Lib {
    pub fn open(p: &str) -> Result<Lib, String> {
        let c = CString::new(p).unwrap();
        let h = unsafe { dlopen(c.as_ptr(), 2) };
        if h.is_null() { return Err(unsafe { std::ffi::CStr::from_ptr(dlerror()) }.to_string_lossy().into_owned()); }
        Ok(Lib(h))
    }
    pub fn sym(&self, n: &str) -> *mut c_void {
        let c = CString::new(n).unwrap();
        let p = unsafe { dlsym(self.0, c.as_ptr()) };
        if p.is_null() { panic!("symbol {} not found", n); }
        p
    }
}
