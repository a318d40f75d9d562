//! Run-time loading of shared libraries (libLLVM of the toolchain, libz3).
use std::ffi::{c_char, c_int, c_void, CStr, CString};

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

pub struct Lib(*mut c_void, String);

impl Lib {
    pub fn open(path: &str) -> Option<Lib> {
        let c = CString::new(path).unwrap();
        let h = unsafe { dlopen(c.as_ptr(), 2) };
        if h.is_null() {
            unsafe {
                let e = dlerror();
                if !e.is_null() {
                    eprintln!("dlopen {}: {}", path, CStr::from_ptr(e).to_string_lossy());
                }
            }
            None
        } else {
            Some(Lib(h, path.to_string()))
        }
    }
    pub fn sym(&self, name: &str) -> *mut c_void {
        let c = CString::new(name).unwrap();
        let p = unsafe { dlsym(self.0, c.as_ptr()) };
        if p.is_null() {
            panic!("symbol {} not found in {}", name, self.1);
        }
        p
    }
}

/// Declares a struct of function pointers filled from a library.
#[macro_export]
macro_rules! dl_api {
    ($S:ident { $(fn $n:ident($($t:ty),* $(,)?) $(-> $r:ty)?;)* }) => {
        #[allow(non_snake_case)]
        pub struct $S { $(pub $n: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl $S {
            pub fn load(l: &$crate::dl::Lib) -> $S {
                unsafe { $S { $($n: std::mem::transmute(l.sym(stringify!($n))),)* } }
            }
        }
    };
}
