pub mod alloc;
pub mod eval;
pub mod run;
pub mod sexp;

/// Interposes getrandom(2)'s libc wrapper (std's source of hash keys) in the binary.
#[macro_export]
macro_rules! control_hashing {
    () => {
        /// # Safety
        /// Same contract as libc's getrandom.
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
            $crate::run::fill_random(buf, len)
        }
    };
}
