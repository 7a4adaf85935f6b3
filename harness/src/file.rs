//! A file for the constructors that open one by name. Under the symbolic executor the four C functions that the standard
//! library's `File` needs are modelled here; the native replay uses a real (already unlinked) file.
#[cfg(not(feature = "native"))]
mod imp {
    static mut DATA: Vec<u8> = Vec::new();
    static mut POS: [usize; 4] = [0; 4];
    static mut KIND: [u8; 4] = [0; 4]; // 0 closed, 1 the file, 2 a directory
    static mut STEP: usize = 0;
    static mut ERRNO: i32 = 0;
    pub fn put(data: &[u8], step: usize) -> String { unsafe { DATA = data.to_vec(); STEP = step; } String::from("/verif-file.flac") }
    pub fn open_files() -> u32 { unsafe { let mut n = 0; let mut i = 0; while i < 4 { n += (KIND[i] != 0) as u32; i += 1 } n } }
    unsafe fn eq(mut p: *const u8, s: &[u8]) -> bool { for &b in s { if *p != b { return false } p = p.add(1) } *p == 0 }
    #[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, _flags: i32, _mode: u32) -> i32 {
        let k = if eq(path, b"/verif-file.flac") { 1 } else if eq(path, b"/") { 2 } else { ERRNO = 2; return -1 };
        let mut i = 0; while i < 4 { if KIND[i] == 0 { KIND[i] = k; POS[i] = 0; return 10 + i as i32 } i += 1 } ERRNO = 24; -1
    }
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let i = (fd - 10) as usize; if i >= 4 || KIND[i] == 0 { ERRNO = 9; return -1 } if KIND[i] == 2 { ERRNO = 21; return -1 }
        let left = DATA.len() - POS[i]; let mut m = if n < left { n } else { left }; if STEP > 0 && m > STEP { m = STEP }
        core::ptr::copy_nonoverlapping(DATA.as_ptr().add(POS[i]), buf, m); POS[i] += m; m as isize
    }
    #[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { let i = (fd - 10) as usize; if i >= 4 || KIND[i] == 0 { ERRNO = 9; return -1 } KIND[i] = 0; 0 }
    #[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, _cmd: i32, _arg: i64) -> i32 { let i = (fd - 10) as usize; if i >= 4 || KIND[i] == 0 { ERRNO = 9; return -1 } 1 }
    #[no_mangle] pub unsafe extern "C" fn __errno_location() -> *mut i32 { &raw mut ERRNO }
}
#[cfg(feature = "native")]
mod imp {
    use std::io::Write; use std::os::unix::io::IntoRawFd;
    pub fn put(data: &[u8], _step: usize) -> String {
        let p = std::env::temp_dir().join(format!("claxon-replay-{}", std::process::id()));
        let mut f = std::fs::OpenOptions::new().read(true).write(true).create_new(true).open(&p).expect("scratch file");
        std::fs::remove_file(&p).expect("scratch file"); f.write_all(data).expect("scratch file"); format!("/proc/self/fd/{}", f.into_raw_fd())
    }
    pub fn open_files() -> u32 { let me = std::fs::read_dir("/proc/self/fd").map(|d| d.filter(|e| e.as_ref().ok().and_then(|e| std::fs::read_link(e.path()).ok()).map_or(false, |l| l.to_string_lossy().contains("claxon-replay-"))).count() as u32).unwrap_or(1); me.saturating_sub(1) }
}
pub use imp::*;
