//! The operating system as the tool sees it: arguments, standard input, one file, standard output and error.
use std::ffi::{c_char, c_int, c_long, c_uint, c_void};

pub struct Os<'a> {
    pub args: &'static [&'static str],
    pub stdin: &'a [u8],
    /// most bytes one read gives
    pub chunk: usize,
    pub file: Option<(&'a str, &'a [u8])>,
    /// 1: opening or the first read fails, 2: the second read fails, 3: the file is a directory, 4: an interrupted first read, then a failure
    pub fail: i32,
}
pub struct Out { pub out: Vec<u8>, pub err: Vec<u8> }
struct State { stdin: *const u8, stdin_len: usize, at: usize, chunk: usize, path: *const u8, path_len: usize, file: *const u8, file_len: usize, file_at: usize, fail: i32, reads: i32, out: Vec<u8>, err: Vec<u8> }
static mut ON: bool = false;
static mut S: State = State { stdin: std::ptr::null(), stdin_len: 0, at: 0, chunk: 0, path: std::ptr::null(), path_len: 0, file: std::ptr::null(), file_len: 0, file_at: 0, fail: 0, reads: 0, out: vec![], err: vec![] };
const FD: c_int = 777;

extern "C" {
    fn sym_args(argc: c_int, argv: *const *const c_char);
    fn __errno_location() -> *mut c_int;
    #[link_name = "sym_sys3"]
    fn sys3(n: c_long, a: c_long, b: *const c_void, c: usize) -> isize;
}
#[allow(static_mut_refs)]
fn s() -> &'static mut State { unsafe { &mut S } }

pub fn begin(o: Os) {
    let argv: Vec<*const c_char> = o.args.iter().map(|a| Box::leak(format!("{a}\0").into_bytes().into_boxed_slice()).as_ptr() as *const c_char).chain([std::ptr::null()]).collect();
    unsafe { sym_args(o.args.len() as c_int, Box::leak(argv.into_boxed_slice()).as_ptr()); }
    let t = s();
    t.stdin = o.stdin.as_ptr(); t.stdin_len = o.stdin.len(); t.at = 0; t.chunk = o.chunk; t.fail = o.fail; t.reads = 0;
    if let Some((p, f)) = o.file { t.path = p.as_ptr(); t.path_len = p.len(); t.file = f.as_ptr(); t.file_len = f.len(); t.file_at = 0; }
    unsafe { ON = true; }
}
pub fn end() -> Out { unsafe { ON = false; } Out { out: std::mem::take(&mut s().out), err: std::mem::take(&mut s().err) } }

/// without colour sequences
pub fn plain(v: Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        if v[i] == 0x1b && v.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < v.len() && (v[j].is_ascii_digit() || v[j] == b';') { j += 1; }
            if v.get(j) == Some(&b'm') { i = j + 1; continue; }
        }
        o.push(v[i]);
        i += 1;
    }
    o
}
fn fail(e: c_int) -> isize { unsafe { *__errno_location() = e; } -1 }

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    if !ON { return sys3(0, fd as c_long, buf as *const c_void, n); }
    let t = s();
    if fd != 0 && fd != FD { return fail(9); }
    t.reads += 1;
    match (t.fail, t.reads) {
        (1, 1) | (2, 2) | (4, 2) => return fail(5),
        (3, _) => return fail(21),
        (4, 1) => return fail(4),
        _ => {}
    }
    let (p, len, at) = if fd == 0 { (t.stdin, t.stdin_len, &mut t.at) } else { (t.file, t.file_len, &mut t.file_at) };
    let k = n.min(len - *at).min(t.chunk);
    std::ptr::copy_nonoverlapping(p.add(*at), buf, k);
    *at += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
    if !ON { return sys3(1, fd as c_long, buf as *const c_void, n); }
    let b = std::slice::from_raw_parts(buf, n);
    match fd { 1 => s().out.extend_from_slice(b), 2 => s().err.extend_from_slice(b), _ => return fail(9) }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const (*const u8, usize), k: c_int) -> isize {
    let mut n = 0;
    for i in 0..k as usize { let (p, l) = *v.add(i); let r = write(fd, p, l); if r < 0 { return r; } n += r; }
    n
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, _flags: c_int, _mode: c_uint) -> c_int {
    let t = s();
    if !ON || t.path.is_null() { return fail(2) as c_int; }
    if t.fail == 1 { return fail(13) as c_int; }
    let p = path as *const u8;
    for i in 0..t.path_len { if *p.add(i) != *t.path.add(i) { return fail(2) as c_int; } }
    if *p.add(t.path_len) != 0 { return fail(2) as c_int; }
    t.file_at = 0;
    FD
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(_fd: c_int, _b: *mut c_void) -> c_int { fail(9) as c_int }
#[no_mangle]
pub unsafe extern "C" fn statx(_fd: c_int, _p: *const c_char, _f: c_int, _m: c_uint, _b: *mut c_void) -> c_int { fail(38) as c_int }
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int { if fd == FD { 0 } else if ON { fail(9) as c_int } else { sys3(3, fd as c_long, std::ptr::null(), 0) as c_int } }
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_e: c_int, buf: *mut u8, n: usize) -> c_int {
    let t = b"system error\0";
    if n < t.len() { return 34; }
    std::ptr::copy_nonoverlapping(t.as_ptr(), buf, t.len());
    0
}
