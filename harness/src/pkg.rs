//! File packages.  Under the symbolic executor these are primitives on its in-memory file system.
use std::cell::RefCell;
use std::io::{Read, Write};

thread_local! {
    static DIR: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn set_dir(d: &str) {
    DIR.with(|x| *x.borrow_mut() = d.to_string());
}
/// path of a scratch file
pub fn path(name: &str) -> String {
    DIR.with(|x| format!("{}/{}", x.borrow(), name))
}
/// write a package with these parts, in this order
pub fn write(path: &str, parts: &[(String, Vec<u8>)]) {
    let f = std::fs::File::create(path).expect("scratch file");
    let mut z = zip::ZipWriter::new(f);
    let o = zip::write::SimpleFileOptions::default();
    for (n, b) in parts {
        z.start_file(n.as_str(), o).expect("zip");
        z.write_all(b).expect("zip");
    }
    z.finish().expect("zip");
}
/// the parts of the package, None when the file is missing or is no readable package
pub fn read(path: &str) -> Option<Vec<(String, Vec<u8>)>> {
    let f = std::fs::File::open(path).ok()?;
    let mut z = zip::ZipArchive::new(f).ok()?;
    let mut v = Vec::new();
    for i in 0..z.len() {
        let mut e = z.by_index(i).ok()?;
        let n = e.name().to_string();
        let mut b = Vec::new();
        e.read_to_end(&mut b).ok()?;
        v.push((n, b));
    }
    Some(v)
}
/// make a directory at the path (so that saving there cannot work)
pub fn mkdir(path: &str) {
    let _ = std::fs::create_dir_all(path);
}
pub fn write_raw(path: &str, b: &[u8]) {
    std::fs::write(path, b).expect("scratch file");
}
pub fn read_raw(path: &str) -> Option<Vec<u8>> {
    std::fs::read(path).ok()
}

#[repr(C)]
struct Limit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn getrlimit(r: i32, l: *mut Limit) -> i32;
    fn setrlimit(r: i32, l: *const Limit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
/// names of what lies in the scratch folder, sorted
pub fn list() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(path("")).expect("scratch folder").map(|e| e.expect("scratch folder").file_name().to_string_lossy().to_string()).collect();
    v.sort();
    v
}
/// from now on no file can grow beyond this size: more bytes written are an error (files can still be created)
pub fn disk_limit(size: Option<u64>) {
    unsafe {
        signal(25, 1); // SIGXFSZ ignored: the write reports an error instead
        let mut l = Limit { cur: 0, max: 0 };
        getrlimit(1, &mut l);
        l.cur = size.unwrap_or(l.max);
        setrlimit(1, &l);
    }
}
