#![allow(dead_code, unused_imports, unused_macros)]
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::*;
use cbm::Petscii;
use std::io::{Read, Write};
macro_rules! at {
    ($d:expr, $t:expr, $s:expr) => {{
        let mut l = $d.native_disk_format().first_directory_location();
        l.0 = $t;
        l.1 = $s;
        l
    }};
}
fn d64() -> Box<dyn Disk> {
    let mut d = D64::open_memory(D64::geometry(false)).unwrap();
    d.write_format(&"demo".into(), &"d1".into()).unwrap();
    Box::new(d)
}
fn d71() -> Box<dyn Disk> {
    let mut d = D71::open_memory(D71::geometry(false)).unwrap();
    d.write_format(&"demo".into(), &"d1".into()).unwrap();
    Box::new(d)
}
fn d81() -> Box<dyn Disk> {
    let mut d = D81::open_memory(D81::geometry(false)).unwrap();
    d.write_format(&"demo".into(), &"d1".into()).unwrap();
    Box::new(d)
}
fn data(seed: u32, n: usize) -> Vec<u8> {
    (0..n as u32).map(|i| (i.wrapping_mul(31) ^ (i >> 8) ^ seed.wrapping_mul(77)) as u8).collect()
}
fn put(d: &mut dyn Disk, name: &str, b: &[u8]) {
    let f = d.create_file(&name.into(), FileType::PRG, Scheme::Linear).unwrap();
    f.writer().unwrap().write_all(b).unwrap();
}
fn get(d: &dyn Disk, name: &str) -> Vec<u8> {
    let mut v = vec![];
    d.open_file(&name.into()).unwrap().reader().unwrap().read_to_end(&mut v).unwrap();
    v
}
/// Put a hand-made directory entry into a free slot (bytes 2..32).
fn entry(d: &mut dyn Disk, e: [u8; 30]) {
    let s = d.next_free_directory_entry().unwrap();
    let p = s.position.unwrap();
    let mut b = d.read_sector(p.location).unwrap();
    let o = p.offset as usize;
    b[o + 2..o + 32].copy_from_slice(&e);
    d.write_sector(p.location, &b).unwrap();
}
fn name_at(e: &mut [u8; 30], n: &str) {
    for i in 0..16 {
        e[3 + i] = n.as_bytes().get(i).copied().unwrap_or(0xa0);
    }
}
