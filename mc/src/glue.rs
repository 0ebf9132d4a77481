//! Access to the code under test: loading images into it, reading them back, observing it.
use crate::raw::*;
use cbm::disk::directory::{DirectoryEntry, FileType};
use cbm::disk::file::FileOps;
use cbm::disk::{self, Disk, DiskError, D64, D71, D81};
use cbm::Petscii;
use std::io;
use std::io::{Read, Write};

pub type Dk = Box<dyn Disk>;

/// The library's location type cannot be named from outside; take a value of it and edit it.
#[macro_export]
macro_rules! ts {
    ($d:expr, $l:expr) => {{
        let mut l = $d.native_disk_format().first_directory_location();
        l.0 = $l.0;
        l.1 = $l.1;
        l
    }};
}

pub fn mem(g: Geo) -> Dk {
    match (g.kind, g.tracks) {
        (Kind::D64, 40) => Box::new(D64::open_memory(D64::geometry_40_tracks(g.err)).expect("open_memory")),
        (Kind::D64, _) => Box::new(D64::open_memory(D64::geometry(g.err)).expect("open_memory")),
        (Kind::D71, _) => Box::new(D71::open_memory(D71::geometry(g.err)).expect("open_memory")),
        (Kind::D81, _) => Box::new(D81::open_memory(D81::geometry(g.err)).expect("open_memory")),
    }
}

/// An in-memory disk object holding exactly this image, freshly initialised.
pub fn load(r: &Raw) -> Dk {
    let mut d = mem(r.g);
    let mut i = 0;
    for t in 1..=r.g.tracks {
        for s in 0..r.g.spt(t) {
            let b = &r.d[i * 256..i * 256 + 256];
            i += 1;
            if b.iter().all(|x| *x == 0) {
                continue;
            }
            let l = ts!(d, (t, s));
            d.write_sector(l, b).expect("write_sector");
        }
    }
    if r.g.err {
        let mut bl = d.blocks_ref_mut();
        let e = bl.error_table_mut().expect("error table").expect("error table");
        e.copy_from_slice(&r.d[i * 256..]);
    }
    d.initialize();
    d
}

pub fn snap(d: &dyn Disk, g: Geo) -> Raw {
    let mut v = Vec::with_capacity(g.size());
    {
        let bl = d.blocks_ref();
        for t in 1..=g.tracks {
            for s in 0..g.spt(t) {
                v.extend_from_slice(bl.sector(ts!(d, (t, s))).expect("sector"));
            }
        }
        if g.err {
            v.extend_from_slice(bl.error_table().expect("error table").expect("error table"));
        }
    }
    Raw { g, d: v }
}

pub fn kind(e: &io::Error) -> String {
    match DiskError::from_io_error(e) {
        Some(k) => format!("{:?}", k),
        None => format!("io:{:?}:{}", e.kind(), e),
    }
}
pub fn k<T>(r: io::Result<T>) -> Result<T, String> {
    r.map_err(|e| kind(&e))
}

pub fn pet(b: &[u8]) -> Petscii {
    Petscii::from_bytes(b)
}
pub fn ftype(t: u8) -> FileType {
    match t & 15 {
        0 => FileType::DEL,
        1 => FileType::SEQ,
        2 => FileType::PRG,
        3 => FileType::USR,
        4 => FileType::REL,
        b => FileType::Unknown(b),
    }
}
pub fn ftype_byte(t: FileType) -> u8 {
    match t {
        FileType::DEL => 0,
        FileType::SEQ => 1,
        FileType::PRG => 2,
        FileType::USR => 3,
        FileType::REL => 4,
        FileType::Unknown(b) => b,
    }
}

pub fn attr_byte(a: &cbm::disk::directory::FileAttributes) -> u8 {
    ftype_byte(a.file_type) | (a.unused_bit as u8) << 4 | (a.save_with_replace_flag as u8) << 5 | (a.locked_flag as u8) << 6 | (a.closed_flag as u8) << 7
}

/// Read everything, refusing to follow an endless stream.
pub fn read_all(r: &mut dyn Read) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    let mut buf = [0u8; 1000];
    loop {
        let n = r.read(&mut buf)?;
        if n == 0 {
            return Ok(v);
        }
        v.extend_from_slice(&buf[..n]);
        if v.len() > 4 << 20 {
            panic!("a reader delivers an endless stream (over 4 MB from one file)");
        }
    }
}

/// All records of a file through the library.
pub fn records(d: &dyn Disk, e: &DirectoryEntry) -> Result<Vec<Vec<u8>>, String> {
    let f = k(d.open_file_from_entry(e))?;
    let n = k(f.record_count())?;
    (0..n).map(|i| k(f.record(i))).collect()
}
/// The whole contents of a linear file through the library's reader.
pub fn contents(d: &dyn Disk, name: &[u8]) -> Result<Vec<u8>, String> {
    let f = k(d.open_file(&pet(name)))?;
    let mut r = k(f.reader())?;
    k(read_all(&mut *r))
}

pub fn entry_line(e: &DirectoryEntry) -> String {
    format!(
        "entry {:?} attr={:02x} start=({},{}) size={} extra={:?} scheme={:?} border={} pos={:?} shown={:#}",
        e.filename.as_bytes(), e.file_attributes.to_byte(), e.first_sector.0, e.first_sector.1, e.file_size, e.extra, e.scheme,
        e.is_geos_border(), e.position.as_ref().map(|p| (p.location.0, p.location.1, p.offset)), e
    )
}

/// The stored disk name without its padding.
pub fn strip(n: &[u8]) -> Vec<u8> {
    let mut n = n.to_vec();
    while n.last() == Some(&0xA0) {
        n.pop();
    }
    n
}

/// Everything the library reports about a disk.
pub fn view(d: &(dyn Disk + 'static)) -> Vec<String> {
    let mut v = vec![];
    match d.header() {
        Ok(h) => {
            v.push(format!(
                "header dir=({},{}) fmt={} name={:?} id={:?} ver={} dfmt={} geos={:?}",
                h.first_directory_sector.0, h.first_directory_sector.1, h.disk_format_type, strip(h.disk_name.as_bytes()), h.disk_id,
                h.directory_dos_version, h.directory_format_type, h.geos.as_ref().map(|g| (g.border.0, g.border.1, g.id.to_escaped_string()))
            ));
        }
        Err(e) => v.push(format!("header {}", kind(&e))),
    }
    // (padding inside the quotes is cosmetic: a fresh name is unpadded, a stored one is padded)
    let shown = d.to_string().replace('\u{a0}', " ");
    v.push(match shown.rfind('"') {
        Some(q) => format!("shown {}{}", shown[..q].trim_end(), &shown[q..]),
        None => format!("shown {}", shown),
    });
    v.push(format!("name {:?}", d.name().map(|n| strip(n.as_bytes()))));
    v.push(format!("geos-format {:?}", d.disk_format().map(|f| f.geos).map_err(|e| kind(&e))));
    match d.directory() {
        Ok(es) => {
            for e in &es {
                v.push(entry_line(e));
                v.push(match records(d, e) {
                    Ok(r) => format!("  records {:?}", r.iter().map(|x| (x.len(), crate::engine::fp(&[x]))).collect::<Vec<_>>()),
                    Err(e) => format!("  records {}", e),
                });
            }
        }
        Err(e) => v.push(format!("directory {}", kind(&e))),
    }
    v.push(format!("free {:?}", k(d.blocks_free())));
    match d.bam() {
        Ok(b) => v.push(format!("bam {:?}", b.borrow())),
        Err(e) => v.push(format!("bam {}", kind(&e))),
    }
    match d.validate() {
        Ok(l) => {
            let mut l: Vec<String> = l.iter().map(|e| format!("{:?}", e)).collect();
            l.sort();
            v.push(format!("validate {:?}", l));
        }
        Err(e) => v.push(format!("validate {}", kind(&e))),
    }
    v
}

pub fn diff_views(a: &[String], b: &[String], an: &str, bn: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let n = a.len().max(b.len());
    for i in 0..n {
        let (x, y) = (a.get(i).map(|s| s.as_str()).unwrap_or("-"), b.get(i).map(|s| s.as_str()).unwrap_or("-"));
        if x != y {
            return Err(format!("{}: {}\n{}: {}", an, x, bn, y));
        }
    }
    unreachable!()
}

/// First difference of two images in words.
pub fn diff_raw(a: &Raw, b: &Raw) -> Option<String> {
    if a.d == b.d {
        return None;
    }
    let i = a.d.iter().zip(&b.d).position(|(x, y)| x != y).unwrap_or(0);
    let n = a.g.nblocks();
    if i >= n * 256 {
        return Some(format!("error table byte {}: {:02x} -> {:02x}", i - n * 256, a.d[i], b.d[i]));
    }
    let l = a.g.blocks()[i / 256];
    let cnt = a.d.iter().zip(&b.d).filter(|(x, y)| x != y).count();
    Some(format!("block {:?} byte {:#04x}: {:02x} -> {:02x} ({} bytes differ)", l, i % 256, a.d[i], b.d[i], cnt))
}

/// A scratch directory of this process, removed when dropped.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".to_string() } else { std::env::temp_dir().display().to_string() };
        let mk = |b: &str| std::path::PathBuf::from(format!("{}/mc-{}-{}-{}", b, tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let p = mk(&base);
        if std::fs::create_dir_all(&p).is_ok() {
            return Scratch(p);
        }
        let p = mk(&std::env::temp_dir().display().to_string());
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> std::path::PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn file_disk(s: &Scratch, n: &str, r: &Raw, writable: bool) -> io::Result<Dk> {
    let p = s.path(n);
    std::fs::write(&p, &r.d).expect("scratch file");
    disk::open(&p, writable)
}

/// Write through a writer, call by call; returns (accepted bytes, error).
pub fn push(w: &mut dyn Write, data: &[u8]) -> (usize, Option<String>) {
    let mut done = 0;
    while done < data.len() {
        match w.write(&data[done..]) {
            Ok(0) => return (done, Some("write returned 0".into())),
            Ok(n) => {
                if n > data.len() - done {
                    return (done, Some(format!("write claims {} of {} bytes", n, data.len() - done)));
                }
                done += n
            }
            Err(e) => return (done, Some(kind(&e))),
        }
    }
    (done, None)
}
