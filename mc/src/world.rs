//! Histories: all operation sequences up to a depth, executed on the real library next to a small
//! reference model that predicts results, contents, space and directory room.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use cbm::disk::file::{File as LFile, FileOps, Scheme as LScheme};
use std::io::{Read, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// create an empty file and keep it closed
    Create(&'static str, u8),
    /// create and write `len` bytes
    Put(&'static str, u8, usize),
    /// write `len` bytes at the end of an existing file
    App(&'static str, usize),
    /// create (unless the type is NO_TYPE) and write through one writer in pieces, flushed after each
    Pieces(&'static str, u8, &'static [usize]),
    /// create (unless the type is NO_TYPE) and write `len` bytes of a pattern: all bytes the same, or (256)
    /// the same contents every time
    Fill(&'static str, u8, u16, usize),
    Del(&'static str),
    Ren(&'static str, &'static str),
    Reopen,
    Init,
    /// create `n` one-block files and delete them again (moves the allocation around)
    Churn(usize),
    /// open (or, unless the type is NO_TYPE, create) a file and keep the handle
    Keep(&'static str, u8),
    /// append, read, delete through the kept handle (nothing if there is none)
    KApp(usize),
    KRead,
    KDel,
}

pub const NO_TYPE: u8 = 99;

#[derive(Clone, Debug)]
pub struct MFile {
    pub name: Vec<u8>,
    pub ftype: u8,
    /// the attribute byte: type and flags
    pub attr: u8,
    pub opaque: bool, // relative or GEOS: read-only contents
    pub records: Vec<Vec<u8>>,
    pub blocks: usize,
    pub border: bool, // in the border block
    pub tail: usize, // data bytes in the last block (linear only)
}

#[derive(Clone, Debug)]
pub struct Model {
    pub files: Vec<MFile>,
    pub free: usize,     // free data blocks
    pub slots: usize,    // reusable directory slots
    pub dirfree: usize,  // free blocks on the directory track
    /// more than one file of the same name can only come from the root image
    pub g: Geo,
}

pub fn rel_records(data: &[u8], reclen: u8) -> Vec<Vec<u8>> {
    data.chunks(reclen as usize).map(|c| c.to_vec()).collect()
}

impl Model {
    pub fn from_raw(r: &Raw) -> Model {
        let mut files = vec![];
        for e in r.entries().expect("root image") {
            let blocks = r.file_blocks(&e).expect("root image").len();
            let (records, tail) = match e.scheme() {
                Scheme::Linear => {
                    let d = r.chain_data(e.start()).expect("root image");
                    let t = d.len() - (blocks - 1) * 254;
                    (vec![d], t)
                }
                Scheme::Seq => (vec![r.chain_data(e.start()).expect("root image")], 0),
                Scheme::Rel => {
                    let (_, data) = r.side_sectors(e.extra()).expect("root image");
                    let d = if data.is_empty() { vec![] } else { r.chain_data(data[0]).expect("root image") };
                    (rel_records(&d, e.b[0x17]), 0)
                }
                Scheme::Vlir => (
                    r.vlir_records(e.start()).expect("root image").into_iter()
                        .map(|x| x.map(|l| r.chain_data(l).expect("root image")).unwrap_or_default()).collect(),
                    0,
                ),
            };
            files.push(MFile { name: e.name(), ftype: e.ftype(), attr: e.b[2], opaque: e.scheme() != Scheme::Linear, records, blocks, border: e.border, tail });
        }
        let slots = r.slots().expect("root image").iter().filter(|e| e.scratched() && !e.border).count();
        let dt = r.g.dir_track();
        let dirfree = (0..r.g.spt(dt)).filter(|s| r.is_free(dt, *s)).count();
        Model { files, free: r.free_data().len(), slots, dirfree, g: r.g }
    }
    pub fn pos(&self, n: &[u8]) -> Option<usize> {
        self.files.iter().position(|f| f.name == n)
    }
    /// Predict creation.
    pub fn create(&mut self, n: &[u8], t: u8) -> Result<usize, String> {
        let why = [
            (n.len() > 16, "FilenameTooLong"),
            (self.pos(n).is_some(), "FileExists"),
            ((self.slots == 0 && self.dirfree == 0) || self.free == 0, "DiskFull"),
        ];
        reasons(&why)?;
        if self.slots == 0 {
            self.dirfree -= 1;
            self.slots = 8;
        }
        self.slots -= 1;
        self.free -= 1;
        self.files.push(MFile { name: n.to_vec(), ftype: t, attr: 0x80 | t, opaque: false, records: vec![vec![]], blocks: 1, border: false, tail: 0 });
        Ok(0)
    }
    /// Predict appending: number of bytes accepted, and whether the disk runs full.
    pub fn append(&mut self, n: &[u8], data: &[u8]) -> (usize, Option<String>) {
        let i = match self.pos(n) {
            Some(i) => i,
            None => return (0, Some("NotFound".into())),
        };
        let free = &mut self.free;
        let f = &mut self.files[i];
        if f.opaque {
            return (0, Some("opaque".into()));
        }
        let room = 254 - f.tail;
        let can = room + *free * 254;
        let n = data.len().min(can);
        if n > room {
            let add = (n - room + 253) / 254;
            *free -= add;
            f.blocks += add;
            f.tail = n - room - (add - 1) * 254;
        } else {
            f.tail += n;
        }
        f.records[0].extend_from_slice(&data[..n]);
        (n, if n < data.len() { Some("DiskFull".into()) } else { None })
    }
    pub fn delete(&mut self, n: &[u8]) -> Result<usize, String> {
        let i = self.pos(n).ok_or("NotFound")?;
        let f = self.files.remove(i);
        self.free += f.blocks;
        self.slots += !f.border as usize; // (nothing is created in the border block)
        Ok(0)
    }
    pub fn rename(&mut self, a: &[u8], b: &[u8]) -> Result<usize, String> {
        reasons(&[(self.pos(a).is_none(), "NotFound"), (b.len() > 16, "FilenameTooLong"), (self.pos(b).is_some(), "FileExists")])?;
        let i = self.pos(a).unwrap();
        self.files[i].name = b.to_vec();
        Ok(0)
    }
}

/// An operation that has several reasons to fail may name any of them.
fn reasons(r: &[(bool, &str)]) -> Result<(), String> {
    let v: Vec<&str> = r.iter().filter(|x| x.0).map(|x| x.1).collect();
    if v.is_empty() {
        Ok(())
    } else {
        Err(v.join("|"))
    }
}

pub struct World {
    pub disk: Dk,
    pub g: Geo,
    pub m: Model,
    pub stamp: u32,
    pub trace: Vec<String>,
    /// result of the last operation as observed and as predicted: Ok(bytes) / Err(kind) with bytes
    pub got: (usize, Option<String>),
    pub want: (usize, Option<String>),
    /// image and observations before the last operation, if asked for
    pub before: Option<Raw>,
    pub before_view: Vec<String>,
    pub path: Option<std::path::PathBuf>,
    /// a file handle kept open across operations, with the file's present name
    pub kept: Option<(Vec<u8>, LFile)>,
    /// name of the file the last operation deleted
    pub deleted: Option<Vec<u8>>,
}

/// Write in pieces through a new writer of the handle.
fn through(f: &LFile, pieces: &[usize], data: &[u8], flush: bool) -> (usize, Option<String>) {
    let mut w = match f.writer() {
        Err(e) => return (0, Some(kind(&e))),
        Ok(w) => w,
    };
    let (mut n, mut e) = (0, None);
    for (i, p) in pieces.iter().enumerate() {
        if i > 0 {
            if let Err(x) = w.flush() {
                e = Some(format!("flush: {}", kind(&x)));
                break;
            }
        }
        let (m, x) = push(&mut *w, &data[n..n + p]);
        n += m;
        e = x;
        if e.is_some() {
            break;
        }
    }
    if e.is_none() && flush {
        e = w.flush().err().map(|e| format!("flush: {}", kind(&e)));
    }
    (n, e) // dropping the writer flushes it
}

impl World {
    pub fn new(root: &Raw, m: &Model) -> World {
        World {
            disk: load(root), g: root.g, m: m.clone(), stamp: 1, trace: vec![], got: (0, None), want: (0, None),
            before: None, before_view: vec![], path: None, kept: None, deleted: None,
        }
    }
    /// The same on an image file.
    pub fn on_file(root: &Raw, m: &Model, s: &Scratch) -> World {
        let n = format!("w.{}", root.g.ext());
        let disk = file_disk(s, &n, root, true).expect("open image file");
        World {
            disk, g: root.g, m: m.clone(), stamp: 1, trace: vec![], got: (0, None), want: (0, None),
            before: None, before_view: vec![], path: Some(s.path(&n)), kept: None, deleted: None,
        }
    }
    pub fn raw(&self) -> Raw {
        snap(&*self.disk, self.g)
    }
    fn write_to(&mut self, name: &str, len: usize, create: Option<u8>) {
        self.stamp += 1;
        self.write_data(name, &[len], create, content(self.stamp, len))
    }
    fn write_data(&mut self, name: &str, pieces: &[usize], create: Option<u8>, data: Vec<u8>) {
        // prediction
        self.want = (0, None);
        let mut go = true;
        if let Some(t) = create {
            if let Err(e) = self.m.create(name.as_bytes(), t) {
                self.want = (0, Some(e));
                go = false;
            }
        }
        if go {
            self.want = self.m.append(name.as_bytes(), &data);
        }
        if self.want.1.as_deref() == Some("opaque") {
            self.want.1 = Some("*".into());
        }
        // execution
        let f = match create {
            Some(t) => self.disk.create_file(&pet(name.as_bytes()), ftype(t), LScheme::Linear),
            None => self.disk.open_file(&pet(name.as_bytes())),
        };
        self.got = match &f {
            Err(e) => (0, Some(kind(e))),
            Ok(f) => through(f, pieces, &data, self.stamp % 2 == 0),
        };
    }
    pub fn apply(&mut self, op: &Op) {
        self.trace.push(format!("{:?}", op));
        self.deleted = None;
        match op {
            Op::Create(n, t) => {
                let w = self.m.create(n.as_bytes(), *t);
                self.want = (0, w.err());
                let g = self.disk.create_file(&pet(n.as_bytes()), ftype(*t), LScheme::Linear);
                self.got = (0, match g {
                    Ok(f) => self.handle_entry(n.as_bytes(), &f).err(),
                    Err(e) => Some(kind(&e)),
                });
            }
            Op::Put(n, t, len) => self.write_to(n, *len, Some(*t)),
            Op::App(n, len) => self.write_to(n, *len, None),
            Op::Pieces(n, t, p) => {
                self.stamp += 1;
                self.write_data(n, p, if *t == NO_TYPE { None } else { Some(*t) }, content(self.stamp, p.iter().sum()))
            }
            Op::Fill(n, t, pat, len) => {
                self.stamp += 1; // (decides whether the writer is flushed or only dropped)
                let data = if *pat < 256 { vec![*pat as u8; *len] } else { content(7, *len) };
                self.write_data(n, &[*len], if *t == NO_TYPE { None } else { Some(*t) }, data)
            }
            Op::Keep(n, t) => {
                self.kept = None;
                let f = if *t == NO_TYPE {
                    self.want = (0, if self.m.pos(n.as_bytes()).is_none() { Some("NotFound".into()) } else { None });
                    self.disk.open_file(&pet(n.as_bytes()))
                } else {
                    self.want = (0, self.m.create(n.as_bytes(), *t).err());
                    self.disk.create_file(&pet(n.as_bytes()), ftype(*t), LScheme::Linear)
                };
                self.got = (0, None);
                match f {
                    Ok(f) => {
                        self.got.1 = self.handle_entry(n.as_bytes(), &f).err();
                        self.kept = Some((n.as_bytes().to_vec(), f))
                    }
                    Err(e) => self.got.1 = Some(kind(&e)),
                }
            }
            Op::KApp(len) => {
                self.want = (0, None);
                self.got = (0, None);
                if let Some((n, f)) = &self.kept {
                    self.stamp += 1;
                    let data = content(self.stamp, *len);
                    self.want = self.m.append(n, &data);
                    if self.want.1.as_deref() == Some("opaque") {
                        self.want.1 = Some("*".into());
                    }
                    self.got = through(f, &[*len], &data, self.stamp % 2 == 0);
                }
            }
            Op::KRead => {
                self.want = (0, None);
                self.got = (0, None);
                if let Some((n, f)) = &self.kept {
                    self.got.1 = self.handle_reads(n, f).err();
                }
            }
            Op::KDel => {
                self.want = (0, None);
                self.got = (0, None);
                if let Some((n, mut f)) = self.kept.take() {
                    self.want = (0, self.m.delete(&n).err());
                    self.got = (0, f.delete().err().map(|e| kind(&e)));
                    self.deleted = Some(n);
                }
            }
            Op::Del(n) => {
                if self.kept.as_ref().map_or(false, |k| k.0 == n.as_bytes()) {
                    self.kept = None; // a handle of a deleted file is of no use
                }
                self.deleted = Some(n.as_bytes().to_vec());
                self.want = (0, self.m.delete(n.as_bytes()).err());
                self.got = (0, self.disk.open_file(&pet(n.as_bytes())).and_then(|mut f| f.delete()).err().map(|e| kind(&e)));
            }
            Op::Ren(a, b) => {
                self.want = (0, self.m.rename(a.as_bytes(), b.as_bytes()).err());
                if let (Some(k), None) = (&mut self.kept, &self.want.1) {
                    if k.0 == a.as_bytes() {
                        k.0 = b.as_bytes().to_vec();
                    }
                }
                self.got = (0, self.disk.rename(&pet(a.as_bytes()), &pet(b.as_bytes())).err().map(|e| kind(&e)));
            }
            Op::Reopen => {
                self.kept = None;
                match &self.path {
                    None => {
                        let r = self.raw();
                        self.disk = load(&r);
                    }
                    Some(p) => {
                        self.disk = mem(self.g); // let go of the file first
                        self.disk = cbm::disk::open(p, true).expect("reopen image file");
                    }
                }
                self.want = (0, None);
                self.got = (0, None);
            }
            Op::Init => {
                self.disk.initialize();
                self.want = (0, None);
                self.got = (0, None);
            }
            Op::Churn(n) => {
                self.want = (0, None);
                self.got = (0, None);
                let mut made = vec![];
                for i in 0..*n {
                    let name = format!("~{}", i);
                    let w = self.m.create(name.as_bytes(), 2);
                    let g = self.disk.create_file(&pet(name.as_bytes()), ftype(2), LScheme::Linear);
                    if w.is_ok() != g.is_ok() {
                        self.want = (0, w.err());
                        self.got = (0, g.err().map(|e| kind(&e)));
                        return;
                    }
                    if w.is_ok() {
                        made.push(name);
                    }
                }
                for n in made {
                    let _ = self.m.delete(n.as_bytes());
                    if let Err(e) = self.disk.open_file(&pet(n.as_bytes())).and_then(|mut f| f.delete()) {
                        self.got = (0, Some(kind(&e)));
                        return;
                    }
                }
            }
        }
    }
    /// The entry which a fresh handle carries is the one listed, and opens the same file.
    fn handle_entry(&self, n: &[u8], f: &LFile) -> R {
        let m = match self.m.pos(n) {
            Some(i) => &self.m.files[i],
            None => return Ok(()), // (the result itself is wrong, which is reported)
        };
        let e = f.entry();
        if e.filename.as_bytes() != n || attr_byte(&e.file_attributes) != m.attr || e.file_size != m.blocks.min(65535) as u16 {
            return Err(format!("a handle whose entry shows {:?} {:02x} {} blocks instead of {:?} {:02x} {} blocks",
                e.filename, attr_byte(&e.file_attributes), e.file_size, lossy(n), m.attr, m.blocks));
        }
        let got = records(&*self.disk, e).map_err(|x| format!("a handle whose entry cannot be opened: {}", x))?;
        if got != m.records {
            return Err("a handle whose entry opens something else".into());
        }
        Ok(())
    }
    /// The kept handle delivers its file's contents and blocks.
    fn handle_reads(&self, n: &[u8], f: &LFile) -> R {
        let m = &self.m.files[self.m.pos(n).ok_or("harness: kept file unknown")?];
        let count = k(f.record_count())?;
        if count != m.records.len() {
            return Err(format!("the kept handle has {} records instead of {}", count, m.records.len()));
        }
        for (i, want) in m.records.iter().enumerate() {
            if &k(f.record(i))? != want {
                return Err(format!("record {} of the kept handle differs", i));
            }
        }
        if !m.opaque {
            let mut v = vec![];
            k(f.reader().and_then(|mut r| r.read_to_end(&mut v)))?;
            if v != m.records[0] {
                return Err("the kept handle streams differently".into());
            }
        }
        let r = self.raw();
        let e = r.find(n).ok_or("the kept file is not in the image")?;
        let mut want = r.file_blocks(&e).map_err(|e| format!("{:?}", e))?;
        want.sort();
        let mut got: Vec<Loc> = k(f.occupied_sectors())?.iter().map(|l| (l.0, l.1)).collect();
        got.sort();
        if got != want {
            return Err(format!("the kept handle occupies {:?} instead of {:?}", got, want));
        }
        Ok(())
    }
    /// Did the last operation do what the model predicts (success or failure, bytes accepted)?
    pub fn result_ok(&self) -> bool {
        if self.want.1.as_deref() == Some("*") {
            return self.got.1.is_some() && self.got.0 == 0;
        }
        self.got.0 == self.want.0
            && match (&self.got.1, &self.want.1) {
                (Some(g), Some(w)) => w.split('|').any(|x| x == g),
                (g, w) => g == w,
            }
    }
    pub fn failed(&self) -> bool {
        self.got.1.is_some()
    }
    pub fn ctx(&self) -> String {
        format!("[{} | {}]", self.g.name(), self.trace.join("; "))
    }
    pub fn result_msg(&self) -> String {
        format!("the last operation returned {} (bytes accepted: {}), expected {} ({} bytes)",
            self.got.1.as_deref().unwrap_or("success"), self.got.0, self.want.1.as_deref().unwrap_or("success"), self.want.0)
    }

    /// Every file of the model is listed once with its name and type and reads back exactly.
    pub fn files_ok(&self) -> R {
        self.files_ok_on(&*self.disk)
    }
    pub fn files_ok_on(&self, disk: &dyn cbm::disk::Disk) -> R {
        let es = k(disk.directory()).map_err(|e| format!("{} the directory cannot be listed: {}", self.ctx(), e))?;
        let mut listed: Vec<(Vec<u8>, u8)> = es.iter().map(|e| (e.filename.as_bytes().to_vec(), attr_byte(&e.file_attributes))).collect();
        let mut want: Vec<(Vec<u8>, u8)> = self.m.files.iter().map(|f| (f.name.clone(), f.attr)).collect();
        listed.sort();
        want.sort();
        if listed != want {
            return Err(format!("{} directory lists {:?}, expected {:?}", self.ctx(), show(&listed), show(&want)));
        }
        for f in &self.m.files {
            let e = es.iter().find(|e| e.filename.as_bytes() == &f.name[..]).unwrap();
            let got = records(disk, e).map_err(|x| format!("{} file {:?} cannot be read: {}", self.ctx(), lossy(&f.name), x))?;
            if got != f.records {
                return Err(format!("{} file {:?} reads back differently: {}", self.ctx(), lossy(&f.name), first_diff(&got, &f.records)));
            }
            if !f.opaque {
                let got = contents(disk, &f.name).map_err(|x| format!("{} file {:?} cannot be read: {}", self.ctx(), lossy(&f.name), x))?;
                if got != f.records[0] {
                    return Err(format!("{} file {:?} streams differently: {}", self.ctx(), lossy(&f.name), first_diff(&[got], &f.records)));
                }
            }
        }
        Ok(())
    }
    /// The image, judged by the independent format model alone, contains exactly the model's files.
    pub fn raw_files_ok(&self, r: &Raw) -> R {
        for f in &self.m.files {
            if f.opaque {
                continue;
            }
            let e = r.find(&f.name).ok_or_else(|| format!("{} file {:?} is not in the image", self.ctx(), lossy(&f.name)))?;
            let d = r.chain_data(e.start()).map_err(|x| format!("{} file {:?}: broken chain in the image: {:?}", self.ctx(), lossy(&f.name), x))?;
            if e.b[2] != f.attr {
                return Err(format!("{} file {:?} has the type and flags {:02x} in the image instead of {:02x}", self.ctx(), lossy(&f.name), e.b[2], f.attr));
            }
            if d != f.records[0] {
                return Err(format!("{} file {:?} is wrong in the image: {}", self.ctx(), lossy(&f.name), first_diff(&[d], &f.records)));
            }
        }
        Ok(())
    }
    pub fn names_gone(&self, names: &[&str]) -> R {
        for n in names {
            if self.m.pos(n.as_bytes()).is_none() {
                match self.disk.open_file(&pet(n.as_bytes())) {
                    Err(e) if kind(&e) == "NotFound" => {}
                    Err(e) => return Err(format!("{} opening the missing file {:?} gives {} instead of NotFound", self.ctx(), n, kind(&e))),
                    Ok(_) => return Err(format!("{} file {:?} should not exist but opens", self.ctx(), n)),
                }
            }
        }
        Ok(())
    }
}

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}
fn show(v: &[(Vec<u8>, u8)]) -> Vec<(String, u8)> {
    v.iter().map(|(n, t)| (lossy(n), *t)).collect()
}
pub fn first_diff(got: &[Vec<u8>], want: &[Vec<u8>]) -> String {
    if got.len() != want.len() {
        return format!("{} records instead of {}", got.len(), want.len());
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        if a != b {
            let p = a.iter().zip(b.iter()).position(|(x, y)| x != y);
            return format!("record {}: {} bytes instead of {}, first difference at {:?}", i, a.len(), b.len(), p);
        }
    }
    "equal".into()
}

/// Run every sequence over `alpha` of length 1..=depth that starts with alpha[first].
/// `check` sees the world after the whole sequence and the image before the last operation.
pub fn explore(
    root: &Raw, alpha: &[Op], first: usize, depth: usize, want_before: u8, file: Option<&Scratch>, cov: &mut Cov,
    check: &mut dyn FnMut(&mut World, &Op, &mut Cov) -> R,
) -> R {
    let m = Model::from_raw(root);
    for len in 1..=depth {
        let mut idx = vec![0usize; len];
        idx[0] = first;
        'seq: loop {
            cov.tick(|| format!("{} {:?}", root.g.name(), idx.iter().map(|i| &alpha[*i]).collect::<Vec<_>>()));
            let mut w = match file {
                None => World::new(root, &m),
                Some(s) => World::on_file(root, &m, s),
            };
            for (j, i) in idx.iter().enumerate() {
                let last = j + 1 == len;
                if last {
                    if want_before > 0 {
                        w.before = Some(w.raw());
                    }
                    if want_before > 1 {
                        w.before_view = view(&*w.disk);
                    }
                    w.apply(&alpha[*i]);
                    cov.step();
                    cov.outcome(&format!("{} -> {}", opname(&alpha[*i]), w.got.1.as_deref().unwrap_or("ok")));
                    cov.state(fp(&[&w.raw().d]));
                    check(&mut w, &alpha[*i], cov)?;
                } else {
                    w.apply(&alpha[*i]);
                    cov.step();
                    if !w.result_ok() {
                        // already judged (as a violation or not) by the shorter sequence
                        break;
                    }
                }
            }
            // next index vector (position 0 fixed)
            let mut p = len;
            loop {
                if p == 1 {
                    break 'seq;
                }
                p -= 1;
                idx[p] += 1;
                if idx[p] < alpha.len() {
                    break;
                }
                idx[p] = 0;
            }
        }
    }
    Ok(())
}

pub fn opname(o: &Op) -> &'static str {
    match o {
        Op::Create(..) => "create",
        Op::Put(..) => "write",
        Op::App(..) => "append",
        Op::Pieces(..) => "write in pieces",
        Op::Fill(..) => "fill",
        Op::Keep(..) => "keep a handle",
        Op::KApp(..) => "append through the kept handle",
        Op::KRead => "read through the kept handle",
        Op::KDel => "delete through the kept handle",
        Op::Del(..) => "delete",
        Op::Ren(..) => "rename",
        Op::Reopen => "reopen",
        Op::Init => "initialize",
        Op::Churn(..) => "churn",
    }
}
