//! C05: every interleaving of several open handles. C07: read-only media and inspection.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use crate::ts;
use crate::world::{first_diff, lossy};
use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use cbm::disk::Disk;
use cbm::disk::directory::{DirectoryEntry, DirectoryIterator};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};

// ------------------------------------------------------------------ C05
#[derive(Clone, Debug)]
enum St {
    Create(&'static str),
    /// create and open a writer at once
    CreateW(&'static str),
    OpenW(&'static str),
    Open(&'static str),
    Writer,
    Write(u32, usize),
    Flush,
    Close,
    Reader,
    Convert,
    Read(usize),
    ReadEnd,
    Rec(usize),
    Delete,
    Rename(&'static str, &'static str),
    /// set the locked flag of a file by rewriting its entry
    Lock(&'static str),
    Init,
    Look,
    Label,
    /// step through the directory, over changes made in between
    Iter,
    Next(usize),
    Rest,
    /// find a directory entry, open the file from it later
    Entry(&'static str),
    FromEntry,
}
use St::*;
fn script(n: &str) -> Vec<St> {
    match n {
        "new" => vec![Create("A"), Writer, Write(11, 300), Flush, Write(12, 500), Close],
        "n3" => vec![CreateW("N"), Write(51, 520), Close],
        "m3" => vec![CreateW("M"), Write(61, 300), Write(62, 300), Close],
        "a3" => vec![OpenW("OLD"), Write(71, 600), Close],
        "a4" => vec![OpenW("OLD"), Write(71, 300), Flush, Write(72, 300), Close],
        "b3" => vec![OpenW("LOCK"), Write(81, 300), Close],
        "big" => vec![Create("B"), Writer, Write(21, 1000), Write(22, 254), Close],
        "app" => vec![Open("OLD"), Writer, Write(31, 10), Flush, Write(32, 700), Close],
        "app2" => vec![Open("LOCK"), Writer, Write(41, 237), Write(42, 1), Close],
        "read" => vec![Open("LOCK"), Reader, Read(100), Read(300), ReadEnd],
        "cvt" => vec![Open("VLIR"), Convert, Read(254), ReadEnd],
        "rec" => vec![Open("REL"), Rec(2), Rec(7)],
        "del" => vec![Open("GSEQ"), Delete],
        "delold" => vec![Open("OLD"), Delete],
        "delfill" => vec![Open("FILL"), Delete],
        "ren" => vec![Rename("GSEQ", "SQ"), Rename("SQ", "GSEQ2")],
        // renaming and locking a file that another script has open, before or after it exists
        "renold" => vec![Rename("OLD", "OLDX"), Rename("OLDX", "OLDY")],
        "renlock" => vec![Rename("LOCK", "KCOL")],
        "rennew" => vec![Rename("N", "NX"), Rename("A", "AX")],
        "lockold" => vec![Lock("OLD")],
        "locknew" => vec![Lock("N"), Lock("A")],
        "mk3" => vec![Create("C1"), Create("C2"), Create("C3")],
        "mkdel" => vec![Create("T"), Open("T"), Delete, Create("T")],
        "init" => vec![Init, Init],
        "look" => vec![Look, Look],
        "head" => vec![Label],
        "iter" => vec![Iter, Next(2), Rest],
        "iter9" => vec![Iter, Next(7), Next(1), Next(1), Rest],
        "ent" => vec![Entry("LOCK"), FromEntry, Reader, ReadEnd],
        "entw" => vec![Entry("OLD"), FromEntry, Writer, Write(91, 600), Close],
        "entdel" => vec![Entry("GSEQ"), FromEntry, Delete],
        "entold" => vec![Entry("OLD"), FromEntry, Delete],
        _ => panic!("script {}", n),
    }
}
#[derive(Default)]
struct Agent {
    name: Vec<u8>,
    file: Option<File>,
    w: Option<Box<dyn Write>>,
    r: Option<Box<dyn Read>>,
    /// what the file holds once the writer is flushed
    acc: Vec<u8>,
    want: Vec<u8>,
    got: Vec<u8>,
    dead: bool,
    entry: Option<DirectoryEntry>,
    iter: Option<DirectoryIterator>,
    seen: Vec<Vec<u8>>,
    /// files there all the time, and at any time, since the iteration began
    must: BTreeSet<Vec<u8>>,
    may: BTreeSet<Vec<u8>>,
}
struct Shared {
    d: Dk,
    g: Geo,
    /// contents of linear files as far as they are settled on the image
    files: BTreeMap<Vec<u8>, Vec<u8>>,
    /// other files: all their records
    other: BTreeMap<Vec<u8>, Vec<Vec<u8>>>,
    writing: Vec<Vec<u8>>,
    label: Option<Vec<u8>>,
    /// original name -> present name
    alias: BTreeMap<Vec<u8>, Vec<u8>>,
    locked: Vec<Vec<u8>>,
}

fn raw_records(r: &Raw, e: &Ent) -> Vec<Vec<u8>> {
    match e.scheme() {
        Scheme::Linear | Scheme::Seq => vec![r.chain_data(e.start()).unwrap()],
        Scheme::Rel => {
            let (_, data) = r.side_sectors(e.extra()).unwrap();
            let d = if data.is_empty() { vec![] } else { r.chain_data(data[0]).unwrap() };
            crate::world::rel_records(&d, e.b[0x17])
        }
        Scheme::Vlir => r.vlir_records(e.start()).unwrap().into_iter().map(|x| x.map(|l| r.chain_data(l).unwrap()).unwrap_or_default()).collect(),
    }
}

impl Shared {
    fn new(root: &Raw) -> Shared {
        let mut files = BTreeMap::new();
        let mut other = BTreeMap::new();
        for e in root.entries().unwrap() {
            let mut r = raw_records(root, &e);
            if e.scheme() == Scheme::Linear {
                files.insert(e.name(), r.remove(0));
            } else {
                other.insert(e.name(), r);
            }
        }
        Shared { d: load(root), g: root.g, files, other, writing: vec![], label: None, alias: BTreeMap::new(), locked: vec![] }
    }
    fn now(&self, n: &str) -> Vec<u8> {
        self.alias.get(n.as_bytes()).cloned().unwrap_or(n.as_bytes().to_vec())
    }
    fn room(&self) -> (usize, bool) {
        let r = snap(&*self.d, self.g);
        let dt = self.g.dir_track();
        let slot = r.slots().map(|s| s.iter().any(|e| e.scratched() && !e.border)).unwrap_or(true) || (0..self.g.spt(dt)).any(|s| r.is_free(dt, s));
        (r.free_data().len(), slot)
    }
    fn step(&mut self, a: &mut Agent, st: &St) -> R {
        if a.dead && !matches!(st, Create(_) | CreateW(_)) {
            return Ok(());
        }
        match st {
            Create(n) => {
                a.name = n.as_bytes().to_vec();
                a.acc.clear();
                a.dead = false;
                let (free, slot) = self.room();
                match self.d.create_file(&pet(n.as_bytes()), ftype(2), LScheme::Linear) {
                    Ok(f) => {
                        a.file = Some(f);
                        self.files.insert(a.name.clone(), vec![]);
                    }
                    Err(e) => {
                        if free > 0 && slot || kind(&e) != "DiskFull" {
                            return Err(format!("creating {:?} fails with {} ({} free blocks)", n, kind(&e), free));
                        }
                        a.dead = true;
                    }
                }
            }
            CreateW(n) => {
                self.step(a, &Create(*n))?;
                self.step(a, &Writer)?;
            }
            OpenW(n) => {
                self.step(a, &Open(*n))?;
                self.step(a, &Writer)?;
            }
            Open(n) => {
                a.name = self.now(n);
                a.file = Some(k(self.d.open_file(&pet(&a.name))).map_err(|e| format!("opening {:?}: {}", n, e))?);
                a.acc = self.files.get(&a.name).cloned().unwrap_or_default();
            }
            Writer => {
                a.w = Some(k(a.file.as_ref().unwrap().writer()).map_err(|e| format!("writer for {:?}: {}", lossy(&a.name), e))?);
                self.writing.push(a.name.clone());
            }
            Write(stamp, len) => {
                let data = content(*stamp, *len);
                let (n, e) = push(&mut **a.w.as_mut().unwrap(), &data);
                a.acc.extend_from_slice(&data[..n]);
                if let Some(e) = e {
                    let (free, _) = self.room();
                    if e != "DiskFull" || free > 0 {
                        return Err(format!("writing to {:?} fails with {} after {} bytes ({} free blocks)", lossy(&a.name), e, n, free));
                    }
                }
            }
            Flush | Close => {
                k(a.w.as_mut().unwrap().flush()).map_err(|e| format!("flushing {:?}: {}", lossy(&a.name), e))?;
                self.files.insert(a.name.clone(), a.acc.clone());
                if matches!(st, Close) {
                    a.w = None;
                    self.writing.retain(|n| *n != a.name);
                }
            }
            Reader => {
                a.want = self.files[&a.name].clone();
                a.r = Some(k(a.file.as_ref().unwrap().reader())?);
            }
            Convert => {
                let r = snap(&*self.d, self.g);
                let e = r.find(&a.name).ok_or("the file is gone")?;
                a.want = crate::files::cvt(&r, &e);
                a.r = match a.file.as_ref().unwrap() {
                    File::GEOSVLIR(f) | File::GEOSSequential(f) => Some(Box::new(k(f.reader())?)),
                    _ => return Err("opened as another kind of file".into()),
                };
            }
            Read(n) => {
                let mut b = vec![0; *n];
                let m = k(a.r.as_mut().unwrap().read(&mut b))?;
                a.got.extend_from_slice(&b[..m]);
                if !a.want.starts_with(&a.got) {
                    return Err(format!("reading {:?} delivers wrong bytes within the first {}", lossy(&a.name), a.got.len()));
                }
            }
            ReadEnd => {
                a.got.extend(k(read_all(&mut **a.r.as_mut().unwrap()))?);
                if a.got != a.want {
                    return Err(format!("reading {:?}: {}", lossy(&a.name), first_diff(&[a.got.clone()], &[a.want.clone()])));
                }
            }
            Rec(i) => {
                let x = k(a.file.as_ref().unwrap().record(*i))?;
                if x != self.other[&a.name][*i] {
                    return Err(format!("record {} of {:?} is wrong", i, lossy(&a.name)));
                }
            }
            Delete => {
                k(a.file.as_mut().unwrap().delete()).map_err(|e| format!("deleting {:?}: {}", lossy(&a.name), e))?;
                self.files.remove(&a.name);
                self.other.remove(&a.name);
                self.locked.retain(|n| *n != a.name);
                a.file = None;
            }
            Rename(x, y) => {
                if !self.files.contains_key(x.as_bytes()) && !self.other.contains_key(x.as_bytes()) {
                    return match k(self.d.rename(&pet(x.as_bytes()), &pet(y.as_bytes()))) {
                        Err(e) if e == "NotFound" => Ok(()),
                        r => Err(format!("renaming {:?}, which does not exist, gives {:?}", x, r)),
                    };
                }
                k(self.d.rename(&pet(x.as_bytes()), &pet(y.as_bytes()))).map_err(|e| format!("renaming {:?}: {}", x, e))?;
                if let Some(v) = self.files.remove(x.as_bytes()) {
                    self.files.insert(y.as_bytes().to_vec(), v);
                }
                if let Some(v) = self.other.remove(x.as_bytes()) {
                    self.other.insert(y.as_bytes().to_vec(), v);
                }
                let swap = |n: &mut Vec<u8>| {
                    if n == x.as_bytes() {
                        *n = y.as_bytes().to_vec();
                    }
                };
                self.writing.iter_mut().for_each(swap);
                self.locked.iter_mut().for_each(swap);
                self.alias.values_mut().for_each(swap);
                self.alias.entry(x.as_bytes().to_vec()).or_insert(y.as_bytes().to_vec());
            }
            Lock(n) => {
                let n = self.now(n);
                if let Ok(mut e) = self.d.find_directory_entry(&pet(&n)) {
                    e.file_attributes.locked_flag = true;
                    k(self.d.write_directory_entry(&e)).map_err(|e| format!("locking {:?}: {}", lossy(&n), e))?;
                    self.locked.push(n);
                }
            }
            Init => self.d.initialize(),
            Iter => {
                a.iter = Some(self.d.iter());
                a.must = self.files.keys().chain(self.other.keys()).cloned().collect();
                a.may = a.must.clone();
            }
            Next(_) | Rest => {
                let n = if let Next(n) = st { *n } else { usize::MAX };
                for _ in 0..n {
                    match a.iter.as_mut().unwrap().next() {
                        None => break,
                        Some(e) => a.seen.push(k(e).map_err(|e| format!("stepping through the directory: {}", e))?.filename.as_bytes().to_vec()),
                    }
                }
                if let Some(x) = a.seen.iter().find(|n| !a.may.contains(*n)) {
                    return Err(format!("stepping through the directory gives {:?}, which never existed", lossy(x)));
                }
                if let Some(x) = a.must.iter().find(|n| a.seen.iter().filter(|m| m == n).count() > 1) {
                    return Err(format!("stepping through the directory gives {:?} twice", lossy(x)));
                }
                if matches!(st, Rest) {
                    if let Some(x) = a.must.iter().find(|n| !a.seen.contains(n)) {
                        return Err(format!("stepping through the directory misses {:?}", lossy(x)));
                    }
                }
            }
            Entry(n) => {
                a.name = self.now(n);
                a.entry = Some(k(self.d.find_directory_entry(&pet(&a.name))).map_err(|e| format!("finding {:?}: {}", n, e))?);
            }
            FromEntry => {
                a.file = Some(k(self.d.open_file_from_entry(a.entry.as_ref().unwrap())).map_err(|e| format!("opening {:?} from its entry: {}", lossy(&a.name), e))?);
                a.acc = self.files.get(&a.name).cloned().unwrap_or_default();
            }
            Look => {
                let _ = view(&*self.d);
                let mut sink = std::io::sink();
                k(self.d.dump(&mut sink))?;
            }
            Label => {
                k(self.d.header_mut())?.disk_name = pet(b"LABEL");
                k(self.d.flush_header())?;
                self.label = Some(b"LABEL".to_vec());
            }
        }
        Ok(())
    }
    /// No block has two owners, nothing used is marked free, and all settled data is on the image.
    fn safe(&self, all: bool) -> R {
        let r = snap(&*self.d, self.g);
        let u = r.usage().map_err(|e| format!("the image cannot be followed: {:?}", e))?;
        for (l, o) in &u {
            if o.len() > 1 {
                return Err(format!("block {:?} has several owners: {}", l, o.join(", ")));
            }
            if l.0 <= self.g.dos_tracks() && r.is_free(l.0, l.1) {
                return Err(format!("block {:?} of {} is marked free", l, o.join(", ")));
            }
        }
        let es = r.entries().unwrap();
        if es.len() != self.files.len() + self.other.len() {
            return Err(format!("{} entries instead of {}", es.len(), self.files.len() + self.other.len()));
        }
        for (n, c) in &self.files {
            let e = es.iter().find(|e| e.name() == *n).ok_or_else(|| format!("{:?} is gone", lossy(n)))?;
            let x = r.chain_data(e.start()).map_err(|b| format!("{:?}: {:?}", lossy(n), b))?;
            let ok = if self.writing.contains(n) { x.starts_with(c) } else { x == *c };
            if !ok {
                return Err(format!("{:?} on the image: {}", lossy(n), first_diff(&[x], &[c.clone()])));
            }
        }
        for n in &self.locked {
            if !es.iter().any(|e| e.name() == *n && e.b[2] & 0x40 != 0) {
                return Err(format!("the locked flag of {:?} is lost", lossy(n)));
            }
        }
        if !all {
            return Ok(());
        }
        for (n, c) in &self.other {
            let e = es.iter().find(|e| e.name() == *n).ok_or_else(|| format!("{:?} is gone", lossy(n)))?;
            if raw_records(&r, e) != *c {
                return Err(format!("{:?} changed", lossy(n)));
            }
        }
        let p = r.problems();
        if !p.is_empty() {
            return Err(format!("after everything is closed: {}", p[0]));
        }
        for (n, c) in &self.files {
            let x = contents(&*self.d, n).map_err(|e| format!("reading {:?}: {}", lossy(n), e))?;
            if x != *c {
                return Err(format!("{:?} reads back differently: {}", lossy(n), first_diff(&[x], &[c.clone()])));
            }
        }
        if let Some(l) = &self.label {
            if self.d.name().map(|n| strip(n.as_bytes())) != Some(l.clone()) || strip(&r.sec(self.g.header())[self.g.name_off()..self.g.name_off() + 16]) != *l {
                return Err("the new disk name is lost".into());
            }
        }
        let v = view(&*self.d);
        diff_views(&v, &view(&*load(&r)), "this disk object", "a reopened one")
    }
}
fn interleavings(lens: &[usize]) -> f64 {
    let mut n = 0;
    let mut x = 1.0;
    for l in lens {
        for i in 1..=*l {
            n += 1;
            x *= n as f64 / i as f64;
        }
    }
    x
}
fn clash(a: &str, b: &str) -> bool {
    let o = |s: &str| -> &[&str] {
        match s {
            "app" | "a3" | "a4" | "delold" | "entw" | "entold" => &["OLD"],
            "app2" | "b3" | "read" | "ent" => &["LOCK"],
            "del" | "ren" | "entdel" => &["GSEQ"],
            _ => &[],
        }
    };
    o(a).iter().any(|x| o(b).contains(x))
}
fn c05_sets(t: Tier) -> Vec<(String, Vec<&'static str>)> {
    let full = ["new", "big", "app", "app2", "read", "cvt", "rec", "del", "ren", "mk3", "mkdel", "init", "look", "head"];
    let short = ["n3", "m3", "a3", "b3", "read", "cvt", "rec", "del", "ren", "mk3", "mkdel", "init", "head"];
    let plain = ["new", "big", "app", "delfill", "mk3", "mkdel", "init", "look", "head"];
    let plain3 = ["n3", "m3", "a3", "delfill", "mkdel", "init", "head"];
    type Sets = Vec<(String, Vec<&'static str>)>;
    // all subsets of k compatible scripts with a bounded number of schedules
    fn subsets(root: &str, names: &[&'static str], k: usize, limit: f64, v: &mut Sets) {
        fn go(root: &str, names: &[&'static str], k: usize, limit: f64, cur: &mut Vec<&'static str>, v: &mut Sets) {
            if k == 0 {
                if interleavings(&cur.iter().map(|x| script(x).len()).collect::<Vec<_>>()) <= limit {
                    v.push((root.to_string(), cur.clone()));
                }
                return;
            }
            for (i, a) in names.iter().enumerate() {
                if cur.iter().any(|b| clash(a, b)) {
                    continue;
                }
                cur.push(a);
                go(root, &names[i + 1..], k - 1, limit, cur, v);
                cur.pop();
            }
        }
        go(root, names, k, limit, &mut vec![], v)
    }
    let mut v: Sets = vec![];
    if !t.thorough() {
        subsets("mixed@d64", &full, 2, 1000.0, &mut v);
        for r in ["geos@d71", "geos@d81"] {
            subsets(r, &short, 2, 1000.0, &mut v);
        }
        for r in ["free3@d64", "free2@d64"] {
            subsets(r, &plain, 2, 1000.0, &mut v);
        }
        for r in ["free1@d64", "free3@d71", "free2@d81"] {
            subsets(r, &plain3, 2, 1000.0, &mut v);
        }
        subsets("geos@d64", &short, 3, 600.0, &mut v);
        subsets("free3@d64", &plain3, 3, 600.0, &mut v);
        for r in ["mixed@d64", "geos@d71", "geos@d81"] {
            for s in [
                vec!["a3", "renold"], vec!["a4", "renold"], vec!["app", "renold"], vec!["n3", "rennew"], vec!["new", "rennew"], vec!["b3", "renlock"], vec!["app2", "renlock"],
                vec!["read", "renlock"], vec!["a4", "lockold"], vec!["app", "lockold"], vec!["n3", "locknew"], vec!["new", "locknew"], vec!["a3", "renold", "lockold"], vec!["n3", "rennew", "locknew"],
                vec!["a3", "renold", "init"], vec!["a3", "n3", "renold"],
            ] {
                v.push((r.to_string(), s));
            }
        }
        for r in ["mixed@d64", "geos@d71", "geos@d81"] {
            for s in [
                vec!["iter", "mk3"], vec!["iter", "mkdel"], vec!["iter", "del"], vec!["iter", "delold"], vec!["iter", "ren"], vec!["iter", "a4"], vec!["iter", "init"], vec!["iter", "del", "mkdel"],
                vec!["ent", "renlock"], vec!["ent", "init"], vec!["ent", "mk3"], vec!["entw", "renold"], vec!["entw", "lockold"], vec!["entw", "init"], vec!["entw", "n3"],
                vec!["entdel", "n3"], vec!["entold", "renold"], vec!["entold", "lockold"], vec!["entold", "init"], vec!["entw", "renold", "lockold"],
            ] {
                v.push((r.to_string(), s));
            }
        }
        for r in ["dir7@d64", "dir8@d64", "dirlast8@d64", "dir8@d81"] {
            for s in [vec!["iter9", "mk3"], vec!["iter9", "mkdel"], vec!["iter", "mk3", "init"], vec!["n3", "mk3"], vec!["m3", "mk3"], vec!["mk3", "mkdel"], vec!["a3", "mk3", "init"], vec!["n3", "a3", "head"]] {
                v.push((r.to_string(), s));
            }
        }
    } else {
        for r in ["mixed@d64", "geos@d64", "mixed@d71", "geos@d71", "mixed@d81", "geos@d81", "mixed@d64x40"] {
            subsets(r, &full, 2, 1000.0, &mut v);
        }
        for r in ["geos@d64", "mixed@d71", "geos@d81"] {
            subsets(r, &short, 3, 13000.0, &mut v);
        }
        for r in ["free1@d64", "free2@d64", "free3@d64", "free3@d71", "free3@d81"] {
            subsets(r, &plain, 2, 1000.0, &mut v);
            subsets(r, &plain3, 3, 13000.0, &mut v);
        }
        subsets("mixed@d64", &full, 3, 8000.0, &mut v);
        for r in ["mixed@d64", "geos@d64", "mixed@d71", "geos@d81"] {
            subsets(r, &["a3", "a4", "b3", "n3", "new", "renold", "renlock", "rennew", "lockold", "locknew", "init", "del", "mk3", "iter", "iter9", "ent", "entw", "entdel"], 3, 1500.0, &mut v);
        }
        subsets("mixed@d64", &["n3", "a3", "b3", "del", "init", "head", "ren"], 4, 30000.0, &mut v);
        subsets("frag@d64", &plain3, 2, 1000.0, &mut v);
        for r in ["dir7@d64", "dir8@d64", "dirlast8@d64", "dirlast@d64", "dir8@d81", "dir8@d71"] {
            subsets(r, &["n3", "m3", "a3", "mk3", "mkdel", "init", "head", "iter9"], 3, 13000.0, &mut v);
        }
    }
    v
}
fn c05_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (r, s) in c05_sets(t) {
        let lens: Vec<usize> = s.iter().map(|x| script(x).len()).collect();
        let n = interleavings(&lens);
        let parts = ((n / 1500.0) as usize).clamp(1, 16);
        for p in 0..parts {
            v.push(format!("{}|{}|{}/{}", r, s.join("+"), p, parts));
        }
    }
    v
}
fn c05_bound(t: Tier) -> String {
    let sets = c05_sets(t);
    let total: f64 = sets.iter().map(|(_, s)| interleavings(&s.iter().map(|x| script(x).len()).collect::<Vec<_>>())).sum();
    format!(
        "all {} interleavings of {} sets of 2-4 concurrent scripts (create and write, append with and without flush, read, GEOS conversion, record reads, delete, rename, many creations, create-delete-create, re-initialise, inspect, relabel, step through the directory, open from a kept entry; 1-6 steps each) on disks that are roomy, nearly full or have a full directory",
        total, sets.len()
    )
}
fn c05(case: &str, _t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('|').collect();
    let root = roots::root(p[0]);
    let scripts: Vec<Vec<St>> = p[1].split('+').map(script).collect();
    let (part, parts) = p[2].split_once('/').map(|(a, b)| (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())).unwrap();
    let total: usize = scripts.iter().map(|s| s.len()).sum();
    // enumerate all schedules
    let mut sched: Vec<usize> = vec![];
    let mut left: Vec<usize> = scripts.iter().map(|s| s.len()).collect();
    let mut n = 0usize;
    fn go(sched: &mut Vec<usize>, left: &mut Vec<usize>, total: usize, f: &mut dyn FnMut(&[usize]) -> R) -> R {
        if sched.len() == total {
            return f(sched);
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                sched.push(i);
                go(sched, left, total, f)?;
                sched.pop();
                left[i] += 1;
            }
        }
        Ok(())
    }
    go(&mut sched, &mut left, total, &mut |s| {
        n += 1;
        if n % parts != part {
            return Ok(());
        }
        let text = |m: usize| {
            let mut at = vec![0; scripts.len()];
            s[..m].iter().map(|i| { at[*i] += 1; format!("{}:{:?}", i, scripts[*i][at[*i] - 1]) }).collect::<Vec<_>>().join(" ")
        };
        cov.tick(|| format!("{} {}", p[0], text(s.len())));
        let mut sh = Shared::new(&root);
        let mut ag: Vec<Agent> = scripts.iter().map(|_| Agent::default()).collect();
        let mut at = vec![0; scripts.len()];
        for (j, i) in s.iter().enumerate() {
            let st = &scripts[*i][at[*i]];
            at[*i] += 1;
            cov.step();
            sh.step(&mut ag[*i], st).map_err(|e| format!("[{} | {}] {}", p[0], text(j + 1), e))?;
            if let Rename(x, y) = st {
                for a in ag.iter_mut() {
                    if a.name == x.as_bytes() {
                        a.name = y.as_bytes().to_vec();
                    }
                }
            }
            for a in ag.iter_mut().filter(|a| a.iter.is_some()) {
                a.must.retain(|n| sh.files.contains_key(n) || sh.other.contains_key(n));
                a.may.extend(sh.files.keys().chain(sh.other.keys()).cloned());
            }
            if matches!(st, Create(_) | CreateW(_) | Write(..) | Flush | Close | Delete | Label | Rename(..) | Lock(_)) {
                sh.safe(false).map_err(|e| format!("[{} | {}] {}", p[0], text(j + 1), e))?;
            }
        }
        drop(ag);
        cov.state(fp(&[&snap(&*sh.d, sh.g).d]));
        sh.safe(true).map_err(|e| format!("[{} | {}] {}", p[0], text(s.len()), e))
    })?;
    cov.outcome("all schedules of this part consistent");
    Ok(())
}

// ------------------------------------------------------------------ C07
/// Calls that would change the image; on read-only media each has to be refused.
const CHANGES: &[&str] = &[
    "create", "put", "append", "append0", "append-big", "delete-linear", "delete-rel", "delete-seq", "delete-vlir", "delete-border", "rename", "format", "format-long",
    "flush-header", "relabel", "write-sector", "write-entry", "slot", "slot-write", "bam-flush", "bam-edit", "sector-mut", "error-table", "position-write",
];
/// Ok(Some(kind)): refused; Ok(None): the call does not apply here.
fn change(d: &mut Dk, g: Geo, what: &str) -> Result<Option<String>, String> {
    let e = |r: std::io::Result<()>| match r {
        Ok(()) => Err("succeeds".to_string()),
        Err(e) => Ok(Some(kind(&e))),
    };
    let del = |d: &mut Dk, n: &[u8]| match d.open_file(&pet(n)) {
        Err(x) if kind(&x) == "NotFound" => Ok(None),
        Err(x) => Ok(Some(kind(&x))),
        Ok(mut f) => e(f.delete()),
    };
    let app = |d: &mut Dk, n: usize| match d.open_file(&pet(b"OLD")).and_then(|f| f.writer()) {
        Err(x) if kind(&x) == "NotFound" => Ok(None),
        Err(x) => Ok(Some(kind(&x))),
        Ok(mut w) => {
            // data may be buffered, but it must not be reported as stored
            let r = w.write_all(&content(5, n));
            let fl = w.flush();
            if n > 0 && r.is_ok() && fl.is_err() && w.flush().is_ok() {
                return Err("the flush is refused, but a second one reports the data as written".into());
            }
            match (r, fl) {
                (_, Err(x)) | (Err(x), _) => Ok(Some(kind(&x))),
                _ if n == 0 => Ok(Some("ReadOnly".into())),
                _ => Err("data is reported as written".into()),
            }
        }
    };
    match what {
        "create" => e(d.create_file(&pet(b"NEWFILE"), ftype(2), LScheme::Linear).map(|_| ())),
        "put" => match d.create_file(&pet(b"NEWFILE"), ftype(1), LScheme::Linear) {
            Err(x) => Ok(Some(kind(&x))),
            Ok(_) => Err("succeeds".into()),
        },
        "append" => app(d, 10),
        "append0" => app(d, 0),
        "append-big" => app(d, 700),
        "delete-linear" => del(d, b"OLD"),
        "delete-rel" => del(d, b"REL"),
        "delete-seq" => del(d, b"GSEQ"),
        "delete-vlir" => del(d, b"VLIR"),
        "delete-border" => del(d, b"BORD"),
        "rename" => match d.find_directory_entry(&pet(b"OLD")) {
            Err(_) => Ok(None),
            Ok(_) => e(d.rename(&pet(b"OLD"), &pet(b"OLDER"))),
        },
        "format" => e(d.write_format(&pet(b"EMPTY"), &"XX".into())),
        "format-long" => match d.write_format(&pet(b"A NAME MUCH TOO LONG FOR A DISK"), &"XX".into()) {
            Ok(()) => Err("succeeds".into()),
            Err(_) => Ok(Some("ReadOnly".into())),
        },
        "flush-header" => e(d.flush_header()),
        "relabel" => {
            let old = match d.header() {
                Err(_) => return Ok(None),
                Ok(h) => h.disk_name.clone(),
            };
            match d.header_mut() {
                Err(x) => return Ok(Some(kind(&x))),
                Ok(h) => {
                    h.disk_name = pet(b"CHANGED");
                    h.disk_id = cbm::disk::Id::from_bytes(b"CH");
                }
            }
            // what the library reports afterwards shows whether the edit took effect
            let r = d.flush_header();
            if d.header().map(|h| h.disk_name.clone()).ok() != Some(old) {
                return Err("the header can be edited".into());
            }
            e(r)
        }
        "write-sector" => {
            for l in [(1u8, 0u8), g.header(), g.first_dir()] {
                let l = ts!(d, l);
                match d.write_sector(l, &[0x55; 256]) {
                    Ok(()) => return Err("succeeds".into()),
                    Err(x) if kind(&x) != "ReadOnly" => return Ok(Some(kind(&x))),
                    _ => {}
                }
            }
            Ok(Some("ReadOnly".into()))
        }
        "write-entry" => {
            let mut x = match d.find_directory_entry(&pet(b"OLD")) {
                Err(_) => return Ok(None),
                Ok(x) => x,
            };
            x.file_size = 4242;
            e(d.write_directory_entry(&x))
        }
        // asking for a slot may succeed as long as nothing is changed by it
        "slot" => {
            let _ = d.next_free_directory_entry();
            Ok(None)
        }
        "slot-write" => match d.next_free_directory_entry() {
            Err(_) => Ok(None),
            Ok(mut x) => {
                x.filename = "SLOT".into();
                e(d.write_directory_entry(&x))
            }
        },
        "bam-flush" => match d.bam() {
            Err(_) => Ok(None),
            Ok(b) => e(b.borrow_mut().flush()),
        },
        "bam-edit" => match d.bam() {
            Err(_) => Ok(None),
            Ok(b) => {
                // raw edits of the map in memory are undone again here; only flushing is judged
                let l = ts!(d, (1, 0));
                let free = b.borrow().entry(l.0).map(|x| x.sector_map & 1 == 1).unwrap_or(false);
                let r = {
                    let mut m = b.borrow_mut();
                    let _ = if free { m.allocate(l) } else { m.free(l) };
                    let r = m.flush();
                    let _ = if free { m.free(l) } else { m.allocate(l) };
                    r
                };
                e(r)
            }
        },
        "sector-mut" => {
            let l = ts!(d, (1, 0));
            let mut b = d.blocks_ref_mut();
            let r = match b.sector_mut(l) {
                Err(x) => Ok(Some(kind(&x))),
                Ok(_) => Err("a block can be edited".into()),
            };
            r
        }
        "error-table" => {
            let mut b = d.blocks_ref_mut();
            let r = match b.error_table_mut() {
                Ok(None) => Ok(None),
                Err(x) => Ok(Some(kind(&x))),
                Ok(Some(_)) => Err("the error table can be edited".into()),
            };
            r
        }
        "position-write" => {
            let x = match d.find_directory_entry(&pet(b"OLD")) {
                Err(_) => return Ok(None),
                Ok(x) => x,
            };
            let r = e(d.blocks_ref_mut().positioned_write(&x));
            r
        }
        _ => panic!("change {}", what),
    }
}
const LOOKS: &[&str] = &[
    "directory", "iterate", "find", "available", "read", "read-part", "records", "details", "blocks", "info", "convert", "file-dump", "validate", "dump", "free", "show", "sectors", "initialize", "bam", "writer-refused",
];
fn look(d: &mut Dk, g: Geo, what: &str) {
    let each = |d: &Dk, f: &mut dyn FnMut(File)| {
        if let Ok(es) = d.directory() {
            for e in es {
                if let Ok(x) = d.open_file_from_entry(&e) {
                    f(x);
                }
            }
        }
    };
    match what {
        "directory" => drop(d.directory()),
        "iterate" => {
            let mut i = d.iter();
            for _ in 0..4 {
                let _ = i.next();
            }
            drop(i);
            let _ = d.iter().count();
        }
        "find" => {
            for n in [&b"OLD"[..], b"VLIR", b"BORD", b"MISSING", b"", b"*"] {
                let _ = d.find_directory_entry(&pet(n));
                let _ = d.open_file(&pet(n)).map(|f| f.name());
            }
        }
        "available" => {
            for n in [&b"OLD"[..], b"MISSING", b"01234567890123456789"] {
                let _ = d.check_filename_availability(&pet(n));
            }
        }
        "read" => each(d, &mut |f| {
            if let Ok(mut r) = f.reader() {
                let _ = read_all(&mut *r);
            }
        }),
        "read-part" => each(d, &mut |f| {
            if let Ok(mut r) = f.reader() {
                let _ = r.read(&mut [0; 100]);
                let _ = r.read(&mut [0; 300]);
            }
        }),
        "records" => each(d, &mut |f| {
            for i in 0..f.record_count().unwrap_or(0) + 1 {
                let _ = f.record(i);
            }
        }),
        "details" => each(d, &mut |f| {
            for v in 0..4 {
                let _ = f.details(&mut std::io::sink(), v);
            }
        }),
        "blocks" => each(d, &mut |f| drop(f.occupied_sectors())),
        "info" => each(d, &mut |f| {
            if let Ok(Some(i)) = f.geos_info() {
                let _ = format!("{} {}", i, i.icon.to_unicode());
            }
        }),
        "convert" => each(d, &mut |f| {
            if let File::GEOSSequential(ref x) | File::GEOSVLIR(ref x) = f {
                if let Ok(mut r) = x.reader() {
                    let _ = read_all(&mut r);
                }
            }
        }),
        "file-dump" => each(d, &mut |f| drop(f.dump(&mut std::io::sink()))),
        "validate" => drop(d.validate()),
        "dump" => drop(d.dump(&mut std::io::sink())),
        "free" => drop(d.blocks_free()),
        "show" => {
            let _ = format!("{} {:?} {:?} {:?}", &**d, &**d, d.name(), d.header().map(|h| h.disk_id.clone()).ok());
        }
        "sectors" => {
            for l in g.blocks() {
                let _ = d.read_sector(ts!(d, l));
            }
            let _ = d.read_sector(ts!(d, (0, 0)));
            let _ = d.read_sector(ts!(d, (200, 0)));
            let b = d.blocks_ref();
            let _ = b.error_table();
        }
        "initialize" => d.initialize(),
        "bam" => {
            if let Ok(b) = d.bam() {
                let _ = format!("{:?}", b.borrow());
            }
        }
        "writer-refused" => each(d, &mut |f| {
            if !matches!(f, File::Linear(_)) {
                drop(f.writer());
            }
        }),
        _ => panic!("look {}", what),
    }
}
fn c07_geos() -> &'static [&'static str] {
    &["d64", "d64e", "d64x40", "d64x40e", "d71", "d71e", "d81", "d81e"]
}
fn c07_ro_roots(t: Tier) -> Vec<String> {
    let mut v: Vec<String> = c07_geos().iter().map(|g| format!("geos@{}", g)).collect();
    for r in ["fresh@d64", "blank@d64", "blank@d81", "dirfull@d64", "dir8@d71", "full@d64"] {
        v.push(r.to_string());
    }
    if t.thorough() {
        for g in c07_geos() {
            for k in ["dir7", "dir8", "free1", "recycled", "blank", "frag"] {
                v.push(format!("{}@{}", k, g));
            }
        }
    }
    v
}
fn c07_root(n: &str) -> Raw {
    match n.strip_prefix("blank@") {
        Some(g) => Raw::blank(Geo::by_name(g)),
        None => roots::root(n),
    }
}
fn c07_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for r in c07_ro_roots(t) {
        for a in 0..CHANGES.len() + LOOKS.len() {
            v.push(format!("ro/{}/{}", r, a));
        }
        v.push(format!("look/{}/{}", r, 0));
    }
    for r in t.pick(vec!["mixed@d64", "geos@d64", "mixed@d71", "geos@d81", "free2@d64", "dir8@d64"], vec!["mixed@d64", "geos@d64", "mixed@d71", "geos@d71", "mixed@d81", "geos@d81", "mixed@d64x40", "free1@d64", "free2@d64", "free2@d71", "dir8@d64", "dir8@d81", "recycled@d64"]) {
        for a in 0..LOOKS.len() {
            v.push(format!("between/{}/{}", r, a));
        }
    }
    for r in t.pick(vec!["geos@d64", "geos@d81"], vec!["geos@d64", "geos@d64x40", "geos@d71", "geos@d81"]) {
        for i in 0..8 {
            v.push(format!("damaged/{}/{}", r, i));
        }
    }
    v
}
fn c07_bound(t: Tier) -> String {
    format!(
        "read-only image files ({} images, all formats and variants): all sequences of up to {} of {} changing and {} inspecting calls; writable images in memory and in files: all sequences of up to 2 inspecting calls; every history of up to {} changes with each inspecting call before, between and after them compared with the same history without; inspection of every single-byte damage of directory, map, links and index blocks",
        c07_ro_roots(t).len(), t.pick(2, 3), CHANGES.len(), LOOKS.len(), t.pick(2, 3)
    )
}
fn ro_step(d: &mut Dk, g: Geo, i: usize, formatted: bool, full: bool, cov: &mut Cov) -> R {
    cov.step();
    if i >= CHANGES.len() {
        look(d, g, LOOKS[i - CHANGES.len()]);
        return Ok(());
    }
    let what = CHANGES[i];
    match change(d, g, what).map_err(|e| format!("read-only: {} {}", what, e))? {
        None => {}
        Some(x) => {
            cov.outcome(&format!("{} {}", what, x));
            let ok = x == "ReadOnly" || !formatted || full && x == "DiskFull" && matches!(what, "create" | "put");
            if !ok {
                return Err(format!("{} on a read-only disk fails with {} instead of ReadOnly", what, x));
            }
        }
    }
    Ok(())
}
fn c07(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let r = c07_root(p[1]);
    let g = r.g;
    let a: usize = p[2].parse().unwrap();
    let formatted = !p[1].starts_with("blank");
    let name = |i: &usize| if *i < CHANGES.len() { CHANGES[*i] } else { LOOKS[*i - CHANGES.len()] };
    match p[0] {
        "ro" => {
            let full = p[1].starts_with("full") || p[1].starts_with("dirfull");
            let s = Scratch::new("c07");
            let path = s.path(&format!("i.{}", g.ext()));
            std::fs::write(&path, &r.d).expect("scratch file");
            let before = {
                let d = k(cbm::disk::open(&path, false)).map_err(|e| format!("{}: opening read-only: {}", p[1], e))?;
                view(&*d)
            };
            let n = CHANGES.len() + LOOKS.len();
            let mut seqs: Vec<Vec<usize>> = vec![vec![a]];
            for b in 0..n {
                seqs.push(vec![a, b]);
                if t.thorough() && p[1].starts_with("geos@d") && a < CHANGES.len() && b < CHANGES.len() {
                    for c in 0..CHANGES.len() {
                        seqs.push(vec![a, b, c]);
                    }
                }
            }
            for q in seqs {
                let desc = || format!("{} read-only: {}", p[1], q.iter().map(name).collect::<Vec<_>>().join(", "));
                cov.tick(desc);
                let mut d = k(cbm::disk::open(&path, false))?;
                for i in &q {
                    ro_step(&mut d, g, *i, formatted, full, cov).map_err(|e| format!("{}: {}", desc(), e))?;
                }
                diff_views(&before, &view(&*d), "before", "after").map_err(|e| format!("{}: the library reports something else: {}", desc(), e))?;
                if let Some(x) = diff_raw(&r, &snap(&*d, g)) {
                    return Err(format!("{}: the disk object shows changed bytes: {}", desc(), x));
                }
                d.initialize();
                diff_views(&before, &view(&*d), "before", "after re-initialising").map_err(|e| format!("{}: {}", desc(), e))?;
                drop(d);
                if std::fs::read(&path).unwrap() != r.d {
                    return Err(format!("{}: the image file changed", desc()));
                }
                cov.state(fp(&[p[1].as_bytes(), format!("{:?}", q).as_bytes()]));
            }
        }
        "look" => {
            let s = Scratch::new("c07");
            for file in [false, true] {
                for x in 0..LOOKS.len() {
                    for y in 0..LOOKS.len() {
                        let desc = || format!("{} ({}): {}, {}", p[1], if file { "file" } else { "memory" }, LOOKS[x], LOOKS[y]);
                        cov.tick(desc);
                        cov.step();
                        let mut d = if file { k(file_disk(&s, &format!("i.{}", g.ext()), &r, true))? } else { load(&r) };
                        let before = view(&*d);
                        look(&mut d, g, LOOKS[x]);
                        look(&mut d, g, LOOKS[y]);
                        if let Some(x) = diff_raw(&r, &snap(&*d, g)) {
                            return Err(format!("{}: the image changed: {}", desc(), x));
                        }
                        diff_views(&before, &view(&*d), "before", "after").map_err(|e| format!("{}: {}", desc(), e))?;
                        drop(d);
                        if file && std::fs::read(s.path(&format!("i.{}", g.ext()))).unwrap() != r.d {
                            return Err(format!("{}: the image file changed", desc()));
                        }
                        cov.state(fp(&[case.as_bytes(), &[x as u8, y as u8, file as u8]]));
                    }
                }
            }
        }
        "between" => {
            // the same changes with and without looking at the disk in between
            let acts: [&dyn Fn(&mut Dk) -> Vec<String>; 6] = [
                &|d| act_put(d, b"P1", 700),
                &|d| act_put(d, b"P2", 254),
                &|d| act_app(d, b"OLD", 300),
                &|d| vec![format!("{:?}", k(d.open_file(&pet(b"OLD")).and_then(|mut f| f.delete())))],
                &|d| vec![format!("{:?}", k(d.open_file(&pet(b"VLIR")).and_then(|mut f| f.delete())))],
                &|d| vec![format!("{:?}", k(d.rename(&pet(b"OLD"), &pet(b"OLDER"))))],
            ];
            let depth = t.pick(2, 3);
            let mut total = 1usize;
            for len in 1..=depth {
                total *= acts.len();
                for c in 0..total {
                    let mut seq = vec![];
                    let mut x = c;
                    for _ in 0..len {
                        seq.push(x % acts.len());
                        x /= acts.len();
                    }
                    let desc = || format!("{}: changes {:?} with {} in between", p[1], seq, LOOKS[a]);
                    cov.tick(desc);
                    let mut one = load(&r);
                    let mut two = load(&r);
                    let (mut r1, mut r2) = (vec![], vec![]);
                    look(&mut two, g, LOOKS[a]);
                    for i in &seq {
                        cov.step();
                        r1.extend(acts[*i](&mut one));
                        r2.extend(acts[*i](&mut two));
                        look(&mut two, g, LOOKS[a]);
                    }
                    if r1 != r2 {
                        return Err(format!("{}: results differ: {:?} and {:?}", desc(), r1, r2));
                    }
                    let (a1, a2) = (snap(&*one, g), snap(&*two, g));
                    if let Some(x) = diff_raw(&a1, &a2) {
                        return Err(format!("{}: looking changes what later calls do: {}", desc(), x));
                    }
                    diff_views(&view(&*one), &view(&*two), "without looking", "with looking").map_err(|e| format!("{}: {}", desc(), e))?;
                    cov.state(fp(&[&a1.d, LOOKS[a].as_bytes()]));
                }
            }
        }
        _ => {
            let mut v = vec![];
            for s in ["header", "bam", "dir", "border", "links", "side", "index", "info"] {
                v.extend(crate::damage::structure(&r, s));
            }
            for (i, o) in v.into_iter().enumerate() {
                if i % 8 != a {
                    continue;
                }
                for val in crate::damage::values(r.d[o], t.pick(0, 1)) {
                    let mut x = r.clone();
                    x.d[o] = val;
                    let desc = || format!("{} with byte {:#x} set to {:#04x}", p[1], o, val);
                    cov.tick(desc);
                    let mut d = load(&x);
                    for l in LOOKS {
                        if !matches!(*l, "dump" | "sectors") {
                            cov.step();
                            look(&mut d, g, l);
                        }
                    }
                    if let Some(e) = diff_raw(&x, &snap(&*d, g)) {
                        return Err(format!("{}: inspection changed the image: {}", desc(), e));
                    }
                    cov.state(fp(&[&x.d]));
                }
            }
        }
    }
    Ok(())
}
fn act_put(d: &mut Dk, n: &[u8], len: usize) -> Vec<String> {
    match d.create_file(&pet(n), ftype(2), LScheme::Linear) {
        Err(e) => vec![kind(&e)],
        Ok(f) => match f.writer() {
            Err(e) => vec![kind(&e)],
            Ok(mut w) => vec![format!("{:?}", push(&mut *w, &content(7, len)))],
        },
    }
}
fn act_app(d: &mut Dk, n: &[u8], len: usize) -> Vec<String> {
    match d.open_file(&pet(n)).and_then(|f| f.writer()) {
        Err(e) => vec![kind(&e)],
        Ok(mut w) => vec![format!("{:?}", push(&mut *w, &content(8, len)))],
    }
}

pub static C05: Prop = Prop {
    id: "C05", level: "model_checking",
    rule: "every interleaving of the steps of the scripts in a set is executed on one disk object; after every changing step no block has two owners or is used but free and all settled data is on the image; at the end the image is consistent, every file is exact and a reopened disk shows the same",
    bound: c05_bound, cases: c05_cases, run: c05,
};
pub static C07: Prop = Prop {
    id: "C07", level: "model_checking",
    rule: "after every sequence of calls the image file, the bytes seen through the object and everything reported are compared with those before; changing calls on read-only media must fail with ReadOnly",
    bound: c07_bound, cases: c07_cases, run: c07,
};
pub static PROPS: &[&Prop] = &[&C05, &C07];
