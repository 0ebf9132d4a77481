//! C06: stopping after any block write. The image file is mapped into memory by the library; the
//! mapping is write-protected, every store is let through one at a time and the sequence of block
//! writes is recorded, so each prefix of it can be reopened as the image a stopped process leaves.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use crate::world::{first_diff, lossy};
use cbm::disk::file::{FileOps, Scheme as LScheme};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::Write;

// ------------------------------------------------------------------ recording block writes
struct Tracer {
    base: usize,
    len: usize,      // bytes of the image
    map_len: usize,  // rounded to pages
    shadow: Vec<u8>,
    cur: Option<usize>,
    /// each element: the blocks (index, contents) that one block write changed
    log: Vec<Vec<(usize, Vec<u8>)>>,
    armed: bool,
    stores: u64,
}
thread_local! {
    static TRACER: Cell<*mut Tracer> = const { Cell::new(std::ptr::null_mut()) };
}
impl Tracer {
    fn image(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base as *const u8, self.len) }
    }
    /// Log everything that differs from the last logged state as one write.
    fn sync(&mut self) {
        let img = unsafe { std::slice::from_raw_parts(self.base as *const u8, self.len) };
        self.cur = None;
        if img == &self.shadow[..] {
            return;
        }
        let mut ev = vec![];
        for (i, (a, b)) in img.chunks(256).zip(self.shadow.chunks(256)).enumerate() {
            if a != b {
                ev.push((i, a.to_vec()));
            }
        }
        self.shadow.copy_from_slice(img);
        self.log.push(ev);
    }
    fn protect(&self, on: bool) {
        let p = if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe {
            if libc::mprotect(self.base as *mut libc::c_void, self.map_len, p) != 0 {
                libc::abort();
            }
        }
    }
}
extern "C" fn on_segv(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        let t = TRACER.with(|t| t.get());
        if t.is_null() || !(*t).armed || addr < (*t).base || addr >= (*t).base + (*t).map_len {
            libc::signal(sig, libc::SIG_DFL);
            return;
        }
        let t = &mut *t;
        let b = (addr - t.base) / 256;
        if t.cur != Some(b) {
            t.sync();
            t.cur = Some(b);
        }
        t.stores += 1;
        t.protect(false);
        let uc = uc as *mut libc::ucontext_t;
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
    }
}
extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let t = TRACER.with(|t| t.get());
        let uc = uc as *mut libc::ucontext_t;
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        if !t.is_null() && (*t).armed {
            (*t).protect(true);
        }
    }
}
fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        for (s, h) in [(libc::SIGSEGV, on_segv as *const () as usize), (libc::SIGTRAP, on_trap as *const () as usize)] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = h;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    });
}
fn mapping(path: &std::path::Path) -> Option<(usize, usize)> {
    let p = path.to_str().unwrap();
    for l in std::fs::read_to_string("/proc/self/maps").ok()?.lines() {
        if l.ends_with(p) && l.contains("rw-s") {
            let (a, b) = l.split(' ').next()?.split_once('-')?;
            let (a, b) = (usize::from_str_radix(a, 16).ok()?, usize::from_str_radix(b, 16).ok()?);
            return Some((a, b - a));
        }
    }
    None
}
/// Arms the tracer for as long as it lives; must be dropped before the disk object.
struct Armed(Box<Tracer>);
impl Armed {
    fn new(path: &std::path::Path, len: usize) -> Armed {
        install();
        let (base, map_len) = match mapping(path) {
            Some(x) => x,
            None => {
                eprintln!("C06: the image file is not mapped into memory for writing; block writes cannot be recorded this way");
                std::process::exit(2);
            }
        };
        let shadow = unsafe { std::slice::from_raw_parts(base as *const u8, len) }.to_vec();
        let mut t = Box::new(Tracer { base, len, map_len, shadow, cur: None, log: Vec::with_capacity(256), armed: true, stores: 0 });
        TRACER.with(|c| c.set(&mut *t));
        t.protect(true);
        Armed(t)
    }
    fn sync(&mut self) -> usize {
        self.0.sync();
        self.0.log.len()
    }
}
impl Drop for Armed {
    fn drop(&mut self) {
        self.0.armed = false;
        self.0.protect(false);
        TRACER.with(|c| c.set(std::ptr::null_mut()));
    }
}

// ------------------------------------------------------------------ what may be found afterwards
type Recs = Vec<Vec<u8>>;
#[derive(Clone, Debug)]
enum Maybe {
    Create(Vec<u8>),
    Delete(Vec<u8>, Recs),
    Rename(Vec<u8>, Vec<u8>, Recs),
}
#[derive(Clone, Debug, Default)]
struct Spec {
    exact: BTreeMap<Vec<u8>, Recs>,
    /// files being written: the bytes flushed so far, and these and the bytes handed over since
    open: BTreeMap<Vec<u8>, (Vec<u8>, Vec<u8>)>,
    maybe: Option<Maybe>,
}
fn raw_records(r: &Raw, e: &Ent) -> Result<Recs, Bad> {
    Ok(match e.scheme() {
        Scheme::Linear | Scheme::Seq => vec![r.chain_data(e.start())?],
        Scheme::Rel => {
            let (_, data) = r.side_sectors(e.extra())?;
            let d = if data.is_empty() { vec![] } else { r.chain_data(data[0])? };
            crate::world::rel_records(&d, e.b[0x17])
        }
        Scheme::Vlir => {
            let mut v = vec![];
            for x in r.vlir_records(e.start())? {
                v.push(match x {
                    None => vec![],
                    Some(l) => r.chain_data(l)?,
                });
            }
            v
        }
    })
}
impl Spec {
    fn of(r: &Raw) -> Spec {
        let mut s = Spec::default();
        for e in r.entries().unwrap() {
            s.exact.insert(e.name(), raw_records(r, &e).unwrap());
        }
        s
    }
    fn judge(&self, r: &Raw, follow: bool) -> R {
        self.on_image(r)?;
        let mut d = load(r);
        self.through(&d)?;
        if follow {
            // going on working with what was left must not hurt anything either
            for (n, len) in [("ZZ1", 600), ("ZZ2", 200)] {
                if let Ok(f) = d.create_file(&pet(n.as_bytes()), ftype(2), LScheme::Linear) {
                    if let Ok(mut w) = f.writer() {
                        let _ = push(&mut *w, &content(99, len));
                    }
                }
            }
            self.through(&d).map_err(|e| format!("after writing two more files: {}", e))?;
            let d = load(&snap(&*d, r.g));
            self.through(&d).map_err(|e| format!("after writing two more files and reopening: {}", e))?;
        }
        Ok(())
    }
    fn on_image(&self, r: &Raw) -> R {
        let es = r.entries().map_err(|b| format!("the directory cannot be followed: {:?}", b))?;
        let u = r.usage().map_err(|b| format!("a file cannot be followed: {:?}", b))?;
        for (l, o) in &u {
            if o.len() > 1 {
                return Err(format!("block {:?} is shared by {}", l, o.join(", ")));
            }
            if l.0 <= r.g.dos_tracks() && r.is_free(l.0, l.1) {
                return Err(format!("block {:?} of {} is marked free", l, o.join(", ")));
            }
        }
        let mut seen: Vec<Vec<u8>> = vec![];
        for e in &es {
            let n = e.name();
            if seen.contains(&n) {
                return Err(format!("{:?} is listed twice", lossy(&n)));
            }
            seen.push(n.clone());
            let x = raw_records(r, e).map_err(|b| format!("{:?} cannot be followed: {:?}", lossy(&n), b))?;
            self.file(&n, &x)?;
        }
        self.present(&seen)
    }
    fn through(&self, d: &Dk) -> R {
        let es = k(d.directory()).map_err(|e| format!("the directory cannot be listed: {}", e))?;
        k(d.validate()).map_err(|e| format!("validating fails: {}", e))?;
        k(d.blocks_free())?;
        let mut seen = vec![];
        for e in &es {
            let n = e.filename.as_bytes().to_vec();
            seen.push(n.clone());
            if n.starts_with(b"ZZ") {
                continue;
            }
            let x = records(&**d, e).map_err(|x| format!("{:?} cannot be read: {}", lossy(&n), x))?;
            self.file(&n, &x)?;
        }
        self.present(&seen)
    }
    /// One file found: is its state allowed?
    fn file(&self, n: &[u8], x: &Recs) -> R {
        let same = |want: &Recs| if x == want { Ok(()) } else { Err(format!("{:?} is damaged: {}", lossy(n), first_diff(x, want))) };
        if let Some(w) = self.exact.get(n) {
            return same(w);
        }
        if let Some((w, all)) = self.open.get(n) {
            if x.len() != 1 || !x[0].starts_with(w) {
                return Err(format!("{:?} lost flushed data: {}", lossy(n), first_diff(x, &[w.clone()])));
            }
            return if all.starts_with(&x[0]) { Ok(()) } else { Err(format!("{:?} holds bytes that were never written to it: {}", lossy(n), first_diff(x, &[all.clone()]))) };
        }
        match &self.maybe {
            Some(Maybe::Create(m)) if m == n => same(&vec![vec![]]),
            Some(Maybe::Delete(m, w)) if m == n => same(w),
            Some(Maybe::Rename(a, b, w)) if a == n || b == n => same(w),
            _ => Err(format!("{:?} appears from nowhere", lossy(n))),
        }
    }
    fn present(&self, seen: &[Vec<u8>]) -> R {
        for n in self.exact.keys().chain(self.open.keys()) {
            if !seen.contains(n) {
                return Err(format!("{:?} is gone", lossy(n)));
            }
        }
        if let Some(Maybe::Rename(a, b, _)) = &self.maybe {
            if seen.contains(a) == seen.contains(b) {
                return Err(format!("renaming {:?} to {:?}: {} of them", lossy(a), lossy(b), if seen.contains(a) { "both" } else { "none" }));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ the histories
#[derive(Clone, Copy, Debug)]
enum COp {
    Create(&'static str),
    /// name, bytes, flush in between after this many bytes
    Put(&'static str, usize, usize),
    App(&'static str, usize, usize),
    /// two files written in turn, with flushes
    Two(&'static str, &'static str),
    Del(&'static str),
    Ren(&'static str, &'static str),
    Label,
    Init,
}
use COp::*;
const OPS: &[COp] = &[
    Create("X"), Put("X", 100, 0), Put("X", 700, 300), Put("Y", 1300, 508), App("OLD", 10, 0), App("OLD", 700, 300), App("LOCK", 237, 0), Two("OLD", "P"), Del("OLD"), Del("X"), Del("REL"), Del("GSEQ"), Del("VLIR"),
    Del("BORD"), Ren("OLD", "X"), Ren("X", "LONGER NAME"), Ren("VLIR", "V"), Label, Init, Del("FILL"), Del("F5"),
];

struct Run {
    d: Dk,
    spec: Spec,
    /// (number of block writes so far, what holds until then)
    marks: Vec<(usize, Spec)>,
    stamp: u32,
}
impl Run {
    fn mark(&mut self, t: &mut Armed) {
        let n = t.sync();
        self.marks.push((n, self.spec.clone()));
    }
    fn create(&mut self, n: &str, t: &mut Armed) -> Option<cbm::disk::file::File> {
        if self.spec.exact.contains_key(n.as_bytes()) {
            return None;
        }
        self.spec.maybe = Some(Maybe::Create(n.as_bytes().to_vec()));
        let f = self.d.create_file(&pet(n.as_bytes()), ftype(2), LScheme::Linear);
        self.mark(t);
        self.spec.maybe = None;
        let f = f.ok()?;
        self.spec.exact.insert(n.as_bytes().to_vec(), vec![vec![]]);
        Some(f)
    }
    fn begin(&mut self, f: &cbm::disk::file::File, n: &str) -> Option<Box<dyn Write>> {
        let w = f.writer().ok()?;
        let x = self.spec.exact.remove(n.as_bytes()).unwrap();
        self.spec.open.insert(n.as_bytes().to_vec(), (x[0].clone(), x[0].clone()));
        Some(w)
    }
    fn write(&mut self, w: &mut Box<dyn Write>, n: &str, len: usize, acc: &mut Vec<u8>, flush: bool, t: &mut Armed) -> R {
        self.stamp += 1;
        let data = content(self.stamp, len);
        self.spec.open.get_mut(n.as_bytes()).unwrap().1 = [&acc[..], &data[..]].concat();
        let (m, _) = push(&mut **w, &data);
        acc.extend_from_slice(&data[..m]);
        if flush {
            k(w.flush())?;
            self.mark(t);
            self.spec.open.insert(n.as_bytes().to_vec(), (acc.clone(), acc.clone()));
        }
        Ok(())
    }
    fn end(&mut self, w: Box<dyn Write>, n: &str, acc: Vec<u8>, t: &mut Armed) {
        drop(w);
        self.mark(t);
        self.spec.open.remove(n.as_bytes());
        self.spec.exact.insert(n.as_bytes().to_vec(), vec![acc]);
    }
    fn step(&mut self, op: COp, t: &mut Armed) -> Result<bool, String> {
        match op {
            Create(n) => return Ok(self.create(n, t).is_some()),
            Put(n, len, cut) | App(n, len, cut) => {
                let f = match op {
                    Put(..) => match self.create(n, t) {
                        Some(f) => f,
                        None => return Ok(false),
                    },
                    _ => match self.d.open_file(&pet(n.as_bytes())) {
                        Ok(f) => f,
                        Err(_) => return Ok(false),
                    },
                };
                let mut acc = self.spec.exact[n.as_bytes()][0].clone();
                let mut w = match self.begin(&f, n) {
                    Some(w) => w,
                    None => return Ok(false),
                };
                if cut > 0 {
                    self.write(&mut w, n, cut, &mut acc, true, t)?;
                }
                self.write(&mut w, n, len - cut, &mut acc, false, t)?;
                self.end(w, n, acc, t);
            }
            Two(a, b) => {
                let fa = match self.d.open_file(&pet(a.as_bytes())) {
                    Ok(f) => f,
                    Err(_) => return Ok(false),
                };
                let fb = match self.create(b, t) {
                    Some(f) => f,
                    None => return Ok(false),
                };
                let mut xa = self.spec.exact[a.as_bytes()][0].clone();
                let mut xb = vec![];
                let mut wa = self.begin(&fa, a).ok_or("no writer")?;
                let mut wb = self.begin(&fb, b).ok_or("no writer")?;
                for i in 0..3 {
                    self.write(&mut wa, a, 200, &mut xa, i == 1, t)?;
                    self.write(&mut wb, b, 200, &mut xb, i == 0, t)?;
                }
                self.end(wb, b, xb, t);
                self.end(wa, a, xa, t);
            }
            Del(n) => {
                let x = match self.spec.exact.get(n.as_bytes()) {
                    Some(x) => x.clone(),
                    None => return Ok(false),
                };
                let mut f = k(self.d.open_file(&pet(n.as_bytes())))?;
                self.spec.exact.remove(n.as_bytes());
                self.spec.maybe = Some(Maybe::Delete(n.as_bytes().to_vec(), x.clone()));
                let r = f.delete();
                self.mark(t);
                self.spec.maybe = None;
                if r.is_err() {
                    self.spec.exact.insert(n.as_bytes().to_vec(), x);
                }
            }
            Ren(a, b) => {
                let x = match self.spec.exact.get(a.as_bytes()) {
                    Some(x) if !self.spec.exact.contains_key(b.as_bytes()) => x.clone(),
                    _ => return Ok(false),
                };
                self.spec.exact.remove(a.as_bytes());
                self.spec.maybe = Some(Maybe::Rename(a.as_bytes().to_vec(), b.as_bytes().to_vec(), x.clone()));
                let r = self.d.rename(&pet(a.as_bytes()), &pet(b.as_bytes()));
                self.mark(t);
                self.spec.maybe = None;
                self.spec.exact.insert(if r.is_ok() { b } else { a }.as_bytes().to_vec(), x);
            }
            Label => {
                k(self.d.header_mut())?.disk_name = pet(b"NEW LABEL");
                k(self.d.flush_header())?;
                self.mark(t);
            }
            Init => {
                self.d.initialize();
                self.mark(t);
            }
        }
        Ok(true)
    }
}
fn c06_roots(t: Tier) -> Vec<(&'static str, usize)> {
    t.pick(
        vec![("mixed@d64", 2), ("geos@d71", 2), ("geos@d81", 2), ("geos@d64", 2), ("dir8@d64", 2), ("free2@d64", 2), ("recycled@d64", 2), ("full@d64", 2), ("dir8@d81", 2), ("dir7@d71", 2), ("mixed@d64x40", 2), ("mixed@d64e", 1)],
        vec![("mixed@d64", 3), ("geos@d71", 2), ("geos@d81", 2), ("geos@d64", 2), ("dir8@d64", 3), ("free3@d64", 3), ("free1@d71", 2), ("free2@d81", 2), ("recycled@d64", 2), ("full@d64", 2), ("dir8@d81", 2), ("dir8@d71", 2), ("dirlast8@d64", 2), ("frag@d64", 2), ("mixed@d64x40", 2), ("mixed@d64e", 2), ("mixed@d71e", 2), ("mixed@d81e", 2)],
    )
}
fn c06_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (r, depth) in c06_roots(t) {
        for i in 0..OPS.len() {
            v.push(format!("{}/{}/{}", r, depth, i));
        }
    }
    v
}
fn c06_bound(t: Tier) -> String {
    format!("all sequences of up to n of {} operations (create, write and append with intermediate flushes, two writers in turn, delete of every file structure, rename, relabel, re-initialise) on {:?}; the image after every block write of the last operation (stores to one 256-byte block in a row are one write) is reopened", OPS.len(), c06_roots(t))
}
fn c06(case: &str, _t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let root = roots::root(p[0]);
    let g = root.g;
    let depth: usize = p[1].parse().unwrap();
    let first: usize = p[2].parse().unwrap();
    let spec0 = Spec::of(&root);
    let s = Scratch::new("c06");
    let path = s.path(&format!("i.{}", g.ext()));
    let mut stack: Vec<Vec<usize>> = vec![vec![first]];
    while let Some(seq) = stack.pop() {
        let ops = || seq.iter().map(|i| format!("{:?}", OPS[*i])).collect::<Vec<_>>().join("; ");
        cov.tick(|| format!("{}: {}", p[0], ops()));
        let _ = std::fs::remove_file(&path);
        std::fs::write(&path, &root.d).expect("scratch file");
        let d = k(cbm::disk::open(&path, true))?;
        let mut run = Run { d, spec: spec0.clone(), marks: vec![], stamp: 40 };
        let mut t = Armed::new(&path, root.d.len());
        let mut from = 0;
        let mut image = vec![];
        let mut did = true;
        for (j, i) in seq.iter().enumerate() {
            if j + 1 == seq.len() {
                from = t.sync();
                run.marks.clear();
                image = t.0.image().to_vec();
            }
            cov.step();
            did = run.step(OPS[*i], &mut t).map_err(|e| format!("[{} | {}] {}", p[0], ops(), e))?;
        }
        t.sync();
        let log = std::mem::take(&mut t.0.log);
        drop(t);
        let last = std::fs::read(&path).expect("scratch file");
        drop(run.d);
        if !did {
            continue; // the last operation does not apply here
        }
        cov.outcome(&format!("{} block writes", (log.len() - from).min(30)));
        // every prefix of the block writes of the last operation
        let mut r = Raw { g, d: image };
        let n = log.len();
        for (i, ev) in log[from..].iter().enumerate() {
            for (b, c) in ev {
                r.d[b * 256..b * 256 + c.len()].copy_from_slice(c);
            }
            let done = from + i + 1;
            let spec = match run.marks.iter().find(|(m, _)| *m >= done) {
                Some((_, s)) => s,
                None => return Err(format!("[{} | {}] block writes after the operation ended", p[0], ops())),
            };
            cov.state(fp(&[&r.d]));
            cov.alive();
            cov.step();
            spec.judge(&r, seq.len() < 3).map_err(|e| format!("[{} | {}] stopped after block write {} of {} (block {:?}): {}", p[0], ops(), i + 1, n - from, ev.iter().map(|(b, _)| g.blocks().get(*b).copied()).collect::<Vec<_>>(), e))?;
        }
        if r.d != last {
            return Err(format!("harness: [{} | {}] the recorded block writes do not add up to the image", p[0], ops()));
        }
        if seq.len() < depth {
            for i in (0..OPS.len()).rev() {
                let mut q = seq.clone();
                q.push(i);
                stack.push(q);
            }
        }
    }
    Ok(())
}

pub static C06: Prop = Prop {
    id: "C06", level: "fault_enumeration",
    rule: "the library runs on a real image file whose mapping is write-protected so that its block writes are recorded in order; every prefix is reopened and must be readable, with all other files intact, flushed data present and followed by nothing but bytes written since, no used block free or shared, and the operated file in its old or new state",
    bound: c06_bound, cases: c06_cases, run: c06,
};
pub static PROPS: &[&Prop] = &[&C06];
