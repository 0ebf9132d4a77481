//! C08 damaged images, C09 the consistency check, C21 failing operations leave no trace.
use crate::engine::*;
use crate::glue::*;
use crate::hist;
use crate::raw::*;
use crate::roots;
use crate::ts;
use crate::world::{first_diff, lossy};
use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use cbm::disk::ValidationError as VE;
use std::collections::BTreeMap;
use std::io::Write;

// ------------------------------------------------------------------ what there is to damage
/// Absolute offsets of the bytes of one structure of the image.
pub fn structure(r: &Raw, what: &str) -> Vec<usize> {
    let g = r.g;
    let block = |l: Loc| {
        let o = g.off(l.0, l.1).unwrap();
        (o..o + 256).collect::<Vec<usize>>()
    };
    let link = |l: Loc| {
        let o = g.off(l.0, l.1).unwrap();
        vec![o, o + 1]
    };
    let es = r.entries().unwrap();
    let mut v: Vec<usize> = vec![];
    match what {
        "header" => v = block(g.header()),
        "bam" => {
            for l in g.bam_sectors() {
                if l != g.header() {
                    v.extend(block(l));
                }
            }
        }
        "dir" => {
            for l in r.dir_chain().unwrap() {
                v.extend(block(l));
            }
        }
        "border" => {
            if let Some(b) = r.border() {
                v = block(b);
            }
        }
        "links" => {
            for e in &es {
                for l in r.file_blocks(e).unwrap() {
                    v.extend(link(l));
                }
            }
        }
        "side" => {
            for e in es.iter().filter(|e| e.scheme() == Scheme::Rel) {
                for l in r.side_sectors(e.extra()).unwrap().0 {
                    v.extend(block(l));
                }
            }
        }
        "index" => {
            for e in es.iter().filter(|e| e.scheme() == Scheme::Vlir) {
                v.extend(block(e.start()));
            }
        }
        "info" => {
            for e in es.iter().filter(|e| matches!(e.scheme(), Scheme::Vlir | Scheme::Seq) && e.extra() != (0, 0)) {
                v.extend(block(e.extra()));
            }
        }
        _ => panic!("structure {}", what),
    }
    v.sort();
    v.dedup();
    v
}
const STRUCTS: &[&str] = &["header", "bam", "dir", "border", "links", "side", "index", "info"];

pub fn values(orig: u8, level: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match level {
        0 => vec![0, 1, 18, 40, 0xff, orig ^ 0x80],
        1 => vec![0, 1, 2, 17, 18, 36, 40, 53, 81, 0x80, 0x81, 0x84, 0xa0, 0xfe, 0xff, orig ^ 1, orig ^ 0x80, orig.wrapping_add(1), orig.wrapping_sub(1), orig ^ 0x10],
        _ => (0..=255).collect(),
    };
    v.sort();
    v.dedup();
    v.retain(|x| *x != orig);
    v
}

// ------------------------------------------------------------------ every operation
struct Sink(usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        if self.0 > 64 << 20 {
            panic!("an unbounded amount of output is written");
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// All reading operations; loops must come out as errors.
fn inspect(r: &Raw, whole_dump: bool, cov: &mut Cov) -> R {
    let mut d = load(r);
    let _ = view(&*d);
    cov.step();
    let _ = format!("{:?} {}", &*d, &*d);
    if whole_dump {
        let _ = d.dump(&mut Sink(0));
    }
    let dir = d.directory();
    match r.dir_chain() {
        Err(Bad::Loop) if d.header().is_ok() => {
            if dir.is_ok() {
                return Err("the directory chain has a loop, but listing it succeeds".into());
            }
            if d.validate().is_ok() {
                return Err("the directory chain has a loop, but the consistency check succeeds".into());
            }
        }
        _ => {}
    }
    // at most what fits is ever listed, even when going on after an error
    let mut n = 0;
    for _ in d.iter() {
        n += 1;
        if n > r.g.nblocks() * 8 + 16 {
            return Err(format!("the directory iterator does not end ({} items)", n));
        }
    }
    let es = match dir {
        Ok(es) => es,
        Err(e) => {
            cov.outcome(&format!("directory {}", kind(&e)));
            return Ok(());
        }
    };
    for e in &es {
        let f = match d.open_file_from_entry(e) {
            Ok(f) => f,
            Err(e) => {
                cov.outcome(&format!("open {}", kind(&e)));
                continue;
            }
        };
        cov.step();
        for v in 0..3 {
            let _ = f.details(&mut Sink(0), v);
        }
        let _ = f.dump(&mut Sink(0));
        let occ = f.occupied_sectors();
        let _ = f.name();
        if let Ok(n) = f.record_count() {
            for i in [0, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX] {
                let _ = f.record(i);
            }
        }
        let chain = r.chain((e.first_sector.0, e.first_sector.1));
        if let Ok(mut rd) = f.reader() {
            let x = read_all(&mut *rd);
            // after the end or an error nothing more may come
            let mut b = [0u8; 16];
            for _ in 0..3 {
                if let Ok(n) = std::io::Read::read(&mut *rd, &mut b) {
                    if n > 0 {
                        return Err(format!("file {:?} delivers more after its end or an error", lossy(e.filename.as_bytes())));
                    }
                }
            }
            if chain == Err(Bad::Loop) {
                if x.is_ok() {
                    return Err(format!("file {:?} has a looping chain, but reads without an error", lossy(e.filename.as_bytes())));
                }
                if occ.is_ok() {
                    return Err(format!("file {:?} has a looping chain, but its blocks are reported without an error", lossy(e.filename.as_bytes())));
                }
            }
            cov.outcome(&format!("read {}", x.err().map(|e| kind(&e)).unwrap_or("ok".into())));
        }
        if let Ok(w) = f.writer() {
            // opening a writer alone; dropping it rewrites its last block as it is
            if chain == Err(Bad::Loop) {
                return Err(format!("file {:?} has a looping chain, but can be appended to", lossy(e.filename.as_bytes())));
            }
            drop(w);
        }
        if let Ok(Some(i)) = f.geos_info() {
            let _ = format!("{} {}", i, i.icon.to_unicode());
        }
        if let File::GEOSSequential(ref x) | File::GEOSVLIR(ref x) = f {
            if let Ok(mut rd) = x.reader() {
                let _ = read_all(&mut rd);
            }
        }
    }
    Ok(())
}

/// One changing operation; Ok(None): nothing to judge, Ok(Some(..)): it failed without accepting data.
fn mutate(d: &mut Dk, op: &str, name: &[u8]) -> Option<String> {
    match op {
        "create" | "create9" => {
            let n = if op == "create" { 1 } else { 9 };
            for i in 0..n {
                let nm = format!("NEW{}", i);
                match d.create_file(&pet(nm.as_bytes()), ftype(2), LScheme::Linear) {
                    Err(e) => return if i == 0 { Some(kind(&e)) } else { None },
                    Ok(f) => match f.writer() {
                        Err(_) => return None,
                        Ok(mut w) => {
                            let _ = push(&mut *w, &content(1, 800));
                            let _ = w.flush();
                        }
                    },
                }
            }
            let _ = d.open_file(&pet(b"NEW0")).and_then(|mut f| f.delete());
            None
        }
        "append" => match d.open_file(&pet(name)).and_then(|f| f.writer()) {
            Err(e) => Some(kind(&e)),
            Ok(mut w) => {
                let (n, e) = push(&mut *w, &content(2, 600));
                let _ = w.flush();
                drop(w);
                if n == 0 { e } else { None }
            }
        },
        "delete" => d.open_file(&pet(name)).and_then(|mut f| f.delete()).err().map(|e| kind(&e)),
        "rename" => d.rename(&pet(name), &pet(b"RENAMED")).err().map(|e| kind(&e)),
        "format" => d.write_format(&pet(b"NEW"), &"ID".into()).err().map(|e| kind(&e)),
        "header" => d.flush_header().err().map(|e| kind(&e)),
        "slot" => {
            match d.next_free_directory_entry() {
                Ok(e) => {
                    let _ = d.write_directory_entry(&e);
                    None
                }
                Err(e) => Some(kind(&e)),
            }
        }
        _ => panic!("operation {}", op),
    }
}
const PER_FILE: &[&str] = &["append", "delete", "rename"];
const GLOBAL: &[&str] = &["create", "create9", "format", "header", "slot"];

/// Run all changing operations on (copies of) a damaged image.
fn mutate_all(r: &Raw, names: &[Vec<u8>], trace: bool, cov: &mut Cov) -> R {
    let before = if trace { view(&*load(r)) } else { vec![] };
    let mut run = |op: &str, name: &[u8]| -> R {
        let mut d = load(r);
        cov.step();
        let e = mutate(&mut d, op, name);
        if let Some(e) = &e {
            cov.outcome(&format!("{} {}", op, e));
        }
        if trace {
            if let Some(e) = e {
                if let Some(x) = diff_raw(r, &snap(&*d, r.g)) {
                    return Err(format!("{} {:?} fails with {} but changed the image: {}", op, lossy(name), e, x));
                }
                diff_views(&before, &view(&*d), "before the failed operation", "after it").map_err(|x| format!("{} {:?} fails with {}, but the library reports something else afterwards: {}", op, lossy(name), e, x))?;
            }
        } else {
            // whatever state it is in now, it must still be readable without a crash
            let _ = d.directory();
            let _ = d.blocks_free();
        }
        Ok(())
    };
    for op in GLOBAL {
        run(op, b"")?;
    }
    for n in names {
        for op in PER_FILE {
            run(op, n)?;
        }
    }
    Ok(())
}

fn names_of(r: &Raw) -> Vec<Vec<u8>> {
    r.entries().unwrap().iter().map(|e| e.name()).collect()
}
fn base(g: Geo) -> Raw {
    let mut r = roots::geos(g);
    if g.tracks == 40 {
        // a file which lies partly beyond the tracks the allocation map covers
        let b = r.pick(1);
        r.add_linear(b"HI", 0x82, &[b[0], (36, 0), (40, 16)], &content(33, 700));
    }
    // a sixteen-character name and a closed DEL entry
    let b = r.pick(2);
    r.add_linear(b"ABCDEFGHIJKLMNOP", 0x81, &b[..1], &content(34, 254));
    r.add_linear(b"DELF", 0x80, &b[1..], &content(35, 1));
    r
}
fn show_at(g: Geo, o: usize) -> String {
    let l = g.blocks()[o / 256];
    format!("{:?}+{:#04x}", l, o % 256)
}

// ------------------------------------------------------------------ C08
fn c08_geos(t: Tier) -> Vec<(&'static str, usize)> {
    t.pick(vec![("d64", 1), ("d71", 0), ("d81", 0), ("d64x40", 0)], vec![("d64", 2), ("d71", 2), ("d81", 2), ("d64x40", 2), ("d71e", 1), ("d81e", 1)])
}
fn c08_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (g, level) in c08_geos(t) {
        let r = base(Geo::by_name(g));
        for s in STRUCTS {
            let n = structure(&r, s).len();
            let parts = (n / 24).max(1);
            for p in 0..parts {
                v.push(format!("byte/{}/{}/{}/{}/{}", g, s, level, p, parts));
            }
        }
    }
    for g in ["d64", "d64x40", "d71", "d81"] {
        for t in 1..=Geo::by_name(g).tracks {
            v.push(format!("loop/{}/{}", g, t));
        }
        for x in LOOPS {
            v.push(format!("longloop/{}/{}", g, x));
        }
    }
    for g in ["d64", "d64x40", "d71", "d81"] {
        for i in 0..16 {
            v.push(format!("fill/{}/{}", g, i));
        }
    }
    for g in t.pick(vec!["d64"], vec!["d64", "d64x40", "d71", "d81"]) {
        for i in 0..32 {
            v.push(format!("entry/{}/{}", g, i));
        }
    }
    for g in t.pick(vec!["d64"], vec!["d64", "d71", "d81"]) {
        for i in 0..16 {
            v.push(format!("links/{}/{}", g, i));
            v.push(format!("dirlinks/{}/{}", g, i));
        }
    }
    v
}
fn c08_bound(t: Tier) -> String {
    format!(
        "images with linear, relative, GEOS sequential, VLIR and border files; every byte of header, allocation map, directory, border, side sectors, index and info blocks and every link byte x ({}); \
         images filled with each byte value; one entry with every combination of 13 types, 6 start and 6 extra pointers, 4 structures or record lengths, 4 GEOS types and 2 sizes; every pair of blocks of the image's files with every pair of link targets out of {}; directory chains of up to 4 blocks with every link target; loops of 1, 2, 3 and 9 blocks on every track of 4 geometries behind lead-ins of 0, 1 and 3 blocks in linear, DEL, GEOS sequential, VLIR record, side sector, directory and border chains; loops of 12 lengths from 20 to all blocks behind lead-ins of up to 300 blocks; each followed by {} operations (inspection of everything, 5 changes, 3 changes per file)",
        c08_geos(t).iter().map(|(g, l)| format!("{}: {} values", g, ["6", "20", "256"][*l])).collect::<Vec<_>>().join(", "),
        t.pick(5, 9), 5 + 3 * 9
    )
}
fn damage_and_run(r: &Raw, names: &[Vec<u8>], edits: &[(usize, u8)], dump: bool, cov: &mut Cov) -> R {
    let mut x = r.clone();
    for (o, v) in edits {
        x.d[*o] = *v;
    }
    let desc = || format!("{} with {}", r.g.name(), edits.iter().map(|(o, v)| format!("{}={:#04x}", show_at(r.g, *o), v)).collect::<Vec<_>>().join(" "));
    cov.tick(desc);
    cov.state(fp(&[&x.d]));
    inspect(&x, dump, cov).map_err(|e| format!("{}: {}", desc(), e))?;
    mutate_all(&x, names, false, cov).map_err(|e| format!("{}: {}", desc(), e))
}
fn link_targets(r: &Raw, a: Loc, b: Loc, n: usize) -> Vec<Loc> {
    let g = r.g;
    let mut v = vec![a, b, (0, 0), (g.tracks + 1, 0), g.first_dir(), (0, 255), g.header(), (1, g.spt(1)), (255, 255)];
    v.truncate(n);
    v
}
/// Chains which run into a loop on this track: every structure, several lead-ins and loop lengths.
fn c08_loops(g: Geo, t: u8, cov: &mut Cov) -> R {
    let all = g.blocks();
    let here: Vec<Loc> = all.iter().copied().filter(|l| l.0 == t && *l != g.header() && *l != g.first_dir() && !g.bam_sectors().contains(l)).collect();
    let away: Vec<Loc> = all.iter().copied().filter(|l| l.0 != t && l.0 != g.dir_track() && l.0 != g.reserved_track()).step_by(7).collect();
    for kind_ in LOOPS {
        for lead in [0usize, 1, 3] {
            for len in [1usize, 2, 3, 9] {
                for spread in [false, true] {
                    if here.len() < len + 4 || spread && len == 1 {
                        continue;
                    }
                    // lead-in elsewhere, loop here (every second block elsewhere when spread)
                    let mut chain: Vec<Loc> = away[10..10 + lead].to_vec();
                    for i in 0..len {
                        chain.push(if spread && i % 2 == 1 { away[40 + i] } else { here[i] });
                    }
                    c08_loop(g, kind_, &chain, lead, away[60], away[61], cov)?;
                }
            }
        }
    }
    Ok(())
}
/// Long loops: up to all blocks of the disk.
fn c08_longloops(g: Geo, kind_: &str, cov: &mut Cov) -> R {
    let all: Vec<Loc> = g.blocks().iter().copied().filter(|l| l.0 != g.dir_track() && l.0 != g.reserved_track()).collect();
    let (e1, e2) = (all[5], all[77]);
    let mut all: Vec<Loc> = all.into_iter().filter(|l| *l != e1 && *l != e2).collect();
    // not in order of their numbers
    let half = all.split_off(all.len() / 2);
    let all: Vec<Loc> = half.iter().rev().copied().chain(all).collect();
    for lead in [0usize, 1, 130, 300] {
        for len in [20usize, 64, 127, 128, 129, 254, 255, 256, 257, 664, 1000, all.len() - lead] {
            if lead + len <= all.len() {
                c08_loop(g, kind_, &all[..lead + len], lead, e1, e2, cov)?;
            }
        }
    }
    Ok(())
}
const LOOPS: [&str; 8] = ["linear", "del", "seq", "vlir", "side", "relinfo", "dir", "border"];
fn c08_loop(g: Geo, kind_: &str, chain: &[Loc], lead: usize, e1: Loc, e2: Loc, cov: &mut Cov) -> R {
    let mut r = roots::fresh(g);
    for (i, l) in chain.iter().enumerate() {
        let n = if i + 1 < chain.len() { chain[i + 1] } else { chain[lead] };
        let b = r.sec_mut(*l);
        b.copy_from_slice(&content(i as u32 + 3, 256));
        b[0] = n.0;
        b[1] = n.1;
    }
        let n = chain.len() as u16;
    match kind_ {
        "linear" | "del" => {
            r.put_entry(&Raw::entry_bytes(b"LOOP", if kind_ == "del" { 0x80 } else { 0x82 }, chain[0], &[0; 9], n));
        }
        "seq" => {
            r.put_info(e1, 3);
            let x = Raw::geos_extra(Some(e1), false, 4);
            r.put_entry(&Raw::entry_bytes(b"LOOP", 0x83, chain[0], &x, n + 1));
        }
        "vlir" => {
            r.put_info(e1, 3);
            let x = Raw::geos_extra(Some(e1), true, 6);
            let b = r.sec_mut(e2);
            b.fill(0);
            b[1] = 0xff;
            b[2] = chain[0].0;
            b[3] = chain[0].1;
            r.put_entry(&Raw::entry_bytes(b"LOOP", 0x83, e2, &x, n + 2));
        }
        "side" | "relinfo" => {
            // side sectors which list themselves properly, as far as there is room
            r.sec_mut(e1).copy_from_slice(&content(1, 256));
            r.sec_mut(e1)[..2].copy_from_slice(&[0, 255]);
            for (i, l) in chain.iter().enumerate() {
                let list: Vec<u8> = chain.iter().take(6).flat_map(|l| [l.0, l.1]).collect();
                let b = r.sec_mut(*l);
                b[2..].fill(0);
                b[2] = i as u8;
                b[3] = 254;
                b[4..4 + list.len()].copy_from_slice(&list);
                b[16] = e1.0;
                b[17] = e1.1;
            }
            let start = if kind_ == "side" { e1 } else { chain[0] };
            r.put_entry(&Raw::entry_bytes(b"LOOP", 0x84, start, &[chain[0].0, chain[0].1, 254, 0, 0, 0, 0, 0, 0], n + 1));
        }
        "dir" => {
            for l in chain {
                let b = r.sec_mut(*l);
                b[2..].fill(0);
            }
            let f = g.first_dir();
            let b = r.sec_mut(f);
            b[0] = chain[0].0;
            b[1] = chain[0].1;
        }
        _ => {
            for l in chain {
                let b = r.sec_mut(*l);
                b[2..].fill(0);
            }
            let h = r.g.header();
            let b = r.sec_mut(h);
            b[0xAB] = chain[0].0;
            b[0xAC] = chain[0].1;
            b[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
        }
    }
    let desc = format!("{}: {} with a chain of {} blocks leading into a loop of {} ({:?} ...)", g.name(), kind_, lead, chain.len() - lead, &chain[lead..(lead + 9).min(chain.len())]);
    cov.tick(|| desc.clone());
    cov.state(fp(&[&r.d]));
    inspect(&r, false, cov).map_err(|e| format!("{}: {}", desc, e))?;
    mutate_all(&r, &[b"LOOP".to_vec()], false, cov).map_err(|e| format!("{}: {}", desc, e))?;
    if matches!(kind_, "dir" | "border") {
        return Ok(()); // judged by inspect
    }
    let d = load(&r);
    let mut f = match d.open_file(&pet(b"LOOP")) {
        Ok(f) => f,
        Err(e) if kind(&e) == "ChainLoop" => return Ok(()),
        Err(e) => return Err(format!("{}: opening gives {}", desc, kind(&e))),
    };
    let mut fails: Vec<(&str, bool)> = vec![("listing its blocks", f.occupied_sectors().is_err())];
    if kind_ != "side" && kind_ != "relinfo" {
        fails.push(("reading its record", f.record(0).is_err()));
    }
    match &f {
        File::GEOSSequential(x) | File::GEOSVLIR(x) => {
            let v = x.reader().and_then(|mut rd| read_all(&mut rd));
            fails.push(("converting it", v.is_err()));
        }
        _ => {}
    }
    fails.push(("deleting it", f.delete().is_err()));
    let listed = k(d.validate()).map_err(|e| format!("{}: the consistency check gives {}", desc, e))?;
    fails.push(("checking the disk", listed.iter().any(|v| matches!(v, VE::FileScanError(..)))));
    for (n, ok) in fails {
        if !ok {
            return Err(format!("{}: {} does not report the loop", desc, n));
        }
    }
    Ok(())
}
fn c08(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let g = Geo::by_name(p[1]);
    match p[0] {
        "byte" => {
            let r = base(g);
            let names = names_of(&r);
            let (level, part, parts): (usize, usize, usize) = (p[3].parse().unwrap(), p[4].parse().unwrap(), p[5].parse().unwrap());
            for (i, o) in structure(&r, p[2]).into_iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                for (j, v) in values(r.d[o], level).into_iter().enumerate() {
                    damage_and_run(&r, &names, &[(o, v)], i < parts && j == 0, cov)?;
                }
            }
        }
        "fill" => {
            let i: usize = p[2].parse().unwrap();
            for v in (i * 16)..(i * 16 + 16) {
                for keep in [false, true] {
                    let mut x = base(g);
                    let names = names_of(&x);
                    for l in g.blocks() {
                        if !keep || (l != g.header() && !g.bam_sectors().contains(&l)) {
                            x.sec_mut(l).fill(v as u8);
                        }
                    }
                    cov.tick(|| format!("{} filled with {:#04x} (header kept: {})", g.name(), v, keep));
                    cov.state(fp(&[&x.d]));
                    inspect(&x, i == 0 && v % 16 == 0, cov).and_then(|()| mutate_all(&x, &names, false, cov)).map_err(|e| format!("{} filled with {:#04x} (header kept: {}): {}", g.name(), v, keep, e))?;
                }
            }
        }
        "entry" => {
            // one entry made of every combination of type, structure, pointers, record length and size
            let i: usize = p[2].parse().unwrap();
            let r = base(g);
            let es = r.entries().unwrap();
            let find = |n: &[u8]| es.iter().find(|e| e.name() == n).unwrap().clone();
            let (old, rel, vlir) = (find(b"OLD"), find(b"REL"), find(b"VLIR"));
            let o = g.off(old.loc.0, old.loc.1).unwrap() + old.idx * 32;
            let starts: Vec<Loc> = vec![old.start(), rel.start(), vlir.start(), (0, 0), (g.tracks + 1, 0), g.header()];
            let extras: Vec<Loc> = vec![(0, 0), rel.extra(), vlir.extra(), old.start(), (1, g.spt(1)), (0, 7)];
            let names = vec![b"OLD".to_vec()];
            let mut n = 0;
            for attr in [0x80u8, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0xc4, 0x02, 0x04, 0x0f, 0xff, 0x44] {
                for start in &starts {
                    for extra in &extras {
                        for structure in [0u8, 1, 2, 254] {
                            for gtype in [0u8, 1, 14, 255] {
                                n += 1;
                                if n % 32 != i {
                                    continue;
                                }
                                for size in [(0u8, 0u8), (255, 255)] {
                                    damage_and_run(&r, &names, &[(o + 2, attr), (o + 3, start.0), (o + 4, start.1), (o + 0x15, extra.0), (o + 0x16, extra.1), (o + 0x17, structure), (o + 0x18, gtype), (o + 0x1e, size.0), (o + 0x1f, size.1)], false, cov)?;
                                }
                            }
                        }
                    }
                }
            }
        }
        "links" => {
            let r = base(g);
            let names = names_of(&r);
            let i: usize = p[2].parse().unwrap();
            let mut bl: Vec<Loc> = vec![];
            for e in r.entries().unwrap() {
                bl.extend(r.file_blocks(&e).unwrap());
            }
            let mut n = 0;
            for (x, a) in bl.iter().enumerate() {
                for b in &bl[x + 1..] {
                    n += 1;
                    if n % 16 != i {
                        continue;
                    }
                    for ta in link_targets(&r, *a, *b, t.pick(5, 9)) {
                        for tb in link_targets(&r, *a, *b, t.pick(5, 9)) {
                            let (oa, ob) = (g.off(a.0, a.1).unwrap(), g.off(b.0, b.1).unwrap());
                            damage_and_run(&r, &names, &[(oa, ta.0), (oa + 1, ta.1), (ob, tb.0), (ob + 1, tb.1)], false, cov)?;
                        }
                    }
                }
            }
        }
        "loop" => return c08_loops(g, p[2].parse().unwrap(), cov),
        "longloop" => return c08_longloops(g, p[2], cov),
        _ => {
            // directory chains with every kind of link between their blocks
            let i: usize = p[2].parse().unwrap();
            let r = roots::dirfill(g, 4, 0);
            let names = vec![b"OLD".to_vec(), b"F9".to_vec()];
            let dir = r.dir_chain().unwrap();
            let mut n = 0;
            for a in &dir {
                let mut targets = dir.clone();
                targets.extend_from_slice(&[(0, 0), (0, 1), (0, 31), (0, 254), (0, 255), g.header(), (g.tracks + 1, 0), (g.dir_track(), g.spt(g.dir_track())), (1, 0), (255, 255)]);
                let mut j = 0;
                while j < targets.len() {
                    for (b, tb) in dir.iter().flat_map(|b| dir.iter().map(move |tb| (b, tb))) {
                        n += 1;
                        if n % 16 != i {
                            continue;
                        }
                        let (oa, ob) = (g.off(a.0, a.1).unwrap(), g.off(b.0, b.1).unwrap());
                        damage_and_run(&r, &names, &[(ob, tb.0), (ob + 1, tb.1), (oa, targets[j].0), (oa + 1, targets[j].1)], false, cov)?;
                    }
                    j += 1;
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
/// What the consistency check has to report, computed from the raw image.
fn expected(r: &Raw) -> Result<Vec<String>, Bad> {
    let g = r.g;
    let dos = "CBM DOS".to_string();
    let mut owner: BTreeMap<Loc, String> = BTreeMap::new();
    let sys = g.system();
    for l in sys.iter().copied().chain(r.dir_chain()?).chain(r.border()) {
        owner.insert(l, dos.clone());
    }
    let mut out = vec![];
    for e in r.entries()? {
        let name = pet(&e.name()).to_string();
        let blocks = match scan(r, &e) {
            Err(b) => {
                out.push(match e.scheme() {
                    Scheme::Linear => format!("scan {} {}", name, bad(&b)),
                    _ => format!("scan {}", name),
                });
                continue;
            }
            Ok(b) => b,
        };
        for l in blocks {
            match owner.get(&l) {
                Some(o) => out.push(format!("twice {:?} {} / {}", l, o, name)),
                None => {
                    owner.insert(l, name.clone());
                }
            }
        }
    }
    for t in 1..=g.dos_tracks() {
        for s in 0..g.spt(t) {
            let l = (t, s);
            match (r.is_free(t, s), owner.get(&l)) {
                (true, Some(_)) if sys.contains(&l) => out.push(format!("system {:?}", l)),
                (true, Some(o)) => out.push(format!("free {:?} {}", l, o)),
                (false, None) => out.push(format!("unused {:?}", l)),
                _ => {}
            }
        }
    }
    out.sort();
    Ok(out)
}
/// The blocks of a file, or why they cannot be found out.
fn scan(r: &Raw, e: &Ent) -> Result<Vec<Loc>, Bad> {
    if e.scheme() == Scheme::Rel {
        let (side, used) = r.chain(e.extra())?;
        if e.b[0x17] == 0 || side.len() > 6 {
            return Err(Bad::Structure);
        }
        for (i, l) in side.iter().enumerate() {
            let n = if i + 1 == side.len() { used } else { 256 };
            let listed: Vec<Loc> = r.sec(*l)[4..16].chunks(2).map(|c| (c[0], c[1])).filter(|l| l.0 != 0).collect();
            if n < 16 || n % 2 == 1 || listed != side {
                return Err(Bad::Structure);
            }
        }
        let (_, data) = r.side_sectors(e.extra())?;
        if let Some(last) = data.last() {
            let b = r.sec_opt(*last).ok_or(Bad::Location)?;
            if b[0] == 0 && b[1] == 0 {
                return Err(Bad::Link);
            }
            if b[0] != 0 || ((data.len() - 1) * 254 + b[1] as usize - 1) % e.b[0x17] as usize != 0 {
                return Err(Bad::Structure);
            }
        }
    }
    r.file_blocks(e)
}
fn bad(b: &Bad) -> &'static str {
    match b {
        Bad::Loop => "ChainLoop",
        Bad::Location => "InvalidLocation",
        Bad::Link => "InvalidChainLink",
        Bad::Structure => "InvalidRelativeFile",
    }
}
fn reported(d: &Dk, r: &Raw) -> Result<Vec<String>, String> {
    let l = k(d.validate())?;
    let kinds: BTreeMap<String, Scheme> = r.entries().map(|es| es.iter().map(|e| (pet(&e.name()).to_string(), e.scheme())).collect()).unwrap_or_default();
    let mut v: Vec<String> = l
        .iter()
        .map(|e| match e {
            VE::SystemSectorNotAllocated(l) => format!("system {:?}", (l.0, l.1)),
            VE::SectorMisallocated(l) => format!("unused {:?}", (l.0, l.1)),
            VE::SectorMisoccupied(l, n) => format!("free {:?} {}", (l.0, l.1), n),
            VE::SectorOveroccupied(l, a, b) => format!("twice {:?} {} / {}", (l.0, l.1), a, b),
            VE::FileScanError(e, n) => match kinds.get(&n.to_string()) {
                Some(Scheme::Linear) => format!("scan {} {:?}", n, e),
                _ => format!("scan {}", n),
            },
            VE::Unknown => "unknown".to_string(),
        })
        .collect();
    v.sort();
    Ok(v)
}
/// The messages name the block and the files concerned.
fn messages(d: &Dk) -> R {
    for e in k(d.validate())? {
        let t = e.to_string();
        let q = |n: &cbm::Petscii| format!("{:?}", n);
        let want = match &e {
            VE::SystemSectorNotAllocated(l) | VE::SectorMisallocated(l) => vec![format!("({},{})", l.0, l.1)],
            VE::SectorMisoccupied(l, n) => vec![format!("({},{})", l.0, l.1), q(n)],
            VE::SectorOveroccupied(l, a, b) => vec![format!("({},{})", l.0, l.1), q(a), q(b)],
            VE::FileScanError(x, n) => vec![q(n), x.to_string()],
            VE::Unknown => vec![],
        };
        for w in want {
            if !t.contains(&w) {
                return Err(format!("the message {:?} does not name {}", t, w));
            }
        }
    }
    Ok(())
}
fn c09_one(r: &Raw, what: &dyn Fn() -> String, cov: &mut Cov) -> R {
    cov.tick(what);
    cov.step();
    let d = load(r);
    let got = reported(&d, r);
    match (expected(r), &got) {
        (Err(b), Err(_)) => {
            cov.outcome(&format!("directory {:?}", b));
        }
        (Err(b), Ok(_)) => return Err(format!("{}: the directory cannot be followed ({:?}), but the consistency check succeeds", what(), b)),
        (Ok(_), Err(e)) => return Err(format!("{}: the consistency check fails with {}", what(), e)),
        (Ok(want), Ok(got)) => {
            cov.state(fp(&[want.join("\n").as_bytes()]));
            cov.outcome(&format!("{} reports", want.len().min(6)));
            messages(&d).map_err(|e| format!("{}: {}", what(), e))?;
            if want != *got {
                let miss: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
                let extra: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
                return Err(format!("{}: {} reports instead of {}; missing {:?}; wrong {:?}", what(), got.len(), want.len(), &miss[..miss.len().min(6)], &extra[..extra.len().min(6)]));
            }
        }
    }
    if let Some(x) = diff_raw(r, &snap(&*d, r.g)) {
        return Err(format!("{}: the consistency check changed the image: {}", what(), x));
    }
    Ok(())
}
fn c09_roots(t: Tier) -> Vec<&'static str> {
    t.pick(vec!["base@d64", "base@d64x40", "base@d71", "base@d81", "dirfull@d64"], vec!["base@d64", "base@d64x40", "base@d71", "base@d81", "dirfull@d64", "dirfull@d81", "frag@d71", "full@d64", "fresh@d64e"])
}
fn c09_root(n: &str) -> Raw {
    match n.strip_prefix("base@") {
        Some(g) => base(Geo::by_name(g)),
        None => roots::root(n),
    }
}
fn c09_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for r in c09_roots(t) {
        for w in ["flip", "pair", "track", "cross", "entry", "index"] {
            for i in 0..8 {
                v.push(format!("{}/{}/{}", w, r, i));
            }
        }
    }
    for g in ["huge@d64", "huge@d71", "huge@d81"] {
        for i in 0..8 {
            v.push(format!("flip/{}/{}", g, i));
        }
    }
    for g in [G64, G40, G71, G81] {
        for i in 0..8 {
            v.push(format!("twins/{}/{}", g.name(), i));
            v.push(format!("places/{}/{}", g.name(), i));
        }
    }
    v
}
/// Two more files, with equal or unequal names (also the name the check uses for the system), that
/// start at blocks of every role; GEOS border blocks in several places.
fn c09_twins(g: Geo, part: usize, t: Tier, cov: &mut Cov) -> R {
    let d = g.header().0;
    let top = if g.kind == Kind::D81 { 39 } else { 18 };
    let away = if g.kind == Kind::D81 { (39, 39) } else { (19, 0) };
    let names: [&[u8]; 3] = [b"TWIN", b"CBM DOS", b"OTHER"];
    let mut n = 0;
    for border in [None, Some(away), Some((d, top)), Some((d, top / 2))] {
        let mut r = roots::mixed(g);
        if let Some(b) = border {
            r.make_geos(b);
        }
        // a block on the directory track that is nobody's, and one that links to itself
        let lone = (d, top - 3);
        let spin = (d, top - 2);
        let off = (1, 3);
        for (l, to) in [(lone, (0, 17)), (spin, spin), (off, (0, 99))] {
            r.sec_mut(l)[0] = to.0;
            r.sec_mut(l)[1] = to.1;
            r.set_free(l.0, l.1, false);
        }
        let mut starts = vec![lone, spin, off, g.header(), (g.tracks + 1, 0), (0, 0), (1, g.spt(1))];
        starts.extend(r.border());
        starts.extend(r.dir_chain().unwrap());
        starts.extend(g.bam_sectors());
        for e in r.entries().unwrap() {
            let b = r.file_blocks(&e).unwrap();
            starts.push(b[0]);
            starts.push(b[b.len() - 1]);
        }
        let f = r.free_blocks();
        starts.push(f[0]);
        starts.push(f[f.len() - 1]);
        starts.sort();
        starts.dedup();
        for (i, a) in names.iter().enumerate() {
            for (j, b) in names.iter().enumerate() {
                if !t.thorough() && i != j && j != 1 && i != 1 {
                    continue;
                }
                for sa in &starts {
                    for sb in &starts {
                        n += 1;
                        if n % 8 != part {
                            continue;
                        }
                        let put = |x: &mut Raw, slot: usize, nm: &[u8], s: Loc| {
                            let e = Raw::entry_bytes(nm, 0x82, s, &[0; 9], 1);
                            match border {
                                Some(b) if slot < 8 => x.sec_mut(b)[slot * 32 + 2..slot * 32 + 32].copy_from_slice(&e[2..]),
                                _ => {
                                    x.put_entry(&e);
                                }
                            }
                        };
                        for slots in [[9, 9], [0, 5], [9, 7]] {
                            if slots[1] < 9 && (border.is_none() || !t.thorough() && border != Some(away)) {
                                continue;
                            }
                            let mut x = r.clone();
                            put(&mut x, slots[0], a, *sa);
                            put(&mut x, slots[1], b, *sb);
                            c09_one(&x, &|| format!("{} with border {:?}: {:?} at {:?} and {:?} at {:?} (slots {:?})", g.name(), border, lossy(a), sa, lossy(b), sb, slots), cov)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn c09_bound(t: Tier) -> String {
    format!(
        "images {:?} and 3 disks with files of the largest size: every single allocation bit flipped; every pair of bits out of {} chosen blocks of every role; every track marked all free and all used; every chain link, start, side-sector, index and info pointer set to each of the chosen blocks, to itself, to no block and to impossible blocks; two added files with equal, different and system-like names starting at every pair of blocks of every role, without and with a GEOS border block in three places; every part of files of every structure on the blocks of every zone edge and the outer sectors of every track, marked used and marked free",
        c09_roots(t), t.pick(36, 110)
    )
}
/// Blocks of every role: system, directory, border, each file's, free ones near and far.
fn roles(r: &Raw, n: usize) -> Vec<Loc> {
    let mut v = r.g.system();
    v.truncate(8);
    v.extend(r.dir_chain().unwrap());
    v.extend(r.border());
    for e in r.entries().unwrap().iter().take(12) {
        let b = r.file_blocks(e).unwrap();
        v.extend(b.iter().take(2));
        v.push(b[b.len() - 1]);
    }
    let f = r.free_blocks();
    for i in 0..8.min(f.len()) {
        v.push(f[i * (f.len() - 1) / 8.min(f.len())]);
    }
    v.retain(|l| l.0 <= r.g.dos_tracks());
    v.sort();
    v.dedup();
    if v.len() > n {
        let m = v.len();
        v = (0..n).map(|i| v[i * m / n]).collect();
    }
    v
}
fn flip(r: &mut Raw, l: Loc) {
    let f = r.is_free(l.0, l.1);
    r.set_free(l.0, l.1, !f);
}
fn c09(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    if p[0] == "twins" {
        return c09_twins(Geo::by_name(p[1]), p[2].parse().unwrap(), t, cov);
    }
    if p[0] == "places" {
        let g = Geo::by_name(p[1]);
        let me: usize = p[2].parse().unwrap();
        for (i, l) in crate::files::places(g).into_iter().enumerate().filter(|(i, _)| i % 8 == me) {
            let _ = i;
            for part in crate::files::PARTS {
                let mut x = crate::files::placed(g, part, l);
                c09_one(&x, &|| format!("{} {} on block {:?}", p[1], part, l), cov)?;
                flip(&mut x, l);
                c09_one(&x, &|| format!("{} {} on block {:?}, which is marked free", p[1], part, l), cov)?;
            }
        }
        return Ok(());
    }
    let r = c09_root(p[1]);
    let g = r.g;
    let part: usize = p[2].parse().unwrap();
    let mut n = 0;
    let mut mine = || {
        n += 1;
        n % 8 == part
    };
    match p[0] {
        "flip" => {
            if part == 0 {
                let p = r.problems();
                if p.is_empty() {
                    c09_one(&r, &|| format!("{} undamaged", case), cov)?;
                }
            }
            for t in 1..=g.dos_tracks() {
                for s in 0..g.spt(t) {
                    if mine() {
                        let mut x = r.clone();
                        flip(&mut x, (t, s));
                        c09_one(&x, &|| format!("{}: bit of ({},{}) flipped", p[1], t, s), cov)?;
                    }
                }
            }
        }
        "pair" => {
            let v = roles(&r, t.pick(36, 110));
            for (i, a) in v.iter().enumerate() {
                for b in &v[i + 1..] {
                    if mine() {
                        let mut x = r.clone();
                        flip(&mut x, *a);
                        flip(&mut x, *b);
                        c09_one(&x, &|| format!("{}: bits of {:?} and {:?} flipped", p[1], a, b), cov)?;
                    }
                }
            }
        }
        "track" => {
            for t in 1..=g.dos_tracks() {
                for how in 0..3 {
                    if mine() {
                        let mut x = r.clone();
                        for s in 0..g.spt(t) {
                            let v = match how {
                                0 => true,
                                1 => false,
                                _ => !x.is_free(t, s),
                            };
                            x.set_free(t, s, v);
                        }
                        if how == 2 {
                            // free counts play no part in it
                            let o = g.bam(t).0;
                            x.d[o] = x.d[o].wrapping_add(3);
                        }
                        c09_one(&x, &|| format!("{}: track {} changed ({})", p[1], t, ["all free", "all used", "inverted"][how]), cov)?;
                    }
                }
            }
        }
        "cross" => {
            // links of blocks (relative data blocks are located by the side sectors, not by links)
            let mut targets = roles(&r, t.pick(24, 80));
            targets.extend_from_slice(&[(0, 0), (0, 1), (0, 2), (0, 255), (g.tracks + 1, 0), (1, g.spt(1)), (g.dos_tracks(), 0), (255, 255), (0, 200)]);
            for e in r.entries().unwrap().iter().filter(|e| e.scheme() != Scheme::Rel).take(12) {
                let mut bl = r.file_blocks(e).unwrap();
                if matches!(e.scheme(), Scheme::Vlir | Scheme::Seq) {
                    bl.retain(|l| *l != e.extra());
                }
                bl.truncate(6);
                for b in bl {
                    for to in targets.iter().copied().chain([b]) {
                        if mine() {
                            let mut x = r.clone();
                            x.sec_mut(b)[0] = to.0;
                            x.sec_mut(b)[1] = to.1;
                            c09_one(&x, &|| format!("{}: link of {:?} ({:?}) set to {:?}", p[1], b, lossy(&e.name()), to), cov)?;
                        }
                    }
                }
            }
            for b in r.dir_chain().unwrap() {
                for to in targets.iter().copied().chain([b]) {
                    if mine() {
                        let mut x = r.clone();
                        x.sec_mut(b)[0] = to.0;
                        x.sec_mut(b)[1] = to.1;
                        if expected(&x).is_ok() && weird(&x) {
                            continue;
                        }
                        c09_one(&x, &|| format!("{}: link of directory block {:?} set to {:?}", p[1], b, to), cov)?;
                    }
                }
            }
        }
        "entry" => {
            let mut targets = roles(&r, t.pick(24, 80));
            targets.extend_from_slice(&[(0, 0), (0, 1), (g.tracks + 1, 0), (1, g.spt(1)), (255, 255)]);
            for e in r.entries().unwrap().iter().take(12) {
                for off in [3usize, 0x15] {
                    if off == 0x15 && e.scheme() == Scheme::Linear || off == 3 && e.scheme() == Scheme::Rel {
                        continue;
                    }
                    for to in &targets {
                        if mine() {
                            if off == 0x15 && e.scheme() != Scheme::Rel && *to != (0, 0) && r.sec_opt(*to).is_none() {
                                continue; // whether a bad info pointer is a scan error is left open
                            }
                            let mut x = r.clone();
                            let b = x.sec_mut(e.loc);
                            b[e.idx * 32 + off] = to.0;
                            b[e.idx * 32 + off + 1] = to.1;
                            if expected(&x).is_ok() && weird(&x) {
                                continue;
                            }
                            c09_one(&x, &|| format!("{}: pointer at {:#x} of entry {:?} set to {:?}", p[1], off, lossy(&e.name()), to), cov)?;
                        }
                    }
                }
                // scratched and retyped entries
                for attr in [0x00u8, 0x02, 0x80, 0x81, 0x82, 0x83, 0x85, 0x42] {
                    if mine() {
                        let mut x = r.clone();
                        x.sec_mut(e.loc)[e.idx * 32 + 2] = attr;
                        if attr & 15 == 4 || e.scheme() == Scheme::Rel && attr & 15 != 4 && attr & 0x8f != 0 && weird(&x) {
                            continue;
                        }
                        c09_one(&x, &|| format!("{}: attribute of entry {:?} set to {:#x}", p[1], lossy(&e.name()), attr), cov)?;
                    }
                }
            }
        }
        _ => {
            let targets = roles(&r, t.pick(24, 80));
            for e in r.entries().unwrap() {
                let spots: Vec<(Loc, usize)> = match e.scheme() {
                    Scheme::Vlir => (0..5).map(|i| (e.start(), 2 + 2 * i)).collect(),
                    Scheme::Rel => {
                        let s = r.side_sectors(e.extra()).unwrap().0[0];
                        (0..4).map(|i| (s, 16 + 2 * i)).chain([(s, 4), (s, 6), (s, 0)]).collect()
                    }
                    _ => continue,
                };
                for (b, o) in spots {
                    for to in targets.iter().copied().chain([(0u8, 0u8), (0, 255), b]) {
                        if mine() {
                            let mut x = r.clone();
                            x.sec_mut(b)[o] = to.0;
                            x.sec_mut(b)[o + 1] = to.1;
                            if e.scheme() == Scheme::Rel && (weird_rel(&x) || o >= 16 && to.0 == 0) {
                                continue;
                            }
                            c09_one(&x, &|| format!("{}: pointer {:?}+{:#x} of {:?} set to {:?}", p[1], b, o, lossy(&e.name()), to), cov)?;
                        }
                    }
                }
            }
        }
    }
    if cov.evaluations == 0 {
        cov.tick(|| "nothing in this part".into());
    }
    Ok(())
}
/// Entries made of arbitrary bytes: pointers of relative and GEOS files to impossible blocks are not
/// decided here (whether they are scan errors is left open).
fn weird(x: &Raw) -> bool {
    let known = ["OLD", "LOCK", "REL", "GSEQ", "VLIR", "BORD", "HI", "DELF", "ABCDEFGHIJKLMNOP", "FILL"];
    x.entries().map(|es| es.iter().any(|e| !known.contains(&&lossy(&e.name())[..]) && !e.name().starts_with(b"F"))).unwrap_or(false) || weird_rel(x)
}
fn weird_rel(x: &Raw) -> bool {
    x.entries()
        .map(|es| {
            es.iter().any(|e| match e.scheme() {
                Scheme::Rel => x.side_sectors(e.extra()).map(|(_, d)| d.iter().any(|l| x.sec_opt(*l).is_none())).unwrap_or(false),
                Scheme::Seq | Scheme::Vlir => e.extra() != (0, 0) && x.sec_opt(e.extra()).is_none(),
                _ => false,
            })
        })
        .unwrap_or(false)
}

// ------------------------------------------------------------------ C21
fn c21_cases(t: Tier) -> Vec<String> {
    let mut v: Vec<String> = hist::c21_hist_cases(t).into_iter().map(|c| format!("hist:{}", c)).collect();
    for g in ["d64", "d64x40", "d71", "d81"] {
        for s in ["links", "side", "index", "dir", "border"] {
            let n = t.pick(4, 16);
            for i in 0..n {
                v.push(format!("dmg:{}/{}/{}/{}", g, s, i, n));
            }
        }
        v.push(format!("api:{}", g));
    }
    v
}
fn c21_bound(t: Tier) -> String {
    format!("{}; every link, directory, side-sector and index byte x {} damage values x every changing operation (4 formats); every misuse of the block and entry calls", hist::c21_bound(t), t.pick("6-20", "20-256"))
}
fn c21(case: &str, t: Tier, cov: &mut Cov) -> R {
    if let Some(c) = case.strip_prefix("hist:") {
        return hist::c21_hist(c, cov);
    }
    if let Some(g) = case.strip_prefix("api:") {
        return c21_api(Geo::by_name(g), cov);
    }
    let p: Vec<&str> = case.strip_prefix("dmg:").unwrap().split('/').collect();
    let g = Geo::by_name(p[0]);
    let (part, parts): (usize, usize) = (p[2].parse().unwrap(), p[3].parse().unwrap());
    let r = base(g);
    let names = names_of(&r);
    let level = t.pick(if g.kind == Kind::D64 && p[1] == "links" { 1 } else { 0 }, if g.kind == Kind::D64 { 2 } else { 1 });
    for (i, o) in structure(&r, p[1]).into_iter().enumerate() {
        if i % parts != part {
            continue;
        }
        for v in values(r.d[o], level) {
            let mut x = r.clone();
            x.d[o] = v;
            let desc = || format!("{} with {}={:#04x}", g.name(), show_at(g, o), v);
            cov.tick(desc);
            cov.state(fp(&[&x.d]));
            mutate_all(&x, &names, true, cov).map_err(|e| format!("{}: {}", desc(), e))?;
        }
    }
    if cov.evaluations == 0 {
        cov.tick(|| "nothing in this part".into());
    }
    Ok(())
}
/// Calls that must be refused, on a healthy disk.
fn c21_api(g: Geo, cov: &mut Cov) -> R {
    let r = base(g);
    let d0 = load(&r);
    let before = view(&*d0);
    let mut bad: Vec<Loc> = vec![(0, 0), (0, 1), (g.tracks + 1, 0), (255, 255), (255, 0)];
    for t in 1..=g.tracks {
        for s in [g.spt(t), g.spt(t) + 1, 255] {
            bad.push((t, s));
        }
    }
    let ok = |d: &Dk, what: &str| -> R {
        if let Some(x) = diff_raw(&r, &snap(&**d, g)) {
            return Err(format!("{} {}: refused, but the image changed: {}", g.name(), what, x));
        }
        diff_views(&before, &view(&**d), "before", "after").map_err(|e| format!("{} {}: refused, but: {}", g.name(), what, e))
    };
    let mut d = load(&r);
    for l in bad {
        cov.tick(|| format!("{} block {:?}", g.name(), l));
        cov.step();
        let loc = ts!(d, l);
        if d.write_sector(loc, &[7u8; 256]).is_ok() || d.read_sector(loc).is_ok() {
            return Err(format!("{}: block {:?} is accepted", g.name(), l));
        }
        if l.0 > g.dos_tracks() || g.spt(l.0) <= l.1 {
            let b = k(d.bam())?;
            if b.borrow_mut().allocate(loc).is_ok() || b.borrow_mut().free(loc).is_ok() {
                return Err(format!("{}: allocation of block {:?} is accepted", g.name(), l));
            }
        }
        ok(&d, &format!("access to block {:?}", l))?;
    }
    for n in (0..=600).filter(|n| *n != 256) {
        cov.tick(|| format!("{} buffer of {} bytes", g.name(), n));
        cov.step();
        let loc = ts!(d, (1, 0));
        if d.write_sector(loc, &vec![7u8; n]).is_ok() {
            return Err(format!("{}: writing a block of {} bytes is accepted", g.name(), n));
        }
        if n % 50 == 5 {
            ok(&d, &format!("writing {} bytes to a block", n))?;
        }
    }
    ok(&d, "writing blocks of wrong sizes")?;
    for n in 17..=40 {
        cov.tick(|| format!("{} format with a name of {} bytes", g.name(), n));
        cov.step();
        if d.write_format(&pet(&vec![b'N'; n]), &"ID".into()).is_ok() {
            return Err(format!("{}: formatting with a name of {} bytes is accepted", g.name(), n));
        }
        ok(&d, "formatting with a long name")?;
    }
    // an entry that was never read from the disk
    let mut e = k(d.find_directory_entry(&pet(b"OLD")))?;
    e.position = None;
    cov.tick(|| "entry without a position".into());
    if d.write_directory_entry(&e).is_ok() {
        return Err("an entry without a position is written".into());
    }
    ok(&d, "writing an entry without a position")?;
    // structures that cannot be written or read linearly
    for n in [&b"REL"[..], b"VLIR", b"GSEQ", b"BORD"] {
        cov.tick(|| format!("writer for {:?}", lossy(n)));
        let f = k(d.open_file(&pet(n)))?;
        if f.writer().is_ok() {
            return Err(format!("{:?} can be written", lossy(n)));
        }
        if n != b"GSEQ" && f.reader().is_ok() {
            return Err(format!("{:?} can be read linearly", lossy(n)));
        }
        for i in [f.record_count().unwrap_or(0), usize::MAX] {
            if f.record(i).is_ok() {
                return Err(format!("{:?}: record {} exists", lossy(n), i));
            }
        }
        ok(&d, "opening a writer for a structured file")?;
    }
    // and afterwards everything still works, giving the same blocks as without the failures
    let mut a = load(&r);
    for x in [&mut a, &mut d] {
        let f = k(x.create_file(&pet(b"NEXT"), ftype(2), LScheme::Linear))?;
        let mut w = k(f.writer())?;
        let (n, e) = push(&mut *w, &content(3, 2000));
        if n != 2000 || e.is_some() {
            return Err(format!("writing fails: {:?}", e));
        }
    }
    if let Some(x) = diff_raw(&snap(&*a, g), &snap(&*d, g)) {
        return Err(format!("{}: after refused calls a new file is laid out differently: {}", g.name(), x));
    }
    let _ = first_diff;
    Ok(())
}

pub static C08: Prop = Prop {
    id: "C08", level: "fault_enumeration",
    rule: "every enumerated corruption of an image with files of every structure, followed by every public operation; no panic, abort, hang, endless stream or unbounded output, and loops found by the independent reader are errors",
    bound: c08_bound, cases: c08_cases, run: c08,
};
pub static C09: Prop = Prop {
    id: "C09", level: "model_checking",
    rule: "for every enumerated damage the list returned by validate() equals, as a multiset, the list computed from the raw image by an independent model, and the image is unchanged",
    bound: c09_bound, cases: c09_cases, run: c09,
};
pub static C21: Prop = Prop {
    id: "C21", level: "model_checking",
    rule: "whenever an operation of any explored history, of any damaged image or any misuse fails, the image bytes and everything reported are compared with those before it",
    bound: c21_bound, cases: c21_cases, run: c21,
};
pub static PROPS: &[&Prop] = &[&C08, &C09, &C21];
