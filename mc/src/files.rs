//! C15 relative files, C16 GEOS files, C18 GEOS info blocks and icons, C19 streaming.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use crate::ts;
use crate::world::{first_diff, lossy};
use cbm::disk::directory::FileAttributes;
use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use cbm::disk::geos::{GEOSFileStructure, GEOSFileType, GEOSInfo, GEOSString};
use cbm::Sprite;
use std::io::Read;

fn locs(f: &File) -> Result<Vec<Loc>, String> {
    let mut v: Vec<Loc> = k(f.occupied_sectors())?.iter().map(|l| (l.0, l.1)).collect();
    let n = v.len();
    v.sort();
    v.dedup();
    if v.len() != n {
        return Err("a block is reported as occupied twice".into());
    }
    Ok(v)
}

/// The parts a file can be made of; `placed` puts one of them on a given block.
pub const PARTS: &[&str] = &["linear first", "linear second", "linear last", "rel first", "rel last", "rel side", "rel second side", "seq first", "seq info", "seq last", "vlir index", "vlir info", "vlir record", "vlir tail"];
/// An otherwise empty disk with a file V whose given part lies on block `l`.
pub fn placed(g: Geo, part: &str, l: Loc) -> Raw {
    let mut r = roots::fresh(g);
    let mut f: Vec<Loc> = r.free_data().into_iter().filter(|x| *x != l).collect();
    let n = f.len();
    f.rotate_left(n / 3);
    let mut at = 0;
    let mut next = || {
        at += 1;
        f[at * 31 % f.len()]
    };
    let mut some = |p: &str| if p == part { l } else { next() };
    match part.split(' ').next().unwrap() {
        "linear" => {
            let b = [some("linear first"), some("linear second"), some("linear last")];
            r.add_linear(b"V", 0x82, &b, &content(3, 600));
        }
        "rel" => {
            let mut b = vec![some("rel first")];
            for _ in 0..123 {
                b.push(some(""));
            }
            b.push(some("rel last"));
            let s = [some("rel side"), some("rel second side")];
            r.add_rel(b"V", 100, &b, &s, &content(4, 31700));
        }
        "seq" => {
            let b = [some("seq first"), some(""), some("seq last")];
            let i = some("seq info");
            r.add_seq(b"V", Some(i), &b, &content(5, 600));
        }
        _ => {
            let i = some("vlir info");
            let x = some("vlir index");
            let recs = vec![Some((vec![some("vlir record"), some("vlir tail")], content(6, 300))), None, Some((vec![some("")], content(7, 9)))];
            r.add_vlir(b"V", Some(i), x, &recs, false);
        }
    }
    r
}
/// Blocks to try: all sectors of the tracks at the edges of every zone, all tracks at a few sectors.
pub fn places(g: Geo) -> Vec<Loc> {
    let r = roots::fresh(g);
    let edge = |t: u8| t == 1 || t == g.dos_tracks() || g.spt(t) != g.spt(t - 1) || g.spt(t) != g.spt(t + 1) || t.abs_diff(g.dir_track()) == 1;
    r.free_data().into_iter().filter(|l| edge(l.0) && (l.0 != 41 || g.kind != Kind::D81) || l.1 < 2 || l.1 + 1 == g.spt(l.0)).collect()
}
// ------------------------------------------------------------------ C15
fn c15_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for l in 1..=254 {
        v.push(format!("len/d64/{}", l));
    }
    for g in ["d71", "d81"] {
        for l in (1..=254).step_by(t.pick(23, 1)) {
            v.push(format!("len/{}/{}", g, l));
        }
    }
    for g in ["d64", "d71", "d81"] {
        for p in 0..6 {
            v.push(format!("big/{}/{}", g, p));
        }
        v.push(format!("bad/{}", g));
        v.push(format!("places/{}", g));
        v.push(format!("fill/{}", g));
    }
    v
}
fn c15_bound(t: Tier) -> String {
    format!(
        "record lengths 1..=254 x every number of data blocks 1..={} x the smallest and the largest record count that needs them (d71, d81: record lengths in steps of {}); \
         1..6 side sectors with 119..121, 239..241, ... and the maximal number of data blocks; every single-field inconsistency of a three-side-sector file; contents with runs of every byte value; every part on the blocks of every zone edge and the outer sectors of every track",
        t.pick(4, 12), t.pick(23, 1)
    )
}
fn check_rel(r: &Raw, name: &[u8], reclen: usize, data: &[u8], blocks: &[Loc], side: &[Loc], cov: &mut Cov) -> R {
    let d = load(r);
    let f = k(d.open_file(&pet(name))).map_err(|e| format!("cannot be opened: {}", e))?;
    if !matches!(f, File::Relative(_)) {
        return Err("is not opened as a relative file".into());
    }
    let n = k(f.record_count())?;
    if n != data.len() / reclen {
        return Err(format!("{} records reported, {} stored", n, data.len() / reclen));
    }
    for i in 0..n {
        cov.step();
        let x = k(f.record(i)).map_err(|e| format!("record {} of {}: {}", i, n, e))?;
        if x != data[i * reclen..(i + 1) * reclen] {
            return Err(format!("record {} of {} is wrong: {}", i, n, first_diff(&[x], &[data[i * reclen..(i + 1) * reclen].to_vec()])));
        }
    }
    for i in [n, n + 1, n + 1000, usize::MAX / 256, usize::MAX] {
        if f.record(i).is_ok() {
            return Err(format!("record index {} of {} is delivered", i, n));
        }
    }
    let mut want: Vec<Loc> = blocks.iter().chain(side).copied().collect();
    want.sort();
    let got = locs(&f)?;
    if got != want {
        return Err(format!("occupied blocks {:?} instead of {:?}", got, want));
    }
    if f.reader().is_ok() || f.writer().is_ok() {
        return Err("a relative file can be read or written as a linear file".into());
    }
    let e = k(d.find_directory_entry(&pet(name)))?;
    cov.state(fp(&[&[reclen as u8], &(n as u64).to_le_bytes(), &[d.native_disk_format().directory_track, e.file_size as u8]]));
    Ok(())
}
/// Data in which one byte value fills everything, the end or the beginning, or alternates with zeros.
pub fn fill(v: u8, how: usize, n: usize) -> Vec<u8> {
    let c = content(v as u32, n);
    (0..n)
        .map(|i| match how {
            0 => v,
            1 if i >= n / 2 => v,
            2 if i < n / 2 => v,
            3 => [v, 0, 0][i % 3],
            _ => c[i],
        })
        .collect()
}
/// Files of such data, written in one call, in two, and in two with a flush or a new writer between them.
pub fn fills(g: Geo, part: u8, cov: &mut Cov) -> R {
    let root = roots::mixed(g);
    for v in (0..=255u8).filter(|v| v % 8 == part) {
        for how in 0..4 {
            let mut d = load(&root);
            for n in [1usize, 20, 253, 254, 255, 508, 600] {
                let data = fill(v, how, n);
                for cut in 0..4 {
                    cov.tick(|| format!("{} {} bytes of {:02x} (pattern {}, cut {})", g.name(), n, v, how, cut));
                    cov.step();
                    let ctx = || format!("{}: file of {} bytes, byte {:02x} in pattern {}, cut {}", g.name(), n, v, how, cut);
                    let (a, b) = if cut == 0 { (&data[..], &[][..]) } else { data.split_at(n / 2) };
                    let wr = |d: &mut Dk| -> std::io::Result<()> {
                        let f = d.create_file(&pet(b"N"), ftype(2), cbm::disk::file::Scheme::Linear)?;
                        let mut w = f.writer()?;
                        w.write_all(a)?;
                        if cut == 2 {
                            w.flush()?;
                        }
                        if cut == 3 {
                            drop(w);
                            w = d.open_file(&pet(b"N"))?.writer()?;
                        }
                        w.write_all(b)?;
                        w.flush()
                    };
                    k(wr(&mut d)).map_err(|e| format!("{}: {}", ctx(), e))?;
                    let r = snap(&*d, g);
                    let e = r.find(b"N").ok_or_else(|| format!("{}: no entry", ctx()))?;
                    let stored = r.chain_data(e.start()).map_err(|_| format!("{}: broken chain", ctx()))?;
                    let mut got = vec![];
                    k(d.open_file(&pet(b"N")).and_then(|f| f.reader()).and_then(|mut x| x.read_to_end(&mut got))).map_err(|e| format!("{}: {}", ctx(), e))?;
                    for (what, x) in [("stored", stored), ("read", got)] {
                        if x != data {
                            return Err(format!("{}: {}: {}", ctx(), what, first_diff(&[x], &[data.clone()])));
                        }
                    }
                    k(d.open_file(&pet(b"N")).and_then(|mut f| f.delete())).map_err(|e| format!("{}: {}", ctx(), e))?;
                    cov.state(fp(&[&data]));
                }
            }
        }
    }
    Ok(())
}
fn rel_disk(g: Geo, reclen: usize, n: usize, step: usize) -> (Raw, Vec<u8>, Vec<Loc>, Vec<Loc>) {
    rel_disk_of(g, reclen, content(reclen as u32 * 1000 + n as u32, n * reclen), step)
}
fn rel_disk_of(g: Geo, reclen: usize, data: Vec<u8>, step: usize) -> (Raw, Vec<u8>, Vec<Loc>, Vec<Loc>) {
    let mut r = roots::fresh(g);
    let nb = (data.len() + 253) / 254;
    let ns = ((nb + 119) / 120).max(1);
    let f = r.free_data();
    // scatter: block i is the (i*step)-th free one (step coprime with the number of free blocks)
    let pick: Vec<Loc> = (0..nb + ns).map(|i| f[(i * step + 7) % f.len()]).collect();
    let (side, blocks) = (pick[..ns].to_vec(), pick[ns..].to_vec());
    if nb > 0 {
        r.add_rel(b"R", reclen as u8, &blocks, &side, &data);
    } else {
        // no data: the entry points nowhere, one side sector without data blocks
        r.take(side[0]);
        let s = r.sec_mut(side[0]);
        s[1] = 15;
        s[3] = reclen as u8;
        s[4] = side[0].0;
        s[5] = side[0].1;
        let e = Raw::entry_bytes(b"R", 0x84, (0, 0), &[side[0].0, side[0].1, reclen as u8, 0, 0, 0, 0, 0, 0], 1);
        r.put_entry(&e);
    }
    (r, data, blocks, side)
}
fn c15(case: &str, t: Tier, cov: &mut Cov) -> R {
    if let Some(g) = case.strip_prefix("fill/") {
        let g = Geo::by_name(g);
        for v in 0..=255u8 {
            for (reclen, n) in [(1usize, 300usize), (2, 140), (20, 30), (100, 6), (254, 3)] {
                for how in 0..5 {
                    let data = if how < 4 { fill(v, how, n * reclen) } else { (0..n * reclen).map(|i| if i % reclen == 0 { v } else { 0 }).collect() };
                    cov.tick(|| format!("{} records of {} bytes of {:02x}, pattern {}", g.name(), reclen, v, how));
                    let (r, data, blocks, side) = rel_disk_of(g, reclen, data, 1);
                    check_rel(&r, b"R", reclen, &data, &blocks, &side, cov).map_err(|e| format!("{}: records of {} bytes of {:02x}, pattern {}: {}", g.name(), reclen, v, how, e))?;
                }
            }
        }
        return Ok(());
    }
    if let Some(g) = case.strip_prefix("places/") {
        let g = Geo::by_name(g);
        for l in places(g) {
            for part in PARTS.iter().filter(|p| p.starts_with("rel")) {
                let what = || format!("{} {} on block {:?}", g.name(), part, l);
                cov.tick(what);
                let r = placed(g, part, l);
                let e = r.find(b"V").expect("harness");
                let data = r.chain_data(e.start()).unwrap();
                let blocks = r.file_blocks(&e).unwrap();
                check_rel(&r, b"V", 100, &data, &blocks, &[], cov).map_err(|e| format!("{}: {}", what(), e))?;
            }
        }
        return Ok(());
    }
    let p: Vec<&str> = case.split('/').collect();
    let g = Geo::by_name(p[1]);
    match p[0] {
        "len" => {
            let l: usize = p[2].parse().unwrap();
            let mut counts = vec![0usize];
            for nb in 1..=t.pick(4usize, 12) {
                let lo = ((nb - 1) * 254) / l + 1; // first count needing nb blocks
                let hi = nb * 254 / l; // last count fitting in nb blocks
                for n in [lo, hi] {
                    if n >= 1 && (n * l + 253) / 254 == nb && !counts.contains(&n) {
                        counts.push(n);
                    }
                }
            }
            for n in counts {
                cov.tick(|| format!("{} record length {} x {} records", g.name(), l, n));
                let (r, data, blocks, side) = rel_disk(g, l, n, 13);
                check_rel(&r, b"R", l, &data, &blocks, &side, cov).map_err(|e| format!("{} relative file with {} records of {} bytes: {}", g.name(), n, l, e))?;
            }
        }
        "big" => {
            let k: usize = p[2].parse().unwrap();
            let max = (g.nblocks() - 60).min(720);
            for nb in [k * 120 + 119, k * 120 + 120, k * 120 + 121, max] {
                let nb = nb.min(max);
                for l in t.pick(vec![254usize, 127, 100, 253], vec![254, 127, 100, 253, 1, 2, 64, 200, 7]) {
                    for n in [((nb - 1) * 254) / l + 1, nb * 254 / l] {
                        if (n * l + 253) / 254 != nb {
                            continue;
                        }
                        cov.tick(|| format!("{} record length {} x {} records in {} blocks", g.name(), l, n, nb));
                        let (r, data, blocks, side) = rel_disk(g, l, n, 13);
                        check_rel(&r, b"R", l, &data, &blocks, &side, cov).map_err(|e| format!("{} relative file with {} records of {} bytes: {}", g.name(), n, l, e))?;
                    }
                }
            }
        }
        _ => {
            let (r, _, blocks, side) = rel_disk(g, 100, 300 * 254 / 100, 13);
            let mut muts: Vec<(String, Raw)> = vec![];
            let mut m = |d: String, f: &dyn Fn(&mut Raw)| {
                let mut x = r.clone();
                f(&mut x);
                muts.push((d, x));
            };
            let e = r.find(b"R").unwrap();
            m("record length 0".into(), &|x| x.sec_mut(e.loc)[e.idx * 32 + 0x17] = 0);
            for v in 1..=254u8 {
                if (299 * 254 + (r.sec(*blocks.last().unwrap())[1] as usize - 1)) % v as usize != 0 {
                    m(format!("record length {}", v), &|x| x.sec_mut(e.loc)[e.idx * 32 + 0x17] = v);
                }
            }
            for (i, s) in side.iter().enumerate() {
                for j in 0..6 {
                    for v in [(1u8, 0u8), (0, 0), (g.tracks, 1), side[(i + 1) % 3]] {
                        let old = (r.sec(*s)[4 + 2 * j], r.sec(*s)[5 + 2 * j]);
                        if old == v || (old.0 == 0 && v.0 == 0) {
                            continue;
                        }
                        m(format!("side sector {}: list entry {} = {:?}", i, j, v), &|x| {
                            x.sec_mut(*s)[4 + 2 * j] = v.0;
                            x.sec_mut(*s)[5 + 2 * j] = v.1;
                        });
                    }
                }
                // chain damage: end too early, loop, wrong place
                if i < 2 {
                    m(format!("side sector {} ends the chain", i), &|x| {
                        x.sec_mut(*s)[0] = 0;
                        x.sec_mut(*s)[1] = 255;
                    });
                }
                m(format!("side sector {} links to itself", i), &|x| {
                    x.sec_mut(*s)[0] = s.0;
                    x.sec_mut(*s)[1] = s.1;
                });
                m(format!("side sector {} links outside the disk", i), &|x| {
                    x.sec_mut(*s)[0] = 99;
                    x.sec_mut(*s)[1] = 0;
                });
            }
            let last = side[2];
            for v in (0..=255u8).filter(|v| *v < 15 || v % 2 == 0) {
                m(format!("last side sector uses {} bytes", v as u32 + 1), &|x| x.sec_mut(last)[1] = v);
            }
            // all side sectors listing more than six
            let tail = *blocks.last().unwrap();
            m("the last data block is linked on".into(), &|x| {
                x.sec_mut(tail)[0] = 1;
                x.sec_mut(tail)[1] = 1;
            });
            for v in 0..=255u8 {
                let n = 299 * 254 + (v as usize).saturating_sub(1);
                if v == 0 || n % 100 != 0 {
                    m(format!("last data block uses {} bytes", v as u32 + 1), &|x| x.sec_mut(tail)[1] = v);
                }
            }
            m("first side sector outside the disk".into(), &|x| x.sec_mut(e.loc)[e.idx * 32 + 0x15] = 200);
            m("no side sector".into(), &|x| {
                x.sec_mut(e.loc)[e.idx * 32 + 0x15] = 0;
                x.sec_mut(e.loc)[e.idx * 32 + 0x16] = 0;
            });
            for (what, x) in muts {
                cov.tick(|| format!("{} {}", g.name(), what));
                cov.step();
                cov.state(fp(&[what.as_bytes(), g.name().as_bytes()]));
                let d = load(&x);
                let res = d.open_file(&pet(b"R"));
                cov.outcome(&match &res {
                    Ok(_) => "accepted".to_string(),
                    Err(e) => kind(e),
                });
                if res.is_ok() {
                    return Err(format!("{}: an inconsistent relative file is accepted: {}", g.name(), what));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C16
const RLENS: [Option<usize>; 8] = [None, Some(0), Some(1), Some(253), Some(254), Some(255), Some(508), Some(700)];
const READS: [usize; 8] = [1, 2, 100, 253, 254, 255, 256, 1000];
fn c16_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for g in ["d64", "d71", "d81"] {
        for a in 0..8 {
            v.push(format!("vlir/{}/{}", g, a));
        }
        v.push(format!("wide/{}", g));
        v.push(format!("seq/{}", g));
        v.push(format!("border/{}", g));
        v.push(format!("places/{}", g));
        v.push(format!("fill/{}", g));
    }
    for a in 0..t.pick(8, 64) {
        v.push(format!("cuts/{}", a));
    }
    v
}
fn c16_bound(t: Tier) -> String {
    format!(
        "d64, d71, d81: all record lists of up to {} records over {{unavailable, 0, 1, 253, 254, 255, 508, 700 bytes}} x 2 index paddings; lists of 5..127 records; \
         sequential files of 13 sizes; all attribute bytes and selected values of the type and date bytes of the entry; conversion streams read in all cyclic patterns of up to {} read sizes from 8, and every constant size 1..=1200; 255 and 256-block records; contents with runs of every byte value; every part on the blocks of every zone edge and the outer sectors of every track",
        t.pick(3, 4), t.pick(2, 3)
    )
}
pub fn cvt(r: &Raw, e: &Ent) -> Vec<u8> {
    let vlir = e.scheme() == Scheme::Vlir;
    let mut b = vec![0u8; 256];
    b[2..32].copy_from_slice(&e.b[2..32]);
    let sig: &[u8] = if vlir { b"PRG formatted GEOS file V1.0" } else { b"SEQ formatted GEOS file V1.0" };
    b[0x20..0x20 + sig.len()].copy_from_slice(sig);
    let mut out = b[2..].to_vec();
    out.extend_from_slice(&r.sec(e.extra())[2..]);
    if !vlir {
        out.extend(r.chain_data(e.start()).unwrap());
        return out;
    }
    let recs = r.vlir_records(e.start()).unwrap();
    let mut index = vec![];
    for x in &recs {
        match x {
            None => index.extend_from_slice(&[0, 0xff]),
            Some(l) => {
                let (c, used) = r.chain(*l).unwrap();
                index.extend_from_slice(&[c.len() as u8, (used - 1) as u8]);
            }
        }
    }
    index.resize(254, 0);
    out.extend(index);
    let there: Vec<Loc> = recs.into_iter().flatten().collect();
    for (i, l) in there.iter().enumerate() {
        let mut d = r.chain_data(*l).unwrap();
        if i + 1 < there.len() {
            let n = r.chain(*l).unwrap().0.len() * 254;
            d.resize(n, 0);
        }
        out.extend(d);
    }
    out
}
fn read_cut(r: &mut dyn Read, sizes: &[usize], limit: usize) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut i = 0;
    let mut zero = 0;
    loop {
        let n = sizes[i % sizes.len()];
        i += 1;
        let mut b = vec![0xEEu8; n];
        let got = r.read(&mut b).map_err(|e| format!("read fails: {}", kind(&e)))?;
        if got > n {
            return Err(format!("read of {} bytes claims {}", n, got));
        }
        if b[got..].iter().any(|x| *x != 0xEE) {
            return Err(format!("read of {} bytes claims {} but stored more", n, got));
        }
        v.extend_from_slice(&b[..got]);
        if n > 0 && got == 0 {
            zero += 1;
            if zero == 3 {
                return Ok(v);
            }
        } else if zero > 0 && got > 0 {
            return Err("bytes after the end of the stream".into());
        }
        if v.len() > limit {
            return Err("more bytes than the file has".into());
        }
    }
}
fn stream(f: &File, sizes: &[usize], limit: usize) -> Result<Vec<u8>, String> {
    match f {
        File::GEOSSequential(g) | File::GEOSVLIR(g) => {
            let mut r = k(g.reader())?;
            read_cut(&mut r, sizes, limit)
        }
        _ => Err("not opened as a GEOS file".into()),
    }
}
pub fn vlir_disk(g: Geo, recs: &[Option<usize>], pad_ff: bool, border: bool) -> Raw {
    let mut r = roots::fresh(g);
    if border {
        r.make_geos((17, 3));
    }
    let f: Vec<Loc> = r.free_data();
    let mut at = 5;
    let step = 13;
    let mut next = |n: usize| -> Vec<Loc> {
        (0..n)
            .map(|_| {
                at += step;
                f[at % f.len()]
            })
            .collect()
    };
    let info = next(1)[0];
    let index = next(1)[0];
    let rr: Vec<Option<(Vec<Loc>, Vec<u8>)>> = recs
        .iter()
        .enumerate()
        .map(|(i, n)| {
            n.map(|n| {
                let d = content(600 + i as u32, n);
                (next(Raw::need(&d)), d)
            })
        })
        .collect();
    let e = r.vlir_entry(b"V", Some(info), index, &rr, pad_ff);
    if border {
        r.sec_mut((17, 3))[32 * 5 + 2..32 * 6].copy_from_slice(&e[2..]);
    } else {
        r.put_entry(&e);
    }
    r
}
fn check_geos(r: &Raw, name: &[u8], cuts: &[Vec<usize>], cov: &mut Cov) -> R {
    let d = load(r);
    let e = r.find(name).expect("harness");
    let f = k(d.open_file(&pet(name))).map_err(|x| format!("cannot be opened: {}", x))?;
    match (&f, e.scheme()) {
        (File::GEOSVLIR(_), Scheme::Vlir) | (File::GEOSSequential(_), Scheme::Seq) => {}
        _ => return Err("is opened as another kind of file".into()),
    }
    let n = k(f.record_count())?;
    if e.scheme() == Scheme::Vlir {
        let want = r.vlir_records(e.start()).unwrap();
        if n != want.len() {
            return Err(format!("{} records reported, the index has {}", n, want.len()));
        }
        for (i, l) in want.iter().enumerate() {
            let w = l.map_or(vec![], |l| r.chain_data(l).unwrap());
            let x = k(f.record(i)).map_err(|e| format!("record {}: {}", i, e))?;
            if x != w {
                return Err(format!("record {}: {}", i, first_diff(&[x], &[w])));
            }
        }
        if f.reader().is_ok() {
            return Err("a VLIR file can be read as a linear file".into());
        }
    } else {
        let w = r.chain_data(e.start()).unwrap();
        if n != 1 || k(f.record(0)).as_ref() != Ok(&w) {
            return Err("the record of a sequential file is not its data chain".into());
        }
        for c in cuts.iter().take(9) {
            let x = read_cut(&mut *k(f.reader())?, c, w.len() + 10)?;
            if x != w {
                return Err(format!("read in steps of {:?}: {}", c, first_diff(&[x], &[w.clone()])));
            }
        }
    }
    if f.record(n).is_ok() || f.record(usize::MAX).is_ok() {
        return Err("a record beyond the last one is delivered".into());
    }
    if f.writer().is_ok() {
        return Err("a GEOS file can be written as a linear file".into());
    }
    if locs(&f)? != r.file_blocks(&e).unwrap() {
        return Err("the occupied blocks are wrong".into());
    }
    let w = cvt(r, &e);
    for c in cuts {
        cov.step();
        let x = stream(&f, c, w.len() + 10).map_err(|e| format!("conversion stream read in steps of {:?}: {}", c, e))?;
        if x != w {
            return Err(format!("conversion stream read in steps of {:?}: {}", c, first_diff(&[x], &[w])));
        }
    }
    let info = k(f.geos_info())?;
    match info {
        None => return Err("the info block is not found".into()),
        Some(i) => {
            let mut b = r.sec(e.extra()).to_vec();
            i.to_bytes(&mut b);
            if b != r.sec(e.extra()) {
                return Err("the info block is wrong".into());
            }
        }
    }
    cov.state(fp(&[&w]));
    Ok(())
}
fn cuts_basic() -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = READS.iter().map(|n| vec![*n]).collect();
    v.push(vec![0, 7, 0]);
    v.push(vec![253, 3]);
    v
}
fn c16(case: &str, t: Tier, cov: &mut Cov) -> R {
    if let Some(g) = case.strip_prefix("fill/") {
        let g = Geo::by_name(g);
        for v in 0..=255u8 {
            for how in 0..4 {
                for n in [1usize, 20, 254, 300] {
                    let what = || format!("{} {} bytes of {:02x}, pattern {}", g.name(), n, v, how);
                    cov.tick(what);
                    let mut r = roots::fresh(g);
                    let b = r.pick_spread(12, 7, 30);
                    let data = fill(v, how, n);
                    r.add_seq(b"S", Some(b[0]), &b[1..1 + Raw::need(&data)], &data);
                    r.add_vlir(b"V", Some(b[3]), b[4], &[Some((b[5..5 + Raw::need(&data)].to_vec(), data.clone())), None, Some((b[7..8].to_vec(), content(3, 9))), Some((b[8..8 + Raw::need(&data)].to_vec(), data.clone()))], false);
                    for f in [&b"S"[..], b"V"] {
                        check_geos(&r, f, &[vec![1000], vec![100]], cov).map_err(|e| format!("{}: {}", what(), e))?;
                    }
                }
            }
        }
        return Ok(());
    }
    if let Some(g) = case.strip_prefix("places/") {
        let g = Geo::by_name(g);
        for l in places(g) {
            for part in PARTS.iter().filter(|p| p.starts_with("seq") || p.starts_with("vlir")) {
                let what = || format!("{} {} on block {:?}", g.name(), part, l);
                cov.tick(what);
                check_geos(&placed(g, part, l), b"V", &[vec![1000]], cov).map_err(|e| format!("{}: {}", what(), e))?;
            }
        }
        return Ok(());
    }
    let p: Vec<&str> = case.split('/').collect();
    match p[0] {
        "vlir" => {
            let g = Geo::by_name(p[1]);
            let a: usize = p[2].parse().unwrap();
            let max = t.pick(3, 4);
            let full: Vec<Vec<usize>> = vec![vec![1000], vec![1], vec![254], vec![255], vec![253, 3]];
            let some: Vec<Vec<usize>> = vec![vec![777], vec![254]];
            for len in 1..=max {
                let mut total = 1;
                for _ in 1..len {
                    total *= 8;
                }
                for c in 0..total {
                    let mut recs = vec![RLENS[a]];
                    let mut x = c;
                    for _ in 1..len {
                        recs.push(RLENS[x % 8]);
                        x /= 8;
                    }
                    for pad in [false, true] {
                        cov.tick(|| format!("{} VLIR {:?} padded {}", g.name(), recs, pad));
                        let r = vlir_disk(g, &recs, pad, false);
                        check_geos(&r, b"V", if len < 3 { &full } else { &some }, cov).map_err(|e| format!("{} VLIR records {:?} (padded {}): {}", g.name(), recs, pad, e))?;
                    }
                }
            }
        }
        "wide" => {
            let g = Geo::by_name(p[1]);
            let cuts = cuts_basic();
            for n in (0..=127).filter(|n| *n == 0 || *n > 4) {
                for which in 0..3 {
                    let recs: Vec<Option<usize>> = (0..n).map(|i| match which {
                        0 => None,
                        1 => Some(i % 260),
                        _ => if i % 3 == 0 { None } else { Some(250 + i % 7) },
                    }).collect();
                    cov.tick(|| format!("{} VLIR {} records, pattern {}", g.name(), n, which));
                    let r = vlir_disk(g, &recs, n % 2 == 0, false);
                    check_geos(&r, b"V", &cuts[..t.pick(3, 10)], cov).map_err(|e| format!("{} VLIR with {} records, pattern {}: {}", g.name(), n, which, e))?;
                }
            }
            // large records
            for blocks in [254usize, 255, 256, 300] {
                cov.tick(|| format!("{} VLIR record of {} blocks", g.name(), blocks));
                let r = vlir_disk(g, &[Some(5), Some(blocks * 254 - 1), Some(9)], false, false);
                if blocks < 256 {
                    check_geos(&r, b"V", &cuts[2..5], cov).map_err(|e| format!("{} VLIR record of {} blocks: {}", g.name(), blocks, e))?;
                } else {
                    let d = load(&r);
                    let f = k(d.open_file(&pet(b"V")))?;
                    if k(f.record(1))?.len() != blocks * 254 - 1 {
                        return Err(format!("{} VLIR record of {} blocks is not delivered", g.name(), blocks));
                    }
                    // its block count cannot be expressed in a conversion stream
                    if stream(&f, &[1000], 1 << 20).is_ok() {
                        return Err(format!("{} a conversion stream of a record of {} blocks is produced", g.name(), blocks));
                    }
                }
            }
        }
        "seq" => {
            let g = Geo::by_name(p[1]);
            // every attribute byte a GEOS file can have, and every date and type byte
            let mut shapes: Vec<(usize, u8)> = (0..=255u8).filter(|a| a & 7 < 4 && a & 0x8f != 0).map(|a| (2, a)).collect();
            for o in 0x18..0x20 {
                shapes.extend([0u8, 1, 127, 128, 255].iter().map(|v| (o, *v)));
            }
            for (o, v) in shapes {
                for vlir in [false, true] {
                    let mut r = if vlir {
                        vlir_disk(g, &[Some(3), None, Some(300)], false, false)
                    } else {
                        let mut r = roots::fresh(g);
                        let b = r.pick_spread(2, 7, 30);
                        let i = r.pick_spread(1, 1, 300);
                        r.add_seq(b"V", Some(i[0]), &b, &content(1, 300));
                        r
                    };
                    let e = r.find(b"V").expect("harness");
                    r.sec_mut(e.loc)[e.idx * 32 + o] = v;
                    if r.find(b"V").map_or(true, |e| !matches!(e.scheme(), Scheme::Seq | Scheme::Vlir)) {
                        continue;
                    }
                    cov.tick(|| format!("{} GEOS file (VLIR {}) with entry byte {:#x} = {:#x}", g.name(), vlir, o, v));
                    check_geos(&r, b"V", &cuts_basic()[3..5], cov).map_err(|e| format!("{} GEOS file (VLIR {}) with entry byte {:#x} = {:#x}: {}", g.name(), vlir, o, v, e))?;
                }
            }
            for n in [0usize, 1, 2, 252, 253, 254, 255, 256, 507, 508, 509, 1500, 40000] {
                cov.tick(|| format!("{} GEOS sequential file of {} bytes", g.name(), n));
                let mut r = roots::fresh(g);
                let d = content(n as u32, n);
                let b = r.pick_spread(Raw::need(&d), 7, 30);
                let i = r.pick_spread(1, 1, 300);
                r.add_seq(b"S", Some(i[0]), &b, &d);
                check_geos(&r, b"S", &cuts_basic(), cov).map_err(|e| format!("{} GEOS sequential file of {} bytes: {}", g.name(), n, e))?;
                // without an info block there is nothing to convert
                let mut r = roots::fresh(g);
                r.add_seq(b"S", None, &b, &d);
                let dk = load(&r);
                let f = k(dk.open_file(&pet(b"S")))?;
                if k(f.record(0))? != d {
                    return Err(format!("{} GEOS sequential file of {} bytes without info block: wrong data", g.name(), n));
                }
                if k(f.geos_info())?.is_some() || stream(&f, &[100], 1 << 20).is_ok() {
                    return Err(format!("{} GEOS file without an info block shows one", g.name()));
                }
            }
        }
        "border" => {
            let g = Geo::by_name(p[1]);
            for a in RLENS {
                for b in RLENS {
                    cov.tick(|| format!("{} border VLIR {:?} {:?}", g.name(), a, b));
                    let r = vlir_disk(g, &[a, b], false, true);
                    check_geos(&r, b"V", &cuts_basic()[3..6], cov).map_err(|e| format!("{} VLIR {:?} {:?} in the border block: {}", g.name(), a, b, e))?;
                }
            }
        }
        _ => {
            // all cyclic patterns of read sizes on a few files
            let a: usize = p[1].parse().unwrap();
            let mut cuts: Vec<Vec<usize>> = vec![];
            if t.thorough() {
                for c in 0..8 {
                    cuts.push(vec![READS[a / 8], READS[a % 8], READS[c]]);
                }
                for n in 1..=1200 {
                    if n % 64 == a {
                        cuts.push(vec![n]);
                    }
                }
            } else {
                for b in 0..8 {
                    cuts.push(vec![READS[a], READS[b]]);
                }
                for n in 1..=1200 {
                    if n % 8 == a && n % 3 == 0 || n < 300 && n % 8 == a {
                        cuts.push(vec![n]);
                    }
                }
            }
            for recs in [vec![Some(300), None, Some(254), Some(0), Some(77)], vec![Some(0)], vec![None], vec![Some(508), Some(1)], vec![Some(0), Some(0)]] {
                let r = vlir_disk(G64, &recs, true, false);
                for c in &cuts {
                    cov.tick(|| format!("VLIR {:?} read in steps of {:?}", recs, c));
                    check_geos(&r, b"V", &[c.clone()], cov).map_err(|e| format!("VLIR {:?}: {}", recs, e))?;
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
fn c18_cases(_t: Tier) -> Vec<String> {
    let mut v: Vec<String> = (0..16).map(|i| format!("bytes/{}", i)).collect();
    v.push("edit".into());
    v.push("words".into());
    v.push("icon1".into());
    v.push("icon2".into());
    for i in 0..8 {
        v.push(format!("icon-bytes/{}", i));
    }
    v.push("disk".into());
    v.push("text".into());
    v
}
fn c18_bound(_t: Tier) -> String {
    "info blocks: every byte position x all 256 values x 4 base blocks, decoded, re-encoded over the original, over zeros and over ones; all 65536 values of the three addresses; \
     every one-field edit x all values; icons: every single pixel set and cleared, every 2x2 cell x 16 patterns x every position, every icon byte x 256 values; info blocks on 3 disk kinds"
        .into()
}
fn info_fields() -> Vec<(usize, usize)> {
    // position and size of every decoded field
    vec![(0x05, 63), (0x44, 1), (0x45, 1), (0x46, 1), (0x47, 2), (0x49, 2), (0x4b, 2), (0x4d, 20), (0x61, 20), (0x75, 20), (0x89, 23), (0xa0, 96)]
}
fn field_bytes(i: &GEOSInfo) -> Vec<Vec<u8>> {
    let mut icon = vec![0; 63];
    i.icon.to_bytes(&mut icon);
    let s = |g: &GEOSString, n: usize| {
        let mut b = vec![0; n];
        g.to_bytes(&mut b);
        b
    };
    let a = &i.file_attributes;
    vec![
        icon,
        vec![ftype_byte(a.file_type) | (a.unused_bit as u8) << 4 | (a.save_with_replace_flag as u8) << 5 | (a.locked_flag as u8) << 6 | (a.closed_flag as u8) << 7],
        vec![i.geos_file_type.to_byte()],
        vec![i.structure.to_byte()],
        i.program_load_address.to_le_bytes().to_vec(),
        i.program_end_address.to_le_bytes().to_vec(),
        i.program_start_address.to_le_bytes().to_vec(),
        s(&i.class, 20),
        s(&i.author, 20),
        s(&i.application, 20),
        i.reserved.clone(),
        s(&i.description, 96),
    ]
}
fn check_info(b: &[u8]) -> R {
    let i = GEOSInfo::from_bytes(b);
    for ((o, n), f) in info_fields().into_iter().zip(field_bytes(&i)) {
        if f != b[o..o + n] {
            return Err(format!("the field at {:#04x} is decoded as {:02x?}, stored is {:02x?}", o, f, &b[o..o + n]));
        }
    }
    for fill in [None, Some(0u8), Some(0xff)] {
        let mut out = match fill {
            None => b.to_vec(),
            Some(x) => vec![x; 256],
        };
        let mut want = out.clone();
        for (o, n) in info_fields() {
            want[o..o + n].copy_from_slice(&b[o..o + n]);
        }
        i.to_bytes(&mut out);
        if out != want {
            let p = (0..256).find(|p| out[*p] != want[*p]).unwrap();
            return Err(format!("re-encoding (over {:?}) gives {:02x} at {:#04x} instead of {:02x}", fill, out[p], p, want[p]));
        }
    }
    Ok(())
}
fn info_bases() -> Vec<Vec<u8>> {
    let mut v = vec![vec![0u8; 256], vec![0xff; 256], content(5, 256)];
    let mut b = vec![0u8; 256];
    b[1] = 0xff;
    b[2] = 3;
    b[3] = 21;
    b[4] = 0x80 | 63;
    b[0x44] = 0x83;
    b[0x45] = 6;
    b[0x46] = 1;
    b[0x4d..0x4d + 16].copy_from_slice(b"geoWrite    V2.1");
    b[0xa0..0xa0 + 5].copy_from_slice(b"Text.");
    v.push(b);
    v
}
fn quads(c: char) -> Option<[bool; 4]> {
    // upper left, upper right, lower left, lower right
    Some(match c {
        ' ' => [false, false, false, false],
        '▗' => [false, false, false, true],
        '▖' => [false, false, true, false],
        '▄' => [false, false, true, true],
        '▝' => [false, true, false, false],
        '▐' => [false, true, false, true],
        '▞' => [false, true, true, false],
        '▟' => [false, true, true, true],
        '▘' => [true, false, false, false],
        '▚' => [true, false, false, true],
        '▌' => [true, false, true, false],
        '▙' => [true, false, true, true],
        '▀' => [true, true, false, false],
        '▜' => [true, true, false, true],
        '▛' => [true, true, true, false],
        '█' => [true, true, true, true],
        _ => return None,
    })
}
fn check_icon(data: &[u8], via: impl Fn(&[u8]) -> String) -> R {
    let s = via(data);
    let lines: Vec<Vec<char>> = s.lines().map(|l| l.chars().collect()).collect();
    if lines.len() < 11 {
        return Err(format!("the icon is rendered in {} lines", lines.len()));
    }
    for y in 0..22 {
        for x in 0..24 {
            let c = lines[y / 2].get(x / 2).copied().unwrap_or(' ');
            let q = quads(c).ok_or_else(|| format!("unexpected character {:?} in the icon", c))?;
            let got = q[(y % 2) * 2 + x % 2];
            let want = y < 21 && data[y * 3 + x / 8] >> (7 - x % 8) & 1 == 1;
            if got != want {
                return Err(format!("pixel ({},{}) is shown {} but stored {}", x, y, got as u8, want as u8));
            }
        }
    }
    Ok(())
}
fn c18(case: &str, _t: Tier, cov: &mut Cov) -> R {
    let uni = |d: &[u8]| Sprite::from_bytes(d).to_unicode();
    let (k0, arg) = case.split_once('/').unwrap_or((case, "0"));
    let arg: usize = arg.parse().unwrap();
    match k0 {
        "bytes" => {
            for (bi, base) in info_bases().iter().enumerate() {
                for p in (0..256).filter(|p| p % 16 == arg) {
                    for v in 0..=255u8 {
                        let mut b = base.clone();
                        b[p] = v;
                        cov.tick(|| format!("info base {} byte {:#04x} = {:02x}", bi, p, v));
                        cov.step();
                        cov.state(fp(&[&b]));
                        check_info(&b).map_err(|e| format!("info block {} with byte {:#04x} = {:02x}: {}", bi, p, v, e))?;
                    }
                }
            }
        }
        "words" => {
            for (o, get) in [(0x47usize, 4usize), (0x49, 5), (0x4b, 6)] {
                for v in 0..=65535u16 {
                    let mut b = info_bases()[2].clone();
                    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
                    if v % 256 == 0 {
                        cov.tick(|| format!("address at {:#04x} = {:04x}", o, v));
                    }
                    cov.step();
                    let i = GEOSInfo::from_bytes(&b);
                    let x = [i.program_load_address, i.program_end_address, i.program_start_address][get - 4];
                    if x != v {
                        return Err(format!("address at {:#04x} decoded as {:04x} instead of {:04x}", o, x, v));
                    }
                    let mut out = vec![0; 256];
                    i.to_bytes(&mut out);
                    if out[o..o + 2] != b[o..o + 2] {
                        return Err(format!("address {:04x} re-encoded at {:#04x} as {:02x?}", v, o, &out[o..o + 2]));
                    }
                }
            }
        }
        "edit" => {
            for (bi, base) in info_bases().iter().enumerate() {
                for f in 0..12 {
                    for v in 0..=255u8 {
                        cov.tick(|| format!("info base {} field {} = {:02x}", bi, f, v));
                        cov.step();
                        let mut i = GEOSInfo::from_bytes(base);
                        let mut want = base.clone();
                        let w = v as u16 * 257 ^ 0x1200;
                        match f {
                            0 => {
                                let d: Vec<u8> = content(v as u32, 63);
                                i.icon = Sprite::from_bytes(&d);
                                want[5..68].copy_from_slice(&d);
                            }
                            1 => {
                                i.file_attributes = FileAttributes::from_byte(v);
                                want[0x44] = v;
                            }
                            2 => {
                                i.geos_file_type = GEOSFileType::from_byte(v);
                                want[0x45] = v;
                            }
                            3 => {
                                i.structure = GEOSFileStructure::from_byte(v);
                                want[0x46] = v;
                            }
                            4 => {
                                i.program_load_address = w;
                                want[0x47..0x49].copy_from_slice(&w.to_le_bytes());
                            }
                            5 => {
                                i.program_end_address = w;
                                want[0x49..0x4b].copy_from_slice(&w.to_le_bytes());
                            }
                            6 => {
                                i.program_start_address = w;
                                want[0x4b..0x4d].copy_from_slice(&w.to_le_bytes());
                            }
                            10 => {
                                let d = content(v as u32, 23);
                                i.reserved = d.clone();
                                want[0x89..0xa0].copy_from_slice(&d);
                            }
                            _ => {
                                let (o, n) = info_fields()[f];
                                let d = content(v as u32 + 7, n);
                                let s = GEOSString::from_bytes(&d);
                                match f {
                                    7 => i.class = s,
                                    8 => i.author = s,
                                    9 => i.application = s,
                                    _ => i.description = s,
                                }
                                want[o..o + n].copy_from_slice(&d);
                            }
                        }
                        let mut out = base.clone();
                        i.to_bytes(&mut out);
                        if out != want {
                            let p = (0..256).find(|p| out[*p] != want[*p]).unwrap();
                            return Err(format!("info block {}: editing field {} to {:02x}: byte {:#04x} is {:02x} instead of {:02x}", bi, f, v, p, out[p], want[p]));
                        }
                        cov.state(fp(&[&out]));
                    }
                }
            }
        }
        "icon1" => {
            for fill in [0u8, 0xff] {
                for x in 0..24 {
                    for y in 0..21 {
                        cov.tick(|| format!("pixel ({},{}) on {:02x}", x, y, fill));
                        cov.step();
                        let mut d = vec![fill; 63];
                        d[y * 3 + x / 8] ^= 0x80 >> (x % 8);
                        cov.state(fp(&[&d]));
                        check_icon(&d, uni).map_err(|e| format!("icon with only pixel ({},{}) {}: {}", x, y, if fill == 0 { "set" } else { "cleared" }, e))?;
                    }
                }
            }
        }
        "icon2" => {
            for cx in 0..12 {
                for cy in 0..11 {
                    for m in 0..16 {
                        for fill in [0u8, 0x55, 0xff] {
                            cov.tick(|| format!("cell ({},{}) pattern {:04b} on {:02x}", cx, cy, m, fill));
                            cov.step();
                            let mut d = vec![fill; 63];
                            for q in 0..4 {
                                let (x, y) = (cx * 2 + q % 2, cy * 2 + q / 2);
                                if y < 21 {
                                    let b = 0x80 >> (x % 8);
                                    if m >> q & 1 == 1 {
                                        d[y * 3 + x / 8] |= b;
                                    } else {
                                        d[y * 3 + x / 8] &= !b;
                                    }
                                }
                            }
                            cov.state(fp(&[&d]));
                            check_icon(&d, uni).map_err(|e| format!("icon cell ({},{}) pattern {:04b}: {}", cx, cy, m, e))?;
                        }
                    }
                }
            }
        }
        "icon-bytes" => {
            for p in (0..63).filter(|p| p % 8 == arg) {
                for v in 0..=255u8 {
                    cov.tick(|| format!("icon byte {} = {:02x}", p, v));
                    cov.step();
                    let mut d = content(11, 63);
                    d[p] = v;
                    cov.state(fp(&[&d]));
                    check_icon(&d, uni).map_err(|e| format!("icon byte {} = {:02x}: {}", p, v, e))?;
                    let mut out = vec![0; 63];
                    Sprite::from_bytes(&d).to_bytes(&mut out);
                    if out != d {
                        return Err(format!("icon byte {} = {:02x} is not reproduced", p, v));
                    }
                }
            }
        }
        "disk" => {
            for g in ALL_GEOS {
                let root = roots::geos(g);
                for name in [&b"GSEQ"[..], b"VLIR", b"BORD"] {
                    let e = root.find(name).unwrap();
                    for (bi, base) in info_bases().iter().enumerate() {
                        cov.tick(|| format!("{} info block of {} = base {}", g.name(), lossy(name), bi));
                        cov.step();
                        let mut r = root.clone();
                        r.sec_mut(e.extra()).copy_from_slice(base);
                        let d = load(&r);
                        let f = k(d.open_file(&pet(name)))?;
                        let i = k(f.geos_info())?.ok_or("no info block")?;
                        for ((o, n), x) in info_fields().into_iter().zip(field_bytes(&i)) {
                            if x != base[o..o + n] {
                                return Err(format!("{}: info block of {}: the field at {:#04x} is {:02x?}, stored {:02x?}", g.name(), lossy(name), o, x, &base[o..o + n]));
                            }
                        }
                    }
                }
                let d = load(&root);
                for name in [&b"OLD"[..], b"REL"] {
                    if k(k(d.open_file(&pet(name)))?.geos_info())?.is_some() {
                        return Err(format!("{}: {} has an info block", g.name(), lossy(name)));
                    }
                }
            }
        }
        _ => {
            // the textual rendering shows the icon next to the fields
            for p in 0..63 {
                for v in [0x00u8, 0x01, 0x80, 0xff, 0xa5] {
                    cov.tick(|| format!("shown info block, icon byte {} = {:02x}", p, v));
                    cov.step();
                    let mut b = info_bases()[3].clone();
                    b[5..68].copy_from_slice(&content(p as u32, 63));
                    b[5 + p] = v;
                    let icon = b[5..68].to_vec();
                    let text = GEOSInfo::from_bytes(&b).to_string();
                    check_icon(&icon, |_| text.lines().map(|l| l.chars().take(12).collect::<String>()).collect::<Vec<_>>().join("\n")).map_err(|e| format!("shown info block: {}", e))?;
                    for want in ["geoWrite    V2.1", "Text.", "Application (VLIR)"] {
                        if !text.contains(want) {
                            return Err(format!("the shown info block lacks {:?}: {}", want, text));
                        }
                    }
                    cov.state(fp(&[&b]));
                }
            }
            // every type and structure byte by name, every text field cut off at every length
            for b in 0..=255u8 {
                for st in [0u8, 1, 2, 0xff] {
                    cov.tick(|| format!("shown info block of type {:02x} structure {:02x}", b, st));
                    cov.step();
                    let mut i = info_bases()[3].clone();
                    i[0x45] = b;
                    i[0x46] = st;
                    let text = GEOSInfo::from_bytes(&i).to_string();
                    let s = match st {
                        0 => "Sequential".to_string(),
                        1 => "VLIR".to_string(),
                        x => format!("Unknown(0x{:02x})", x),
                    };
                    let w = format!("{} ({})", crate::text::geos_type(b), s);
                    if !text.contains(&w) {
                        return Err(format!("the shown info block lacks {:?}: {}", w, text));
                    }
                    cov.state(fp(&[&i]));
                }
            }
            for (label, o, n) in [("Class", 0x4dusize, 20usize), ("Author", 0x61, 20), ("Application", 0x75, 20), ("Description", 0xa0, 96)] {
                for len in 0..=n {
                    for tail in [0u8, b'#'] {
                        cov.tick(|| format!("shown info block, {} of {} bytes, then {:02x}", label, len, tail));
                        cov.step();
                        let mut i = info_bases()[3].clone();
                        for j in 0..n {
                            i[o + j] = match j {
                                j if j < len => b'a' + (j % 26) as u8,
                                j if j == len => 0,
                                _ => tail,
                            };
                        }
                        let text = GEOSInfo::from_bytes(&i).to_string();
                        let want = format!("{}: {}", label, (0..len).map(|j| (b'a' + (j % 26) as u8) as char).collect::<String>());
                        if !text.lines().any(|l| l.trim_end().ends_with(want.trim_end())) {
                            return Err(format!("the shown info block lacks the line {:?}: {}", want, text));
                        }
                        cov.state(fp(&[&i]));
                    }
                }
            }
            for (lo, hi, st) in [(0x1234u16, 0x0801u16, 0xC000u16), (0, 0xffff, 1)] {
                let mut b = info_bases()[3].clone();
                b[0x47..0x49].copy_from_slice(&lo.to_le_bytes());
                b[0x49..0x4b].copy_from_slice(&hi.to_le_bytes());
                b[0x4b..0x4d].copy_from_slice(&st.to_le_bytes());
                let text = GEOSInfo::from_bytes(&b).to_string();
                for w in [format!("load=0x{:04x}", lo), format!("end=0x{:04x}", hi), format!("start=0x{:04x}", st)] {
                    if !text.contains(&w) {
                        return Err(format!("the shown info block lacks {:?}: {}", w, text));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    W(usize),
    Flush,
    Again,  // drop the writer and make a new one on the same file object
    Reopen, // drop the writer, find and open the file again
    Image,  // drop everything, open the image again
}
fn c19_alpha() -> Vec<Cut> {
    use Cut::*;
    vec![W(0), W(1), W(253), W(254), W(255), W(508), W(600), Flush, Again, Reopen, Image]
}
fn c19_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for root in t.pick(vec!["fresh@d64", "frag@d71", "geos@d81"], vec!["fresh@d64", "frag@d64", "geos@d64", "frag@d71", "geos@d71", "fresh@d81", "geos@d81", "mixed@d64x40e"]) {
        for f in 0..c19_alpha().len() {
            v.push(format!("write/{}/{}/{}", root, f, t.pick(3, 4)));
        }
    }
    for root in ["free1@d64", "free2@d64", "free3@d71", "free2@d81", "full@d64"] {
        for f in 0..c19_alpha().len() {
            v.push(format!("write/{}/{}/{}", root, f, 3));
        }
    }
    for root in ["fresh@d64", "free2@d81", "frag@d71"] {
        v.push(format!("file/{}", root));
        for n in 0..16 {
            v.push(format!("exact/{}/{}", root, n));
        }
    }
    for g in ["d64", "d71", "d81"] {
        for i in 0..8 {
            v.push(format!("fill/{}/{}", g, i));
        }
    }
    for root in ["fresh@d64", "fresh@d71", "fresh@d81", "geos@d81"] {
        for n in 0..LARGE.len() {
            v.push(format!("large/{}/{}", root, n));
        }
    }
    for n in 0..12 {
        v.push(format!("read/{}", n));
        v.push(format!("broken/{}", n));
    }
    v
}
fn c19_bound(t: Tier) -> String {
    format!(
        "{} roots x all sequences of up to {} of 11 actions (write 0,1,253,254,255,508,600 bytes, flush, new writer, reopen file, reopen image), starting from an empty and from an existing file; \
         the same on 5 nearly full disks to depth 3; all lengths 0..=1020 written in one call, bytewise and in two calls at every block-boundary cut; \
         10 lengths from 4 KB to 700 KB (where they fit) on 4 disks in one call, with one byte apart at either end, in equal pieces of 512 to 65537 bytes and read back with buffers of 11 sizes up to 140000; \
         12 file lengths x all cyclic patterns of up to 3 read sizes from 9; 12 damaged chains x 81 patterns; contents with runs of every byte value, 7 lengths, 4 patterns, 4 ways to write them",
        t.pick(3, 8), t.pick(3, 4)
    )
}
/// Contents, block list, entry and allocation map of a file.
fn shape(r: &Raw, name: &[u8]) -> Result<(Vec<u8>, Vec<Loc>, Vec<u8>, Vec<Loc>), String> {
    let e = r.find(name).ok_or("the file is missing")?;
    let d = r.chain_data(e.start()).map_err(|e| format!("broken chain: {:?}", e))?;
    Ok((d, r.chain(e.start()).unwrap().0, e.b[2..].to_vec(), r.free_blocks()))
}
/// Perform a cut pattern on file `name`; returns the bytes accepted.
fn run_cuts(d: &mut Dk, g: Geo, path: Option<&std::path::Path>, name: &[u8], cuts: &[Cut], stamp: u32) -> Result<(usize, bool), String> {
    let mut done = 0;
    let mut full = false;
    let mut f = k(d.open_file(&pet(name)))?;
    let mut w = Some(k(f.writer())?);
    for c in cuts {
        match c {
            Cut::W(n) => {
                let data = content_at(stamp, done, *n);
                let mut off = 0;
                loop {
                    if off == data.len() && *n > 0 {
                        break;
                    }
                    match w.as_mut().unwrap().write(&data[off..]) {
                        Ok(x) if x > data.len() - off => return Err(format!("write of {} bytes claims {}", data.len() - off, x)),
                        Ok(0) if *n > 0 => return Err("write returns 0 for a non-empty buffer".into()),
                        Ok(x) => {
                            off += x;
                            if *n == 0 {
                                break;
                            }
                        }
                        Err(e) if kind(&e) == "DiskFull" => {
                            full = true;
                            break;
                        }
                        Err(e) => return Err(format!("write fails: {}", kind(&e))),
                    }
                }
                done += off;
            }
            Cut::Flush => k(w.as_mut().unwrap().flush()).map_err(|e| format!("flush fails: {}", e))?,
            Cut::Again => {
                w = None;
                w = { let _ = w; Some(k(f.writer())?) };
            }
            Cut::Reopen => {
                drop(w.take());
                f = k(d.open_file(&pet(name)))?;
                w = Some(k(f.writer())?);
            }
            Cut::Image => {
                drop(w.take());
                drop(f);
                match path {
                    None => {
                        let r = snap(&**d, g);
                        *d = load(&r);
                    }
                    Some(p) => {
                        *d = mem(g);
                        *d = cbm::disk::open(p, true).map_err(|e| e.to_string())?;
                    }
                }
                f = k(d.open_file(&pet(name)))?;
                w = Some(k(f.writer())?);
            }
        }
        if full {
            break;
        }
    }
    drop(w);
    Ok((done, full))
}
fn start_file(d: &mut Dk, existing: bool) -> Result<Option<Vec<u8>>, String> {
    if existing {
        return Ok(Some(b"OLD".to_vec()));
    }
    match d.create_file(&pet(b"N"), ftype(2), LScheme::Linear) {
        Ok(_) => Ok(Some(b"N".to_vec())),
        Err(e) if kind(&e) == "DiskFull" => Ok(None),
        Err(e) => Err(kind(&e)),
    }
}
fn cut_case(root: &Raw, cuts: &[Cut], existing: bool, file: Option<(&Scratch, &str)>, cov: &mut Cov) -> R {
    let g = root.g;
    let fail = |m: String| format!("{} {} with {:?}: {}", g.name(), if existing { "appending to OLD" } else { "writing a new file" }, cuts, m);
    let stamp = 4711;
    let mut d = match file {
        Some((s, n)) => file_disk(s, n, root, true).map_err(|e| e.to_string())?,
        None => load(root),
    };
    let name = match start_file(&mut d, existing).map_err(|e| fail(e))? {
        Some(n) => n,
        None => return Ok(()),
    };
    let old = snap(&*d, g).find(&name).map(|e| snap(&*d, g).chain_data(e.start()).unwrap()).unwrap();
    let path = file.map(|(s, n)| s.path(n));
    cov.step();
    let (n, full) = run_cuts(&mut d, g, path.as_deref(), &name, cuts, stamp).map_err(&fail)?;
    let got = shape(&snap(&*d, g), &name).map_err(&fail)?;
    // the same bytes in one go
    let mut d1 = load(root);
    start_file(&mut d1, existing).map_err(|e| fail(e))?;
    {
        let f = k(d1.open_file(&pet(&name)))?;
        let mut w = k(f.writer())?;
        let (m, e) = push(&mut *w, &content_at(stamp, 0, if full { n + 300 } else { n }));
        if m != n || e.is_some() != full {
            return Err(fail(format!("in pieces {} bytes were accepted ({}), in one go {} ({:?})", n, if full { "then the disk was full" } else { "all" }, m, e)));
        }
    }
    let one = shape(&snap(&*d1, g), &name).map_err(&fail)?;
    let mut want = old.clone();
    want.extend(content_at(stamp, 0, n));
    if got.0 != want {
        return Err(fail(format!("the file is wrong: {}", first_diff(&[got.0], &[want]))));
    }
    if got != one {
        return Err(fail(format!("the file differs from the one written in one go: blocks {:?} / {:?}", got.1, one.1)));
    }
    let rd = contents(&*d, &name).map_err(&fail)?;
    if rd != want {
        return Err(fail(format!("reads back differently: {}", first_diff(&[rd], &[want]))));
    }
    cov.state(fp(&[&got.0, &got.2]));
    cov.outcome(if full { "disk full" } else { "complete" });
    Ok(())
}
const LARGE: [usize; 10] = [4096, 16384, 32768, 65534, 65535, 65536, 65537, 131072, 300_000, 700_000];
const RSIZES: [usize; 9] = [0, 1, 2, 100, 253, 254, 255, 256, 600];
const FLENS: [usize; 12] = [0, 1, 2, 252, 253, 254, 255, 256, 508, 509, 1000, 1270];
fn c19(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    match p[0] {
        "fill" => return fills(Geo::by_name(p[1]), p[2].parse().unwrap(), cov),
        "write" => {
            let root = roots::root(p[1]);
            let al = c19_alpha();
            let first: usize = p[2].parse().unwrap();
            let depth: usize = p[3].parse().unwrap();
            for len in 1..=depth {
                let total = al.len().pow(len as u32 - 1);
                for c in 0..total {
                    let mut cuts = vec![al[first]];
                    let mut x = c;
                    for _ in 1..len {
                        cuts.push(al[x % al.len()]);
                        x /= al.len();
                    }
                    for existing in [false, true] {
                        cov.tick(|| format!("{} existing={} {:?}", p[1], existing, cuts));
                        if existing && root.find(b"OLD").is_none() {
                            continue;
                        }
                        cut_case(&root, &cuts, existing, None, cov)?;
                    }
                }
            }
        }
        "file" => {
            let root = roots::root(p[1]);
            let s = Scratch::new("cut");
            let n = format!("c.{}", root.g.ext());
            let al = c19_alpha();
            for a in &al {
                for b in &al {
                    let cuts = [*a, *b, Cut::W(100)];
                    for existing in [false, true] {
                        cov.tick(|| format!("{} file existing={} {:?}", p[1], existing, cuts));
                        if existing && root.find(b"OLD").is_none() {
                            continue;
                        }
                        cut_case(&root, &cuts, existing, Some((&s, &n)), cov)?;
                    }
                }
            }
        }
        "exact" => {
            let root = roots::root(p[1]);
            let part: usize = p[2].parse().unwrap();
            let lens: Vec<usize> = (0..=1020).filter(|n| n % 16 == part && (t.thorough() || n % 254 < 4 || n % 254 > 250 || n % 5 == 0)).collect();
            for n in lens {
                let mut pats: Vec<Vec<Cut>> = vec![vec![Cut::W(n)], vec![Cut::W(1); n.min(600)]];
                for b in [1usize, 253, 254, 255, 507, 508, 509, 762] {
                    if b < n {
                        pats.push(vec![Cut::W(b), Cut::W(n - b)]);
                        pats.push(vec![Cut::W(b), Cut::Flush, Cut::W(n - b)]);
                    }
                }
                for c in pats {
                    cov.tick(|| format!("{} {} bytes as {} calls", p[1], n, c.len()));
                    cut_case(&root, &c, false, None, cov)?;
                }
            }
        }
        "large" => {
            let root = roots::root(p[1]);
            let n = LARGE[p[2].parse::<usize>().unwrap()];
            if n / 254 + 4 > root.free_data().len() {
                return Ok(());
            }
            let mut pats = vec![vec![Cut::W(n)], vec![Cut::W(1), Cut::W(n - 1)], vec![Cut::W(n - 1), Cut::W(1)], vec![Cut::W(100), Cut::Flush, Cut::W(n)], vec![Cut::W(n), Cut::Image, Cut::W(300)]];
            for q in [512usize, 1024, 4096, 8192, 32768, 65535, 65536, 65537] {
                if q < n && n / q < 300 {
                    let mut c = vec![Cut::W(q); n / q];
                    c.push(Cut::W(n % q));
                    pats.push(c);
                }
            }
            for c in pats {
                cov.tick(|| format!("{} {} bytes as {} calls", p[1], n, c.len()));
                cut_case(&root, &c, false, None, cov)?;
            }
            let data = content(5, n);
            let mut r = root.clone();
            let b = r.pick_spread(Raw::need(&data), 1, 5);
            r.add_linear(b"N", 0x82, &b, &data);
            let d = load(&r);
            for q in [512usize, 1024, 4096, 8192, 32768, 65535, 65536, 65537, 131071, 131072, 140000] {
                cov.tick(|| format!("{} {} bytes read in steps of {}", p[1], n, q));
                cov.step();
                let f = k(d.open_file(&pet(b"N")))?;
                let got = read_cut(&mut *k(f.reader())?, &[q], n + 5).map_err(|e| format!("file of {} bytes read in steps of {}: {}", n, q, e))?;
                if got != data {
                    return Err(format!("file of {} bytes read in steps of {}: {}", n, q, first_diff(&[got], &[data.clone()])));
                }
            }
            cov.state(fp(&[&data]));
        }
        "read" => {
            let n = FLENS[p[1].parse::<usize>().unwrap()];
            let data = content(n as u32 + 3, n);
            let mut r = roots::mixed(G64);
            let b = r.pick_spread(Raw::need(&data), 17, 3);
            r.add_linear(b"N", 0x81, &b, &data);
            let b = r.pick_spread(Raw::need(&data), 17, 8);
            let i = r.pick_spread(1, 1, 100);
            r.add_seq(b"S", Some(i[0]), &b, &data);
            let d = load(&r);
            for a in RSIZES {
                for b in RSIZES {
                    for c in RSIZES {
                        if a + b + c == 0 {
                            continue;
                        }
                        cov.tick(|| format!("{} bytes read in steps of {:?}", n, [a, b, c]));
                        for name in [&b"N"[..], b"S"] {
                            cov.step();
                            let f = k(d.open_file(&pet(name)))?;
                            let got = read_cut(&mut *k(f.reader())?, &[a, b, c], n + 5).map_err(|e| format!("file of {} bytes read in steps of {:?}: {}", n, [a, b, c], e))?;
                            if got != data {
                                return Err(format!("file of {} bytes read in steps of {:?}: {}", n, [a, b, c], first_diff(&[got], &[data.clone()])));
                            }
                            let mut v = vec![];
                            k(k(f.reader())?.read_to_end(&mut v))?;
                            if v != data {
                                return Err(format!("file of {} bytes read to the end: wrong", n));
                            }
                        }
                    }
                }
            }
            cov.state(fp(&[&data]));
        }
        _ => {
            // a chain that breaks after some blocks: every byte before the break is delivered, then an error
            let n: usize = p[1].parse().unwrap();
            let good = n % 4; // intact blocks
            let how = n / 4;
            let data = content(9, (good + 1) * 254);
            let mut r = roots::mixed(G64);
            let b = r.pick_spread(good + 1, 17, 3);
            r.add_linear(b"N", 0x81, &b, &data);
            let last = *b.last().unwrap();
            let want: Vec<u8> = match how {
                0 => {
                    // the last block links outside the disk
                    r.sec_mut(last)[0] = 77;
                    r.sec_mut(last)[1] = 0;
                    data.clone()
                }
                1 => {
                    // the last block links back to the first
                    r.sec_mut(last)[0] = b[0].0;
                    r.sec_mut(last)[1] = b[0].1;
                    data.clone()
                }
                _ => {
                    // the last block claims to use no bytes at all
                    r.sec_mut(last)[0] = 0;
                    r.sec_mut(last)[1] = 0;
                    data[..good * 254].to_vec()
                }
            };
            let d = load(&r);
            for a in RSIZES {
                for b in RSIZES {
                    if a + b == 0 {
                        continue;
                    }
                    cov.tick(|| format!("damaged chain {} read in steps of {:?}", n, [a, b]));
                    cov.step();
                    let f = k(d.open_file(&pet(b"N")))?;
                    let mut rd = k(f.reader())?;
                    let mut v = vec![];
                    let mut i = 0;
                    let err = loop {
                        let sz = [a, b][i % 2];
                        i += 1;
                        let mut buf = vec![0; sz];
                        match rd.read(&mut buf) {
                            Ok(0) if sz > 0 => break None,
                            Ok(m) if m > sz => return Err(format!("damaged chain {}: read of {} bytes claims {}", n, sz, m)),
                            Ok(m) => v.extend_from_slice(&buf[..m]),
                            Err(e) => break Some(kind(&e)),
                        }
                        if v.len() > want.len() + 5 || i > 100000 {
                            return Err(format!("damaged chain {}: more bytes than the file has", n));
                        }
                    };
                    if err.is_none() {
                        return Err(format!("damaged chain {} read in steps of {:?}: no error is reported", n, [a, b]));
                    }
                    if v != want {
                        return Err(format!("damaged chain {} read in steps of {:?}: {} bytes delivered before the error instead of {}", n, [a, b], v.len(), want.len()));
                    }
                    cov.outcome(&err.unwrap());
                }
            }
            cov.state(fp(&[&want, &[how as u8]]));
        }
    }
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop { id: "C15", level: "model_checking", rule: "every record equals the corresponding slice of the data; inconsistent files are refused", bound: c15_bound, cases: c15_cases, run: c15 },
    &Prop { id: "C16", level: "model_checking", rule: "records equal the chains the index points to; the conversion stream equals an independent rendering for every read pattern", bound: c16_bound, cases: c16_cases, run: c16 },
    &Prop { id: "C18", level: "model_checking", rule: "every field decodes from and encodes to its documented bytes; every pixel is shown at its place", bound: c18_bound, cases: c18_cases, run: c18 },
    &Prop { id: "C19", level: "model_checking", rule: "files written in pieces equal those written in one go; every read pattern delivers the same bytes", bound: c19_bound, cases: c19_cases, run: c19 },
];
