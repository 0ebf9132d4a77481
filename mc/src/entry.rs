//! C12 directory entries, C14 formatting, C22 disk headers.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use crate::ts;
use crate::world::{Model, Op, World};
use cbm::disk::directory::{DirectoryEntry, Extra};
use cbm::disk::file::Scheme as LScheme;
use cbm::disk::Id;

// ------------------------------------------------------------------ C12
fn scheme_of(s: LScheme) -> Scheme {
    match s {
        LScheme::Linear => Scheme::Linear,
        LScheme::Relative => Scheme::Rel,
        LScheme::GEOSSequential => Scheme::Seq,
        LScheme::GEOSVLIR => Scheme::Vlir,
    }
}
/// The fields of a listed entry as the bytes they stand for.
fn as_bytes(e: &DirectoryEntry) -> Vec<u8> {
    let mut b = vec![0u8; 32];
    let a = &e.file_attributes;
    b[2] = ftype_byte(a.file_type) | (a.unused_bit as u8) << 4 | (a.save_with_replace_flag as u8) << 5 | (a.locked_flag as u8) << 6 | (a.closed_flag as u8) << 7;
    b[3] = e.first_sector.0;
    b[4] = e.first_sector.1;
    let n = e.filename.as_bytes();
    for i in 0..16 {
        b[5 + i] = *n.get(i).unwrap_or(&0xA0);
    }
    match &e.extra {
        Extra::Linear(x) => b[0x15..0x1e].copy_from_slice(&x.unused),
        Extra::Relative(x) => {
            b[0x15] = x.first_side_sector.0;
            b[0x16] = x.first_side_sector.1;
            b[0x17] = x.record_length;
            b[0x18..0x1e].copy_from_slice(&x.unused);
        }
        Extra::GEOS(x) => {
            b[0x15] = x.info_block.0;
            b[0x16] = x.info_block.1;
            b[0x17] = x.structure.to_byte();
            b[0x18] = x.geos_file_type.to_byte();
            b[0x19] = x.year;
            b[0x1a] = x.month;
            b[0x1b] = x.day;
            b[0x1c] = x.hour;
            b[0x1d] = x.minute;
        }
    }
    b[0x1e] = e.file_size as u8;
    b[0x1f] = (e.file_size >> 8) as u8;
    b
}
fn same_entry(e: &DirectoryEntry, w: &Ent) -> Result<(), String> {
    let got = as_bytes(e);
    if got[2..] != w.b[2..] {
        let i = (2..32).find(|i| got[*i] != w.b[*i]).unwrap();
        return Err(format!("the entry stored in block {:?} slot {} is listed with a wrong field: byte {:#04x} is {:02x}, the field says {:02x}", w.loc, w.idx, i, w.b[i], got[i]));
    }
    if e.filename.as_bytes() != &w.name()[..] {
        return Err(format!("name {:?} listed as {:?}", w.name(), e.filename.as_bytes()));
    }
    if scheme_of(e.scheme) != w.scheme() {
        return Err(format!("entry with bytes {:02x?} is listed as {:?} instead of {:?}", &w.b[2..], e.scheme, w.scheme()));
    }
    if !matches!((w.scheme(), &e.extra), (Scheme::Linear, Extra::Linear(_)) | (Scheme::Rel, Extra::Relative(_)) | (Scheme::Seq, Extra::GEOS(_)) | (Scheme::Vlir, Extra::GEOS(_))) {
        return Err(format!("entry with bytes {:02x?} has type-specific fields of another type", &w.b[2..]));
    }
    if e.is_geos_border() != w.border {
        return Err(format!("entry in block {:?} slot {} border flag is {}", w.loc, w.idx, e.is_geos_border()));
    }
    match &e.position {
        Some(p) if (p.location.0, p.location.1) == w.loc && p.offset as usize == w.idx * 32 => {}
        p => return Err(format!("entry in block {:?} slot {} is listed at position {:?}", w.loc, w.idx, p)),
    }
    Ok(())
}
/// Listing equals the stored entries; writing each back changes nothing.
fn list_check(d: &mut Dk, r: &Raw, write_back: Option<(Loc, usize)>) -> R {
    let want = r.entries().expect("harness: directory");
    let got = k(d.directory()).map_err(|e| format!("the directory cannot be listed: {}", e))?;
    if got.len() != want.len() {
        return Err(format!("{} entries listed, {} stored", got.len(), want.len()));
    }
    for (e, w) in got.iter().zip(&want) {
        same_entry(e, w)?;
    }
    // the same through iteration, step by step
    let mut n = 0;
    for e in d.as_ref() as &dyn cbm::disk::Disk {
        let e = k(e).map_err(|e| format!("stepping through the directory fails: {}", e))?;
        match want.get(n) {
            Some(w) => same_entry(&e, w)?,
            None => return Err(format!("stepping through the directory gives more than the {} entries stored", want.len())),
        }
        n += 1;
    }
    if n != want.len() {
        return Err(format!("stepping through the directory gives {} entries, {} stored", n, want.len()));
    }
    for (e, w) in got.iter().zip(&want) {
        if write_back.map_or(true, |x| x == (w.loc, w.idx)) {
            k(d.write_directory_entry(e)).map_err(|e| format!("writing an entry back fails: {}", e))?;
            if d.read_sector(ts!(d, w.loc)).unwrap() != r.sec(w.loc) {
                return Err(format!("writing the entry of block {:?} slot {} back unchanged changes the block", w.loc, w.idx));
            }
        }
    }
    if write_back.is_none() {
        if let Some(m) = diff_raw(r, &snap(&**d, r.g)) {
            return Err(format!("writing the entries back unchanged changes the image: {}", m));
        }
    }
    Ok(())
}

/// A disk with two directory blocks (linked in descending order) and a border block, several empty slots.
fn c12_root(g: Geo) -> Raw {
    let mut r = roots::geos(g);
    let n0 = r.entries().unwrap().iter().filter(|e| !e.border).count();
    for i in n0..8 {
        let b = r.pick(1);
        r.add_linear(format!("F{}", i).as_bytes(), 0x82, &b, &content(i as u32, 9));
    }
    // a second block at the far end, then a third one before it
    let t = g.dir_track();
    let far = g.spt(t) - 1;
    let mid = far / 2 + 1;
    let fd = g.first_dir();
    for l in [(t, far), (t, mid)] {
        r.take(l);
    }
    r.sec_mut(fd)[0] = t;
    r.sec_mut(fd)[1] = far;
    r.sec_mut((t, far))[0] = t;
    r.sec_mut((t, far))[1] = mid;
    r.sec_mut((t, mid))[1] = 0xff;
    for (l, slots) in [((t, far), [0usize, 2, 7]), ((t, mid), [1, 3, 6])] {
        for s in slots {
            let b = r.pick(1);
            r.put_chain(&b, &content(s as u32, 5));
            let e = Raw::entry_bytes(format!("S{}{}", l.1, s).as_bytes(), 0x81, b[0], &[0; 9], 1);
            r.sec_mut(l)[s * 32 + 2..s * 32 + 32].copy_from_slice(&e[2..]);
        }
    }
    r
}
fn c12_slots(g: Geo) -> Vec<(Loc, usize)> {
    let t = g.dir_track();
    let far = g.spt(t) - 1;
    let mid = far / 2 + 1;
    let b = match g.kind {
        Kind::D81 => (39, 39),
        _ => (19, 0),
    };
    vec![(g.first_dir(), 0), (g.first_dir(), 5), ((t, far), 0), ((t, far), 7), ((t, mid), 0), ((t, mid), 7), (b, 0), (b, 2), (b, 7)]
}
const EXTRAS: [[u8; 9]; 9] = [
    [0; 9],
    [9, 5, 100, 0, 0, 0, 0, 0, 0],
    [11, 3, 0, 4, 88, 7, 13, 14, 15],
    [11, 3, 1, 6, 88, 7, 13, 14, 15],
    [0, 0, 1, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 1, 0, 0, 0, 0, 0],
    [5, 6, 2, 9, 1, 2, 3, 4, 5],
    [0xff; 9],
    [0, 0, 0, 0, 1, 2, 3, 4, 5],
];
const NAMES: [&[u8]; 8] = [b"PLAIN", b"", b"ABCDEFGHIJKLMNOP", b"A\xA0B", b"\xA0X", b"\x00Z", b"0123456789ABCDE", b"\xff\xfe\x80\x01*?\"',"];

fn put_slot(d: &mut Dk, r: &mut Raw, at: (Loc, usize), e: &[u8]) {
    r.sec_mut(at.0)[at.1 * 32 + 2..at.1 * 32 + 32].copy_from_slice(&e[2..32]);
    let b = r.sec(at.0).to_vec();
    d.write_sector(ts!(d, at.0), &b).expect("write_sector");
}

fn c12_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    let gs: &[Geo] = t.pick(&[G64, G71, G81][..], &ALL_GEOS[..]);
    for g in gs {
        for s in 0..9 {
            v.push(format!("attr/{}/{}", g.name(), s));
            v.push(format!("bytes/{}/{}", g.name(), s));
            v.push(format!("edit/{}/{}", g.name(), s));
        }
        v.push(format!("scratch/{}", g.name()));
        v.push(format!("shape/{}", g.name()));
        v.push(format!("border/{}", g.name()));
    }
    v
}
fn c12_bound(t: Tier) -> String {
    format!(
        "{} formats x 9 slots in three directory blocks and the GEOS border block: all 256 attribute bytes x 9 type-specific patterns x 8 names; \
         every entry byte x {} values x 5 base entries; every single-field edit x {} values x 5 base entries; all 256 patterns of scratched slots per block; directories of every length in four link orders, full and sparse, without and with a border block, off and on the directory track; the border block on every track edge, zone edge and first/last sector of the disk",
        t.pick(3, 8), t.pick(64, 256), t.pick(64, 256)
    )
}
fn c12(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let g = Geo::by_name(p[1]);
    if p[0] == "shape" {
        return c12_shape(g, cov);
    }
    if p[0] == "border" {
        return c12_border(g, cov);
    }
    let mut r = c12_root(g);
    let mut d = load(&r);
    list_check(&mut d, &r, None)?;
    if p[0] == "scratch" {
        let t = g.dir_track();
        let far = g.spt(t) - 1;
        for l in [g.first_dir(), (t, far), c12_slots(g)[6].0] {
            let orig = r.clone();
            for m in 0..256u32 {
                cov.tick(|| format!("{} block {:?}: slots {:08b} in use", g.name(), l, m));
                cov.step();
                r = orig.clone();
                let b = r.sec_mut(l);
                for s in 0..8 {
                    let e = Raw::entry_bytes(format!("N{}", s).as_bytes(), if m >> s & 1 == 1 { 0x82 } else { [0u8, 0x60, 0x10][s % 3] }, (1, s as u8), &EXTRAS[s], s as u16);
                    b[s * 32 + 2..s * 32 + 32].copy_from_slice(&e[2..]);
                }
                let b = r.sec(l).to_vec();
                d.write_sector(ts!(d, l), &b).expect("write_sector");
                cov.state(fp(&[&b, &[l.0, l.1]]));
                list_check(&mut d, &r, None).map_err(|e| format!("{} block {:?} slots {:08b}: {}", g.name(), l, m, e))?;
            }
            r = orig;
            let b = r.sec(l).to_vec();
            d.write_sector(ts!(d, l), &b).expect("write_sector");
        }
        return Ok(());
    }
    let at = c12_slots(g)[p[2].parse::<usize>().unwrap()];
    let vals: Vec<u8> = if t.thorough() { (0..=255).collect() } else { (0..=255u8).filter(|x| x % 5 == 0 || x % 16 == 15 || *x < 6 || *x == 160).collect() };
    match p[0] {
        "attr" => {
            for a in 0..=255u8 {
                for (xi, x) in EXTRAS.iter().enumerate() {
                    let ni = (a as usize + xi) % 8;
                    let names: Vec<usize> = if t.thorough() { (0..8).collect() } else { vec![ni, (ni + 3) % 8] };
                    for n in names {
                        cov.tick(|| format!("{} slot {:?} attributes {:02x} extra {:02x?} name {:?}", g.name(), at, a, x, NAMES[n]));
                        cov.step();
                        let e = Raw::entry_bytes(NAMES[n], a, (17, 3), x, 0x1234);
                        put_slot(&mut d, &mut r, at, &e);
                        cov.state(fp(&[&e, &[at.0 .0, at.0 .1, at.1 as u8]]));
                        list_check(&mut d, &r, Some(at)).map_err(|m| format!("{} slot {:?} attributes {:02x} extra {:02x?} name {:?}: {}", g.name(), at, a, x, NAMES[n], m))?;
                    }
                }
            }
        }
        "bytes" => {
            for (bi, base) in bases().iter().enumerate() {
                for i in 2..32 {
                    for &v in &vals {
                        cov.tick(|| format!("{} slot {:?} base {} byte {:#04x} = {:02x}", g.name(), at, bi, i, v));
                        cov.step();
                        let mut e = base.clone();
                        e[i] = v;
                        put_slot(&mut d, &mut r, at, &e);
                        cov.state(fp(&[&e, &[at.0 .0, at.0 .1, at.1 as u8]]));
                        list_check(&mut d, &r, Some(at)).map_err(|m| format!("{} slot {:?} base {} byte {:#04x} = {:02x}: {}", g.name(), at, bi, i, v, m))?;
                    }
                }
            }
        }
        _ => {
            for (bi, base) in bases().iter().enumerate() {
                put_slot(&mut d, &mut r, at, base);
                let before = snap(&*d, g);
                for f in 0..FIELDS {
                    for &v in &vals {
                        let es = k(d.directory()).map_err(|e| format!("directory: {}", e))?;
                        let e0 = match es.iter().find(|e| e.position.as_ref().map_or(false, |p| (p.location.0, p.location.1) == at.0 && p.offset as usize == at.1 * 32)) {
                            Some(e) => e,
                            None => return Err(format!("{} slot {:?}: the entry is not listed", g.name(), at)),
                        };
                        let mut e = e0.clone();
                        let mut want = base.clone();
                        if !edit(&mut e, &mut want, f, v) {
                            break;
                        }
                        cov.tick(|| format!("{} slot {:?} base {} field {} value {:02x}", g.name(), at, bi, f, v));
                        cov.step();
                        k(d.write_directory_entry(&e)).map_err(|e| format!("writing an edited entry fails: {}", e))?;
                        let mut exp = before.clone();
                        exp.sec_mut(at.0)[at.1 * 32 + 2..at.1 * 32 + 32].copy_from_slice(&want[2..]);
                        let now = snap(&*d, g);
                        if let Some(m) = diff_raw(&exp, &now) {
                            return Err(format!("{} slot {:?} base {}: changing field {} to {:02x}: expected -> got: {}", g.name(), at, bi, FIELD_NAMES[f], v, m));
                        }
                        cov.state(fp(&[&want, &[at.0 .0, at.0 .1, at.1 as u8]]));
                        // restore
                        let b = before.sec(at.0).to_vec();
                        d.write_sector(ts!(d, at.0), &b).expect("write_sector");
                    }
                }
            }
        }
    }
    Ok(())
}
/// Directories of every possible length, linked in several orders, with and without entries in a border block.
fn c12_shape(g: Geo, cov: &mut Cov) -> R {
    let fd = g.first_dir();
    for (geos, here) in [(0u8, false), (1, false), (8, false), (1, true), (8, true)] {
        let last = g.spt(fd.0) - if here { 1 } else { 0 };
        let all: Vec<Loc> = (fd.1 + 1..last).map(|s| (fd.0, s)).collect();
        for order in 0..4usize {
            for n in 0..=all.len() {
                let mut chain: Vec<Loc> = all.clone();
                match order {
                    0 => {}
                    1 => chain.reverse(),
                    2 => chain.sort_by_key(|l| (l.1 % 3, l.1)),
                    _ => chain.sort_by_key(|l| l.1 as usize * 7 % all.len()),
                }
                chain.truncate(n);
                for fill in [8usize, 1, 0] {
                    let mut r = roots::fresh(g);
                    let border = if here { (fd.0, last) } else if g.kind == Kind::D81 { (39, 39) } else { (19, 0) };
                    if geos > 0 {
                        r.make_geos(border);
                    }
                    let mut blocks = vec![fd];
                    blocks.extend(&chain);
                    for l in &chain {
                        r.take(*l);
                    }
                    for (i, l) in blocks.iter().enumerate() {
                        let next = blocks.get(i + 1).copied().unwrap_or((0, 0xff));
                        let b = r.sec_mut(*l);
                        b[0] = next.0;
                        b[1] = next.1;
                        for s in 0..8 {
                            if (s + i) % 8 < fill {
                                let e = Raw::entry_bytes(format!("N{}.{}", i, s).as_bytes(), 0x81 + (s % 3) as u8, (1 + s as u8, i as u8 % 17), &EXTRAS[0], (i * 8 + s) as u16);
                                b[s * 32 + 2..s * 32 + 32].copy_from_slice(&e[2..]);
                            }
                        }
                    }
                    for s in 0..if geos > 0 { geos as usize } else { 0 } {
                        let s = if geos == 1 { 7 } else { s };
                        let e = Raw::entry_bytes(format!("B.{}", s).as_bytes(), 0x83, (2, s as u8), &EXTRAS[2], s as u16);
                        r.sec_mut(border)[s * 32 + 2..s * 32 + 32].copy_from_slice(&e[2..]);
                    }
                    cov.tick(|| format!("{} directory of {} blocks, order {}, {} entries per block, {} in the border block", g.name(), n + 1, order, fill, geos));
                    cov.step();
                    cov.state(fp(&[&r.d]));
                    let mut d = load(&r);
                    list_check(&mut d, &r, None).map_err(|e| format!("{} directory {:?} with {} entries per block, {} in the border block: {}", g.name(), blocks, fill, geos, e))?;
                }
            }
        }
    }
    Ok(())
}
/// The border block in every kind of place: entries in it are listed, and one edited through the library lands there and nowhere else.
fn c12_border(g: Geo, cov: &mut Cov) -> R {
    for l in crate::files::places(g) {
        for slot in [0usize, 7] {
            cov.tick(|| format!("{} border block {:?} slot {}", g.name(), l, slot));
            cov.step();
            let mut r = roots::fresh(g);
            r.make_geos(l);
            let e = Raw::entry_bytes(b"IN THE BORDER", 0x83, (2, 3), &EXTRAS[2], 77);
            r.sec_mut(l)[slot * 32 + 2..slot * 32 + 32].copy_from_slice(&e[2..]);
            cov.state(fp(&[&r.d]));
            let mut d = load(&r);
            let ctx = |m: String| format!("{} border block {:?} slot {}: {}", g.name(), l, slot, m);
            list_check(&mut d, &r, None).map_err(ctx)?;
            let es = k(d.directory()).map_err(|e| ctx(format!("directory: {}", e)))?;
            let mut x = es[0].clone();
            x.file_size = 0x0102;
            k(d.write_directory_entry(&x)).map_err(|e| ctx(format!("writing an edited entry fails: {}", e)))?;
            r.sec_mut(l)[slot * 32 + 0x1e] = 2;
            r.sec_mut(l)[slot * 32 + 0x1f] = 1;
            if let Some(m) = diff_raw(&r, &snap(&*d, g)) {
                return Err(ctx(format!("changing the block count: expected -> got: {}", m)));
            }
        }
    }
    Ok(())
}
fn bases() -> Vec<Vec<u8>> {
    vec![
        Raw::entry_bytes(b"LINEAR", 0x82, (17, 3), &[0; 9], 300),
        Raw::entry_bytes(b"RELATIVE", 0xC4, (20, 1), &[19, 18, 77, 1, 2, 3, 4, 5, 6], 0xABCD),
        Raw::entry_bytes(b"GEOS SEQ", 0x83, (1, 0), &[12, 13, 0, 4, 99, 12, 31, 23, 59], 1),
        Raw::entry_bytes(b"ABCDEFGHIJKLMNOP", 0xA3, (33, 16), &[30, 2, 1, 14, 1, 1, 1, 0, 0], 0xFFFF),
        Raw::entry_bytes(b"ODD", 0x95, (250, 251), &[7, 7, 200, 0xff, 7, 6, 5, 4, 3], 0),
    ]
}
const FIELDS: usize = 20;
const FIELD_NAMES: [&str; FIELDS] = [
    "file type", "unused bit", "save-with-replace", "locked", "closed", "start track", "start sector", "name", "size low", "size high", "extra 0", "extra 1", "extra 2",
    "extra 3", "extra 4", "extra 5", "extra 6", "extra 7", "extra 8", "name length",
];
/// Change one field of the entry and the bytes that should stand for it; false: not applicable (any more).
fn edit(e: &mut DirectoryEntry, w: &mut Vec<u8>, f: usize, v: u8) -> bool {
    fn bit(b: &mut u8, m: u8, on: bool) {
        if on {
            *b |= m
        } else {
            *b &= !m
        }
    }
    let on = v & 1 == 1;
    match f {
        0 => {
            e.file_attributes.file_type = ftype(v);
            w[2] = w[2] & 0xf0 | v & 0x0f;
        }
        1 => {
            e.file_attributes.unused_bit = on;
            bit(&mut w[2], 0x10, on);
        }
        2 => {
            e.file_attributes.save_with_replace_flag = on;
            bit(&mut w[2], 0x20, on);
        }
        3 => {
            e.file_attributes.locked_flag = on;
            bit(&mut w[2], 0x40, on);
        }
        4 => {
            e.file_attributes.closed_flag = on;
            bit(&mut w[2], 0x80, on);
        }
        5 => {
            e.first_sector.0 = v;
            w[3] = v;
        }
        6 => {
            e.first_sector.1 = v;
            w[4] = v;
        }
        7 => {
            let n = [v, v.wrapping_add(1), b'N'];
            e.filename = pet(&n);
            for i in 0..16 {
                w[5 + i] = *n.get(i).unwrap_or(&0xA0);
            }
        }
        19 => {
            if v > 16 {
                return false;
            }
            let n = content(v as u32, v as usize);
            e.filename = pet(&n);
            for i in 0..16 {
                w[5 + i] = *n.get(i).unwrap_or(&0xA0);
            }
        }
        8 => {
            e.file_size = e.file_size & 0xff00 | v as u16;
            w[0x1e] = v;
        }
        9 => {
            e.file_size = e.file_size & 0xff | (v as u16) << 8;
            w[0x1f] = v;
        }
        _ => {
            let i = f - 10;
            use cbm::disk::geos::{GEOSFileStructure, GEOSFileType};
            match &mut e.extra {
                Extra::Linear(x) => x.unused[i] = v,
                Extra::Relative(x) => match i {
                    0 => x.first_side_sector.0 = v,
                    1 => x.first_side_sector.1 = v,
                    2 => x.record_length = v,
                    i => x.unused[i - 3] = v,
                },
                Extra::GEOS(x) => match i {
                    0 => x.info_block.0 = v,
                    1 => x.info_block.1 = v,
                    2 => x.structure = GEOSFileStructure::from_byte(v),
                    3 => x.geos_file_type = GEOSFileType::from_byte(v),
                    4 => x.year = v,
                    5 => x.month = v,
                    6 => x.day = v,
                    7 => x.hour = v,
                    _ => x.minute = v,
                },
            }
            w[0x15 + i] = v;
        }
    }
    true
}

// ------------------------------------------------------------------ C14
fn previous(g: Geo, n: usize) -> (&'static str, Raw) {
    match n {
        0 => ("blank", Raw::blank(g)),
        1 => ("all ff", Raw { g, d: vec![0xff; g.size()] }),
        2 => ("noise", Raw { g, d: content(31337, g.size()) }),
        3 => ("formatted", roots::fresh(g)),
        4 => ("files of every kind", roots::mixed(g)),
        5 => ("GEOS", roots::geos(g)),
        6 => ("full", roots::nearfull(g, 0)),
        _ => ("directory full", roots::dirfill(g, roots::dirblocks(g), 0)),
    }
}
const C14_NAMES: [&[u8]; 6] = [b"NAME", b"\x00\x01\x02", b"A\xA0B", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"GEOS format V1.0", b"\xA0\xA0"];
fn c14_cases(_t: Tier) -> Vec<String> {
    let mut v = vec![];
    for g in ALL_GEOS {
        for p in 0..8 {
            v.push(format!("{}/{}", g.name(), p));
        }
    }
    v
}
fn c14_bound(t: Tier) -> String {
    format!(
        "8 image kinds x 8 previous contents x names of every length 0..=19 and 6 special names x {} ids, in memory and on a file, once and twice in a row, with and without an operation between",
        t.pick(5, 5)
    )
}
fn c14(case: &str, t: Tier, cov: &mut Cov) -> R {
    let (gn, pn) = case.split_once('/').unwrap();
    let g = Geo::by_name(gn);
    let (what, prev) = previous(g, pn.parse().unwrap());
    let mut names: Vec<Vec<u8>> = (0..=19).map(|n| (0..n).map(|i| b'A' + i as u8).collect()).collect();
    names.extend(C14_NAMES.iter().map(|n| n.to_vec()));
    let ids: [&[u8]; 5] = [b"ID", b"", b"X", b"\xff\x00", b"LONG"];
    let s = Scratch::new("fmt");
    for (ni, name) in names.iter().enumerate() {
        for (ii, id) in ids.iter().enumerate() {
            if !t.thorough() && ii > 0 && ni % 5 != ii {
                continue;
            }
            let on_file = (ni + ii) % 7 == 0;
            cov.tick(|| format!("{} {} formatted as {:?},{:?}{}", g.name(), what, name, id, if on_file { " (file)" } else { "" }));
            let fail = |m: String| format!("{} {} formatted as {:?},{:?}: {}", g.name(), what, name, id, m);
            let fname = format!("f.{}", g.ext());
            let mut d = if on_file { file_disk(&s, &fname, &prev, true).map_err(|e| fail(e.to_string()))? } else { load(&prev) };
            let vb = if name.len() > 16 { view(&*d) } else { vec![] };
            let res = k(d.write_format(&pet(name), &Id::from_bytes(id)));
            cov.step();
            cov.outcome(if res.is_ok() { "formatted" } else { "refused" });
            let now = if on_file { Raw { g, d: std::fs::read(s.path(&fname)).unwrap() } } else { snap(&*d, g) };
            cov.state(fp(&[&now.d]));
            if name.len() > 16 {
                match res {
                    Err(e) if e == "FilenameTooLong" => {}
                    x => return Err(fail(format!("a name that does not fit gives {:?}", x))),
                }
                if let Some(m) = diff_raw(&prev, &now) {
                    return Err(fail(format!("the refused call changed the image: {}", m)));
                }
                diff_views(&vb, &view(&*d), "before", "after the refused call").map_err(fail)?;
                continue;
            }
            res.map_err(|e| fail(format!("fails with {}", e)))?;
            let id2 = [*id.first().unwrap_or(&0), *id.get(1).unwrap_or(&0)];
            let mut want = Raw::format(g, name, &id2);
            // not pinned: the bytes in front of the 1581 allocation entries
            if g.kind == Kind::D81 {
                for sct in [1, 2] {
                    let x = now.sec((40, sct))[..16].to_vec();
                    want.sec_mut((40, sct))[..16].copy_from_slice(&x);
                }
            }
            if g.err {
                let n = g.nblocks() * 256;
                want.d[n..].copy_from_slice(&prev.d[n..]);
            }
            if let Some(m) = diff_raw(&want, &now) {
                return Err(fail(format!("not a standard empty disk: expected -> got: {}", m)));
            }
            let free = k(d.blocks_free()).map_err(|e| fail(e))?;
            let std = match g.kind {
                Kind::D64 => 664,
                Kind::D71 => 1328,
                Kind::D81 => 3160,
            };
            if free != std {
                return Err(fail(format!("{} blocks free instead of {}", free, std)));
            }
            let v = k(d.validate()).map_err(|e| fail(e))?;
            if !v.is_empty() {
                return Err(fail(format!("validation reports {:?}", v)));
            }
            diff_views(&view(&*d), &view(&*load(&now)), "live object", "fresh open").map_err(fail)?;
            if ii == 0 {
                // the disk is usable, and formatting it again gives the same disk
                k(d.create_file(&pet(b"X"), ftype(2), LScheme::Linear).map(|_| ())).map_err(|e| fail(format!("creating a file afterwards: {}", e)))?;
                let p = snap(&*d, g).problems();
                if !p.is_empty() {
                    return Err(fail(format!("after creating a file: {}", p.join("; "))));
                }
                k(d.write_format(&pet(name), &Id::from_bytes(id))).map_err(|e| fail(format!("formatting again: {}", e)))?;
                cov.step();
                if let Some(m) = diff_raw(&now, &snap(&*d, g)) {
                    return Err(fail(format!("the second formatting depends on the previous contents: {}", m)));
                }
                diff_views(&view(&*d), &view(&*load(&now)), "live object after the second formatting", "fresh open").map_err(fail)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
fn c22_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for g in ALL_GEOS {
        if t.thorough() || !g.err {
            for c in 0..8 {
                v.push(format!("read/{}/{}", g.name(), c));
            }
        }
        for root in ["mixed", "geos", "odd", "junk", "geosjunk"] {
            v.push(format!("edit/{}/{}", g.name(), root));
        }
        for root in ["fresh", "mixed", "geos", "junk"] {
            if t.thorough() || !g.err && !(root == "mixed" && g.kind == Kind::D81) && !(root == "fresh" && g.kind == Kind::D71) {
                for f in 0..H22.len() {
                    v.push(format!("hist/{}/{}/{}/{}", g.name(), root, f, if t.thorough() { 5 } else { 4 }));
                }
            }
        }
    }
    v
}
/// Header edits between the other operations on the same disk object.
#[derive(Clone, Debug)]
enum Hop {
    Name(&'static [u8]),
    Id(u8, u8),
    Bytes(u8, u8, u8),
    Flush,
    Format,
    File(Op),
}
const H22: [Hop; 11] = [
    Hop::Name(b"NEW NAME"),
    Hop::Name(b"SIXTEEN BYTES NN"),
    Hop::Id(b'#', 0xA0),
    Hop::Bytes(b'Z', b'9', b'q'),
    Hop::Flush,
    Hop::Format,
    Hop::File(Op::Put("A", 2, 700)),
    Hop::File(Op::App("A", 300)),
    Hop::File(Op::Del("A")),
    Hop::File(Op::Init),
    Hop::File(Op::Reopen),
];
/// All sequences of header edits, flushes, file operations, formatting and reopening: the header on the
/// image holds what was last flushed (or formatted), the live header what was last set, and the allocation
/// map what the files need.
/// A header block whose undocumented bytes hold something.
fn junk(mut r: Raw) -> Raw {
    let g = r.g;
    let geos = r.geos();
    let known = |i: usize| {
        i < 4
            || (g.name_off()..g.name_off() + 16).contains(&i)
            || [g.id_off(), g.id_off() + 1, g.ver_off(), g.fmt_off()].contains(&i)
            || g.pads().contains(&i)
            || in_map(g, i)
            || geos && (0xAB..0xBD).contains(&i)
    };
    let h = r.sec_mut(g.header());
    for i in 0..256 {
        if !known(i) {
            h[i] = 0x81 ^ (i as u8).wrapping_mul(7);
        }
    }
    r
}
fn in_map(g: Geo, i: usize) -> bool {
    match g.kind {
        Kind::D64 => (4..0x90).contains(&i),
        Kind::D71 => (4..0x90).contains(&i) || i >= 0xdd,
        Kind::D81 => false,
    }
}
fn c22_hist(g: Geo, rootname: &str, first: usize, depth: usize, cov: &mut Cov) -> R {
    let root = match rootname {
        "fresh" => roots::fresh(g),
        "mixed" => roots::mixed(g),
        "junk" => junk(roots::mixed(g)),
        _ => roots::geos(g),
    };
    let m = Model::from_raw(&root);
    let in_map = |i: usize| in_map(g, i);
    let mut seq = vec![first];
    loop {
        // run the sequence
        {
            let mut w = World::new(&root, &m);
            let mut disk = root.sec(g.header()).to_vec();
            let mut live = disk.clone();
            for i in &seq {
                let fail = |w: &World, x: String| format!("{}/{} [{}; {:?}] {}", g.name(), rootname, w.trace.join("; "), H22[*i], x);
                match &H22[*i] {
                    Hop::File(op) => {
                        w.apply(op);
                        if matches!(op, Op::Init | Op::Reopen) {
                            live = disk.clone();
                        }
                    }
                    Hop::Flush => {
                        k(w.disk.flush_header()).map_err(|e| fail(&w, format!("flush fails: {}", e)))?;
                        w.trace.push("Flush".into());
                        for q in g.pads() {
                            live[*q] = 0xA0;
                        }
                        disk = live.clone();
                    }
                    Hop::Format => {
                        k(w.disk.write_format(&pet(b"EMPTY"), &Id::from_bytes(b"EE"))).map_err(|e| fail(&w, format!("formatting fails: {}", e)))?;
                        w.trace.push("Format".into());
                        let f = Raw::format(g, b"EMPTY", b"EE");
                        w.m = Model::from_raw(&f);
                        disk = f.sec(g.header()).to_vec();
                        live = disk.clone();
                    }
                    edit => {
                        let h = k(w.disk.header_mut()).map_err(|e| format!("{}/{} header: {}", g.name(), rootname, e))?;
                        match edit {
                            Hop::Name(n) => {
                                h.disk_name = pet(n);
                                for i in 0..16 {
                                    live[g.name_off() + i] = *n.get(i).unwrap_or(&0xA0);
                                }
                            }
                            Hop::Id(a, b) => {
                                h.disk_id[0] = *a;
                                h.disk_id[1] = *b;
                                live[g.id_off()] = *a;
                                live[g.id_off() + 1] = *b;
                            }
                            Hop::Bytes(t, v, f) => {
                                h.disk_format_type = *t;
                                h.directory_dos_version = *v;
                                h.directory_format_type = *f;
                                live[2] = *t;
                                live[g.ver_off()] = *v;
                                live[g.fmt_off()] = *f;
                            }
                            _ => unreachable!(),
                        }
                        w.trace.push(format!("{:?}", edit));
                    }
                }
            }
            cov.tick(|| format!("{}/{} {}", g.name(), rootname, w.trace.join("; ")));
            cov.step();
            let fail = |x: String| format!("{}/{} [{}] {}", g.name(), rootname, w.trace.join("; "), x);
            let now = w.raw();
            cov.state(fp(&[&now.d, &live]));
            let h = now.sec(g.header());
            if let Some(i) = (0..256).find(|i| !in_map(*i) && h[*i] != disk[*i]) {
                return Err(fail(format!("header block byte {:#04x} is {:02x}, last flushed was {:02x}", i, h[i], disk[i])));
            }
            let p = now.problems();
            if !p.is_empty() {
                return Err(fail(p.join("; ")));
            }
            w.files_ok_on(&*load(&now))?;
            check_header(&load(&now), &now).map_err(|e| fail(format!("next opener: {}", e)))?;
            let mut l = now.clone();
            for i in 0..256 {
                if !in_map(i) {
                    l.sec_mut(g.header())[i] = live[i];
                }
            }
            check_header(&w.disk, &l).map_err(|e| fail(format!("live object: {}", e)))?;
        }
        // next sequence
        if seq.len() < depth {
            seq.push(0);
            continue;
        }
        loop {
            if seq.len() == 1 {
                return Ok(());
            }
            let n = seq.last_mut().unwrap();
            *n += 1;
            if *n < H22.len() {
                break;
            }
            seq.pop();
        }
    }
}
fn c22_bound(t: Tier) -> String {
    format!(
        "decoding: {} image kinds x every byte of the header block x all 256 values; editing: 8 image kinds x 5 disks (also with every undocumented header byte set) x all subsets of 6 fields x 2 value sets, \
         x names of every length 0..=18, x all 256 values of each one-byte field; histories: all sequences of up to {} of {} header edits, flushes, file operations, \
         formatting and reopening on {} disks",
        t.pick(4, 8), t.pick(4, 5), H22.len(), t.pick(14, 32)
    )
}
fn check_header(d: &Dk, r: &Raw) -> R {
    let g = r.g;
    let h = r.sec(g.header());
    if g.kind == Kind::D71 && h[3] != 0x80 {
        return match d.header() {
            Err(_) => Ok(()),
            Ok(_) => Err("a 1571 header without the double-sided flag is accepted".into()),
        };
    }
    let x = k(d.header()).map_err(|e| format!("header: {}", e))?;
    let got = (x.first_directory_sector.0, x.first_directory_sector.1, x.disk_format_type, strip(x.disk_name.as_bytes()), [x.disk_id[0], x.disk_id[1]], x.directory_dos_version, x.directory_format_type);
    let want = (h[0], h[1], h[2], strip(&h[g.name_off()..g.name_off() + 16]), [h[g.id_off()], h[g.id_off() + 1]], h[g.ver_off()], h[g.fmt_off()]);
    if got != want {
        return Err(format!("header decoded as {:?}, stored is {:?}", got, want));
    }
    if d.name().map(|n| strip(n.as_bytes())) != Some(want.3.clone()) {
        return Err(format!("the disk name is reported as {:?}, stored is {:?}", d.name(), want.3));
    }
    match (&x.geos, r.border()) {
        (None, None) => {}
        (Some(gh), Some(b)) => {
            let mut id = [0u8; 16];
            gh.id.to_bytes(&mut id);
            if (gh.border.0, gh.border.1) != b || id != h[0xAD..0xAD + 16] {
                return Err(format!("GEOS identification decoded as {:?} {:?}", gh.border, id));
            }
        }
        (a, b) => return Err(format!("GEOS identification: decoded {}, stored {}", a.is_some(), b.is_some())),
    }
    if k(d.disk_format()).map(|f| f.geos) != Ok(r.geos()) {
        return Err("the disk format does not agree with the GEOS identification".into());
    }
    Ok(())
}
fn c22(case: &str, _t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let g = Geo::by_name(p[1]);
    if p[0] == "hist" {
        return c22_hist(g, p[2], p[3].parse().unwrap(), p[4].parse().unwrap(), cov);
    }
    if p[0] == "read" {
        let part: usize = p[2].parse().unwrap();
        for root in [roots::mixed(g), roots::geos(g)] {
            let mut d = load(&root);
            for i in (0..256).filter(|i| i % 8 == part) {
                for v in 0..=255u8 {
                    let mut r = root.clone();
                    r.sec_mut(g.header())[i] = v;
                    cov.tick(|| format!("{} header byte {:#04x} = {:02x}", g.name(), i, v));
                    cov.step();
                    let b = r.sec(g.header()).to_vec();
                    d.write_sector(ts!(d, g.header()), &b).expect("write_sector");
                    d.initialize();
                    cov.state(fp(&[&b]));
                    check_header(&d, &r).map_err(|e| format!("{} header byte {:#04x} = {:02x}: {}", g.name(), i, v, e))?;
                }
                d.write_sector(ts!(d, g.header()), root.sec(g.header())).expect("write_sector");
            }
        }
        return Ok(());
    }
    let root = match p[2] {
        "mixed" => roots::mixed(g),
        "geos" => roots::geos(g),
        "junk" => junk(roots::mixed(g)),
        "geosjunk" => junk(roots::geos(g)),
        _ => {
            // unusual stored values: unpadded fields, other version and format bytes
            let mut r = roots::geos(g);
            let name = g.name_off();
            let h = r.sec_mut(g.header());
            h[0] = 77;
            h[1] = 88;
            h[2] = 0;
            for i in 0..16 {
                h[name + i] = i as u8;
            }
            for q in g.pads() {
                h[*q] = 0x31;
            }
            h[g.ver_off()] = b'9';
            h[g.fmt_off()] = 0xA0;
            r
        }
    };
    #[derive(Clone, Debug)]
    enum Ed {
        Dir(u8, u8),
        Type(u8),
        Name(Vec<u8>),
        Id(u8, u8),
        Ver(u8),
        Fmt(u8),
    }
    let mut sets: Vec<Vec<Ed>> = vec![];
    for m in 0..64u32 {
        for alt in [false, true] {
            let all = if alt {
                vec![Ed::Dir(1, 2), Ed::Type(b'Z'), Ed::Name(b"ABCDEFGHIJKLMNOP".to_vec()), Ed::Id(0xA0, 0), Ed::Ver(0xff), Ed::Fmt(0)]
            } else {
                vec![Ed::Dir(0, 0xff), Ed::Type(0), Ed::Name(b"N".to_vec()), Ed::Id(b'x', b'y'), Ed::Ver(b'4'), Ed::Fmt(b'B')]
            };
            sets.push(all.into_iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1).collect());
        }
    }
    for n in 0..=18 {
        sets.push(vec![Ed::Name((0..n).map(|i| b'a' + i as u8).collect())]);
    }
    for v in 0..=255u8 {
        sets.push(vec![Ed::Type(v)]);
        sets.push(vec![Ed::Ver(v)]);
        sets.push(vec![Ed::Fmt(v)]);
        sets.push(vec![Ed::Id(v, !v)]);
        sets.push(vec![Ed::Name(vec![v, b'Q'])]);
    }
    for set in sets {
        cov.tick(|| format!("{} {} {:?}", g.name(), p[2], set));
        cov.step();
        let fail = |m: String| format!("{} {} edits {:?}: {}", g.name(), p[2], set, m);
        let mut d = load(&root);
        let before: Vec<String> = view(&*d);
        let mut want = root.clone();
        let mut refused = false;
        {
            let h = k(d.header_mut()).map_err(fail)?;
            let w = want.sec_mut(g.header());
            for e in &set {
                match e {
                    Ed::Dir(a, b) => {
                        h.first_directory_sector.0 = *a;
                        h.first_directory_sector.1 = *b;
                        w[0] = *a;
                        w[1] = *b;
                    }
                    Ed::Type(v) => {
                        h.disk_format_type = *v;
                        w[2] = *v;
                    }
                    Ed::Name(n) => {
                        h.disk_name = pet(n);
                        refused = n.len() > 16;
                        for i in 0..16 {
                            w[g.name_off() + i] = *n.get(i).unwrap_or(&0xA0);
                        }
                    }
                    Ed::Id(a, b) => {
                        h.disk_id[0] = *a;
                        h.disk_id[1] = *b;
                        w[g.id_off()] = *a;
                        w[g.id_off() + 1] = *b;
                    }
                    Ed::Ver(v) => {
                        h.directory_dos_version = *v;
                        w[g.ver_off()] = *v;
                    }
                    Ed::Fmt(v) => {
                        h.directory_format_type = *v;
                        w[g.fmt_off()] = *v;
                    }
                }
            }
            for q in g.pads() {
                w[*q] = 0xA0;
            }
        }
        let res = k(d.flush_header());
        let now = snap(&*d, g);
        cov.state(fp(&[now.sec(g.header())]));
        if refused {
            if res != Err("FilenameTooLong".into()) {
                return Err(fail(format!("a name that does not fit gives {:?}", res)));
            }
            if let Some(m) = diff_raw(&root, &now) {
                return Err(fail(format!("the refused flush changed the image: {}", m)));
            }
            continue;
        }
        res.map_err(|e| fail(format!("flush fails: {}", e)))?;
        if let Some(m) = diff_raw(&want, &now) {
            return Err(fail(format!("expected -> got: {}", m)));
        }
        check_header(&d, &now).map_err(|e| fail(format!("live object: {}", e)))?;
        let fresh = load(&now);
        check_header(&fresh, &now).map_err(|e| fail(format!("next opener: {}", e)))?;
        // everything but the header lines is as before
        let after = view(&*fresh);
        let cut = |v: &[String]| -> Vec<String> { v.iter().filter(|l| !l.starts_with("header ") && !l.starts_with("shown ") && !l.starts_with("name ")).cloned().collect() };
        diff_views(&cut(&before), &cut(&after), "before", "after the header edit").map_err(fail)?;
    }
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop { id: "C12", level: "model_checking", rule: "the listing equals the stored entries field by field and in order; writing back is the identity; a one-field edit changes only that field's bytes", bound: c12_bound, cases: c12_cases, run: c12 },
    &Prop { id: "C14", level: "model_checking", rule: "the formatted image equals the standard empty disk of the format model, independent of previous contents; refused names change nothing", bound: c14_bound, cases: c14_cases, run: c14 },
    &Prop { id: "C22", level: "model_checking", rule: "header fields decode from and encode to the documented bytes; nothing else changes", bound: c22_bound, cases: c22_cases, run: c22 },
];
