//! C10: geometry.  Every track/sector pair of every image kind, every image size, every way to create.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use cbm::disk::{self, Disk, DiskType, D64, D71, D81};
use std::path::Path;

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for g in ALL_GEOS {
        v.push(format!("map/{}", g.name()));
        v.push(format!("memory/{}", g.name()));
        v.push(format!("create/{}", g.name()));
        v.push(format!("near/{}", g.name()));
    }
    v.push("ext".into());
    for i in 0..t.pick(8, 64) {
        v.push(format!("sizes/{}/{}", i, t.pick(8, 64)));
    }
    v
}
fn bound(t: Tier) -> String {
    format!(
        "8 image kinds x all 65536 track/sector pairs (read, write and whole-image comparison per valid block), x buffer lengths 0,1,255,257,512; blocks filled with each byte value; \
         image sizes {} without extension, every size within 40 of a supported one with every extension; create x (new, existing shorter/longer/equal) x create_new",
        t.pick("all multiples of 256 and 257 up to 900000", "all multiples of 256 and 257 and all multiples of 7 up to 900000")
    )
}

/// A recognisable image: every block and the error table differ.
fn pattern(g: Geo) -> Raw {
    Raw { g, d: content(4242, g.size()) }
}

fn map(g: Geo, cov: &mut Cov) -> R {
    let s = Scratch::new("geo");
    let mut img = pattern(g);
    let n = format!("i.{}", g.ext());
    let mut d = file_disk(&s, &n, &img, true).map_err(|e| format!("{}: cannot open: {}", g.name(), e))?;
    let p = s.path(&n);
    for t in 0..=255u8 {
        for sc in 0..=255u8 {
            let l = ts!(d, (t, sc));
            match g.off(t, sc) {
                None => {
                    cov.step();
                    if t > g.tracks || sc > 45 {
                        cov.alive();
                    } else {
                        cov.tick(|| format!("{} invalid ({},{})", g.name(), t, sc));
                    }
                    match d.read_sector(l) {
                        Err(e) if kind(&e) == "InvalidLocation" => {}
                        Err(e) => return Err(format!("{}: reading ({},{}) gives {} instead of InvalidLocation", g.name(), t, sc, kind(&e))),
                        Ok(_) => return Err(format!("{}: reading the non-existent block ({},{}) succeeds", g.name(), t, sc)),
                    }
                    if d.write_sector(l, &[7; 256]).is_ok() || d.blocks_ref().sector(l).is_ok() || d.blocks_ref_mut().sector_mut(l).is_ok() {
                        return Err(format!("{}: the non-existent block ({},{}) can be accessed", g.name(), t, sc));
                    }
                }
                Some(o) => {
                    cov.tick(|| format!("{} block ({},{})", g.name(), t, sc));
                    cov.step();
                    let r = k(d.read_sector(l)).map_err(|e| format!("{}: reading ({},{}) fails: {}", g.name(), t, sc, e))?;
                    if r != img.d[o..o + 256] {
                        return Err(format!("{}: ({},{}) does not read the bytes at offset {:#x}", g.name(), t, sc, o));
                    }
                    for len in [0usize, 1, 255, 257, 512] {
                        if d.write_sector(l, &vec![9; len]).is_ok() {
                            return Err(format!("{}: writing {} bytes to ({},{}) succeeds", g.name(), len, t, sc));
                        }
                    }
                    let new = content(o as u32 + 1, 256);
                    k(d.write_sector(l, &new)).map_err(|e| format!("{}: writing ({},{}) fails: {}", g.name(), t, sc, e))?;
                    img.d[o..o + 256].copy_from_slice(&new);
                    let file = std::fs::read(&p).expect("image file");
                    if file != img.d {
                        let f = Raw { g, d: file };
                        return Err(format!("{}: writing ({},{}) changed the image elsewhere or not at all: {}", g.name(), t, sc, diff_raw(&img, &f).unwrap_or("length".into())));
                    }
                    if d.read_sector(l).ok().as_deref() != Some(&new[..]) {
                        return Err(format!("{}: ({},{}) does not read back what was written", g.name(), t, sc));
                    }
                    cov.state(fp(&[&[t, sc], g.name().as_bytes()]));
                }
            }
        }
    }
    if std::fs::read(&p).expect("image file") != img.d {
        return Err(format!("{}: refused accesses changed the image", g.name()));
    }
    // the error table
    let end = g.nblocks() * 256;
    {
        let b = d.blocks_ref();
        let e = k(b.error_table()).map_err(|e| format!("{}: error table: {}", g.name(), e))?;
        match (g.err, e) {
            (true, Some(e)) if e == &img.d[end..] => {}
            (false, None) => {}
            _ => return Err(format!("{}: wrong error table", g.name())),
        }
    }
    {
        let mut b = d.blocks_ref_mut();
        if let Some(e) = k(b.error_table_mut()).map_err(|e| format!("{}: error table: {}", g.name(), e))? {
            for x in e.iter_mut() {
                *x ^= 0x5a;
            }
        }
    }
    for x in &mut img.d[end..] {
        *x ^= 0x5a;
    }
    drop(d);
    if std::fs::read(&p).expect("image file") != img.d {
        return Err(format!("{}: editing the error table went elsewhere", g.name()));
    }
    Ok(())
}

/// In-memory images: zeroed, and every block is separate storage.
fn memory(g: Geo, cov: &mut Cov) -> R {
    let mut d = mem(g);
    let z = snap(&*d, g);
    if z.d.iter().any(|b| *b != 0) {
        return Err(format!("{}: a new in-memory image is not zeroed", g.name()));
    }
    let want = pattern(g);
    let blocks = g.blocks();
    // forwards, then every block must still hold its own data; backwards with other data likewise
    for pass in 0..2u32 {
        for i in 0..blocks.len() {
            let (t, s) = if pass == 0 { blocks[i] } else { blocks[blocks.len() - 1 - i] };
            cov.tick(|| format!("{} memory ({},{}) pass {}", g.name(), t, s, pass));
            cov.step();
            let o = g.off(t, s).unwrap();
            let mut data = want.d[o..o + 256].to_vec();
            if pass == 1 {
                data.reverse();
            }
            k(d.write_sector(ts!(d, (t, s)), &data)).map_err(|e| format!("{}: writing ({},{}): {}", g.name(), t, s, e))?;
        }
        for (t, s) in &blocks {
            let o = g.off(*t, *s).unwrap();
            let mut data = want.d[o..o + 256].to_vec();
            if pass == 1 {
                data.reverse();
            }
            if d.read_sector(ts!(d, (*t, *s))).ok() != Some(data) {
                return Err(format!("{}: in-memory block ({},{}) lost its data", g.name(), t, s));
            }
        }
    }
    // data of one value only, over other data
    for v in 0..=255u8 {
        let (t, s) = blocks[v as usize * 7 % blocks.len()];
        cov.tick(|| format!("{} memory ({},{}) filled with {:02x}", g.name(), t, s, v));
        for data in [vec![v; 256], content(v as u32, 256), [vec![v; 128], content(9, 128)].concat(), [content(9, 128), vec![v; 128]].concat()] {
            k(d.write_sector(ts!(d, (t, s)), &data)).map_err(|e| format!("{}: writing ({},{}): {}", g.name(), t, s, e))?;
            if d.read_sector(ts!(d, (t, s))).ok().as_deref() != Some(&data[..]) {
                return Err(format!("{}: block ({},{}) written with {:02x?}... reads differently", g.name(), t, s, &data[..4]));
            }
        }
    }
    if g.err {
        let b = d.blocks_ref();
        match b.error_table() {
            Ok(Some(e)) if e.len() == g.nblocks() && e.iter().all(|x| *x == 0) => {}
            _ => return Err(format!("{}: the error table of an in-memory image was disturbed or has the wrong size", g.name())),
        }
    }
    Ok(())
}

fn kind_of(d: &dyn Disk) -> Kind {
    match d.native_disk_format().last_track {
        35 => Kind::D64,
        70 => Kind::D71,
        _ => Kind::D81,
    }
}
fn expect(size: usize, ext: &str) -> Option<Geo> {
    let k = match ext.to_lowercase().as_str() {
        "d64" => Some(Kind::D64),
        "d71" => Some(Kind::D71),
        "d81" => Some(Kind::D81),
        _ => None,
    };
    ALL_GEOS.iter().copied().find(|g| g.size() == size && k.map(|k| k == g.kind).unwrap_or(true))
}
fn try_open(p: &Path, size: usize, ext: &str, writable: bool) -> R {
    let want = expect(size, ext);
    match (disk::open(p, writable), want) {
        (Ok(d), Some(g)) => {
            if kind_of(&*d) != g.kind {
                return Err(format!("size {} extension {:?}: opened as {:?} instead of {}", size, ext, kind_of(&*d), g.name()));
            }
            let last = (g.tracks, g.spt(g.tracks) - 1);
            if d.read_sector(ts!(d, last)).is_err() || d.read_sector(ts!(d, (g.tracks + 1, 0u8))).is_ok() {
                return Err(format!("size {} extension {:?}: wrong number of tracks", size, ext));
            }
            let b = d.blocks_ref();
            if b.error_table().map(|e| e.map(|e| e.len())).ok() != Some(if g.err { Some(g.nblocks()) } else { None }) {
                return Err(format!("size {} extension {:?}: wrong error table", size, ext));
            }
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(d), None) => Err(format!("size {} extension {:?}: accepted as {:?}", size, ext, kind_of(&*d))),
        (Err(e), Some(g)) => Err(format!("size {} extension {:?}: {} image refused: {}", size, ext, g.name(), kind(&e))),
    }
}
fn sizes(part: usize, parts: usize, t: Tier, cov: &mut Cov) -> R {
    let s = Scratch::new("geo");
    let p = s.path("image");
    let f = std::fs::File::create(&p).expect("scratch");
    for size in 1..900_000usize {
        if size % 256 != 0 && size % 257 != 0 && !(t.thorough() && size % 7 == 0) {
            continue;
        }
        if size % parts != part {
            continue;
        }
        cov.tick(|| format!("size {} no extension", size));
        cov.step();
        f.set_len(size as u64).expect("scratch");
        try_open(&p, size, "", size % 2 == 0)?;
        if std::fs::metadata(&p).expect("scratch").len() != size as u64 {
            return Err(format!("opening an image of {} bytes changed its size", size));
        }
        cov.state(size as u64);
    }
    Ok(())
}
const EXTS: &[&str] = &["", "d64", "D64", "d71", "D71", "d81", "D81", "d82", "img", "prg", "d640", "64", "d6"];
fn near(g: Geo, cov: &mut Cov) -> R {
    let s = Scratch::new("geo");
    for ext in EXTS {
        let p = s.path(&if ext.is_empty() { "image".to_string() } else { format!("image.{}", ext) });
        let f = std::fs::File::create(&p).expect("scratch");
        for size in g.size() - 40..=g.size() + 40 {
            cov.tick(|| format!("size {} extension {:?}", size, ext));
            cov.step();
            f.set_len(size as u64).expect("scratch");
            try_open(&p, size, ext, true)?;
            try_open(&p, size, ext, false)?;
            cov.state(fp(&[&(size as u64).to_le_bytes(), ext.as_bytes()]));
        }
        drop(f);
        if std::fs::read(&p).expect("scratch").iter().any(|b| *b != 0) {
            return Err(format!("{}: opening changed the image", g.name()));
        }
    }
    Ok(())
}
fn exts(cov: &mut Cov) -> R {
    // every extension of up to three characters over a small alphabet, plus case variants
    let al: Vec<char> = "dDtg6847128 1".chars().filter(|c| *c != ' ').collect();
    let mut all: Vec<String> = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..3 {
        cur = cur.iter().flat_map(|p| al.iter().map(move |c| format!("{}{}", p, c))).collect();
        all.extend(cur.iter().cloned());
    }
    for e in all {
        for name in [format!("x.{}", e), format!("a.d64.{}", e), e.clone(), format!("dir.d81/x.{}", e)] {
            cov.tick(|| format!("name {}", name));
            cov.step();
            let ext = Path::new(&name).extension().map(|s| s.to_string_lossy().to_lowercase()).unwrap_or_default();
            let want = match ext.as_str() {
                "d64" => "D64",
                "d71" => "D71",
                "d81" => "D81",
                _ => "none",
            };
            let got = match DiskType::from_extension(&name) {
                Some(DiskType::D64) => "D64",
                Some(DiskType::D71) => "D71",
                Some(DiskType::D81) => "D81",
                None => "none",
            };
            if got != want {
                return Err(format!("file name {:?} is taken for {} instead of {}", name, got, want));
            }
            cov.state(fp(&[name.as_bytes()]));
        }
    }
    Ok(())
}
fn mk(g: Geo, p: &Path, new: bool) -> std::io::Result<Dk> {
    Ok(match g.kind {
        Kind::D64 => Box::new(D64::create(p, if g.tracks == 40 { D64::geometry_40_tracks(g.err) } else { D64::geometry(g.err) }, new)?),
        Kind::D71 => Box::new(D71::create(p, D71::geometry(g.err), new)?),
        Kind::D81 => Box::new(D81::create(p, D81::geometry(g.err), new)?),
    })
}
fn create(g: Geo, cov: &mut Cov) -> R {
    let s = Scratch::new("geo");
    let gsize = match g.kind {
        Kind::D64 if g.tracks == 40 => D64::geometry_40_tracks(g.err).size(),
        Kind::D64 => D64::geometry(g.err).size(),
        Kind::D71 => D71::geometry(g.err).size(),
        Kind::D81 => D81::geometry(g.err).size(),
    };
    if gsize != g.size() {
        return Err(format!("{}: geometry size is {} instead of {}", g.name(), gsize, g.size()));
    }
    for ext in ["", ".d64", ".d71", ".d81", ".img"] {
        for old in [None, Some(0usize), Some(1), Some(g.size() - 1), Some(g.size()), Some(g.size() + 1), Some(1_000_000)] {
            for new in [false, true] {
                cov.tick(|| format!("create {} ext {:?} existing {:?} create_new {}", g.name(), ext, old, new));
                cov.step();
                let p = s.path(&format!("c{}", ext));
                let _ = std::fs::remove_file(&p);
                let before = old.map(|n| content(5, n));
                if let Some(b) = &before {
                    std::fs::write(&p, b).expect("scratch");
                }
                let r = mk(g, &p, new);
                if new && old.is_some() {
                    if r.is_ok() {
                        return Err(format!("{}: create with create_new replaced an existing file", g.name()));
                    }
                    if std::fs::read(&p).ok() != before {
                        return Err(format!("{}: a refused create changed the existing file", g.name()));
                    }
                    cov.outcome("refused");
                    continue;
                }
                let mut d = r.map_err(|e| format!("{}: create fails: {}", g.name(), e))?;
                let f = std::fs::read(&p).expect("created file");
                if f.len() != g.size() || f.iter().any(|b| *b != 0) {
                    return Err(format!("{}: create (existing {:?}) yields {} bytes, expected {} zero bytes", g.name(), old, f.len(), g.size()));
                }
                k(d.write_format(&pet(b"N"), &disk::Id::from_bytes(b"ID"))).map_err(|e| format!("{}: the created image cannot be formatted: {}", g.name(), e))?;
                let f = std::fs::read(&p).expect("created file");
                if f != snap(&*d, g).d {
                    return Err(format!("{}: the created file is not the live image", g.name()));
                }
                cov.state(fp(&[&f, ext.as_bytes()]));
                cov.outcome("created");
            }
        }
    }
    Ok(())
}
fn run(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    match p[0] {
        "map" => map(Geo::by_name(p[1]), cov),
        "memory" => memory(Geo::by_name(p[1]), cov),
        "create" => create(Geo::by_name(p[1]), cov),
        "near" => near(Geo::by_name(p[1]), cov),
        "ext" => exts(cov),
        "sizes" => sizes(p[1].parse().unwrap(), p[2].parse().unwrap(), t, cov),
        _ => panic!("case {}", case),
    }
}

pub static PROPS: &[&Prop] = &[&Prop {
    id: "C10",
    level: "model_checking",
    rule: "every block address of every image kind enumerated against the standard layout, whole image compared after each write; all sizes and creation modes",
    bound,
    cases,
    run,
}];
