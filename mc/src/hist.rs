//! Properties decided by exploring all operation histories up to a depth: C01 C02 C03 C04 C13 C21 C23.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use crate::world::*;
use cbm::disk::file::FileOps;

const LONG16: &str = "ABCDEFGHIJKLMNOP";
const LONG17: &str = "ABCDEFGHIJKLMNOPQ";

fn alpha_general() -> Vec<Op> {
    use Op::*;
    vec![
        Create("A", 2), Put("A", 2, 254), Put("B", 1, 700), Put("OLD", 2, 10), App("A", 1), App("A", 600), App("OLD", 255),
        App("REL", 5), App("VLIR", 5), Del("A"), Del("OLD"), Del("REL"), Del("GSEQ"), Del("VLIR"), Del("BORD"), Ren("A", "B"),
        Ren("OLD", "A"), Ren("REL", "A"), Ren("VLIR", "B"), Reopen, Init, Create("D", 0), Put("D", 0, 300), Del("D"), Ren("D", "OLD"),
        Pieces("A", 2, &[254, 100]), Pieces("B", NO_TYPE, &[1, 253, 254, 1]), Pieces("OLD", NO_TYPE, &[162, 254, 3]),
    ]
}
fn alpha_core() -> Vec<Op> {
    use Op::*;
    vec![
        Create("A", 2), Put("A", 2, 254), Put("B", 3, 509), App("A", 255), App("OLD", 255), Del("A"), Del("B"), Del("OLD"),
        Ren("A", "B"), Ren("OLD", "A"), Reopen, Init, Churn(9), Create("D", 0), Pieces("A", 2, &[508, 1, 253, 1]), Pieces("A", NO_TYPE, &[254, 254]),
    ]
}
fn alpha_space() -> Vec<Op> {
    use Op::*;
    vec![
        Create("A", 2), Create("B", 2), Create("OLD", 2), Put("OLD", 1, 5), Create(LONG17, 2), Put("C", 1, 1), Put("A", 2, 254), Put("B", 3, 2000), App("A", 254), App("A", 1_000_000), App("OLD", 209),
        App("OLD", 900), Pieces("OLD", NO_TYPE, &[207, 5]), Del("A"), Del("B"), Del("OLD"), Del("F1"), Del("BORD"), Reopen, Init,
    ]
}
fn alpha_big() -> Vec<Op> {
    use Op::*;
    vec![
        Put("A", 2, 255 * 254), Put("A", 2, 256 * 254 + 1), Put("B", 1, 70_000), Put("C", 3, 150_000), App("A", 254), App("B", 66_000), App("OLD", 65_024), App("OLD", 140_000),
        Pieces("C", NO_TYPE, &[254 * 40, 254 * 300, 1]), Del("A"), Del("B"), Del("C"), Del("OLD"), Ren("A", "D"), Reopen, Init,
    ]
}
/// A file handle is kept open across other operations.
fn alpha_kept() -> Vec<Op> {
    use Op::*;
    vec![
        Keep("K", 2), Keep("OLD", NO_TYPE), Keep("REL", NO_TYPE), Keep("VLIR", NO_TYPE), Keep("GSEQ", NO_TYPE), KApp(100), KApp(600), KRead, KDel,
        App("OLD", 300), Ren("OLD", "X"), Ren("VLIR", "V2"), Put("B", 1, 300), Del("OLD"), Init,
    ]
}
/// Contents that are all zero, all ones, or equal to what was stored (and deleted) before.
fn alpha_fill() -> Vec<Op> {
    use Op::*;
    vec![
        Create("A", 2), Fill("A", 2, 0, 254), Fill("A", NO_TYPE, 0, 1), Fill("A", NO_TYPE, 0, 300), Fill("A", NO_TYPE, 255, 254), Fill("B", 1, 256, 600), Fill("C", 3, 256, 600), Fill("B", NO_TYPE, 256, 254),
        Fill("OLD", NO_TYPE, 0, 163), Fill("OLD", NO_TYPE, 0, 2), App("A", 100), Del("A"), Del("B"), Del("C"), Reopen, Init,
    ]
}
fn alpha_names() -> Vec<Op> {
    use Op::*;
    vec![
        Create("A", 2), Create("a", 2), Create("AB", 1), Create("", 2), Create(LONG16, 2), Create(LONG17, 2), Create("OLD", 2), Put("OLD", 1, 300), Put("B", 1, 300),
        Ren("A", "B"), Ren("A", "A"), Ren("A", "AB"), Ren("OLD", "A"), Ren("OLD", LONG16), Ren("OLD", LONG17), Ren("A", LONG17), Ren("REL", "R2"),
        Ren("VLIR", "OLD"), Ren("VLIR", "V2"), Ren("GSEQ", "A"), Ren("BORD", "BB"), Ren("NOPE", "X"), Ren("NOPE", LONG17), Del("A"), Del("OLD"), Reopen,
    ]
}
const NAMES: &[&str] = &["A", "B", "C", "a", "AB", "", "OLD", "REL", "VLIR", "GSEQ", "BORD", "R2", "V2", "BB", "NOPE", LONG16, "LOCK", "OL", "OLD2", "D", "SPLAT", "K", "X"];

/// (root, alphabet, depth) combinations as case strings "root/alpha/first/depth".
fn mk(list: &[(&str, &str, usize)]) -> Vec<String> {
    let mut v = vec![];
    for (root, alpha, depth) in list {
        for i in 0..alphabet(alpha).len() {
            v.push(format!("{}/{}/{}/{}", root, alpha, i, depth));
        }
    }
    v
}
fn alphabet(n: &str) -> Vec<Op> {
    match n {
        "general" | "general-file" => alpha_general(),
        "core" | "core-file" => alpha_core(),
        "space" => alpha_space(),
        "big" => alpha_big(),
        "names" => alpha_names(),
        "kept" => alpha_kept(),
        "fill" | "fill-file" => alpha_fill(),
        _ => panic!("alphabet {}", n),
    }
}
fn go(case: &str, before: u8, cov: &mut Cov, check: &mut dyn FnMut(&mut World, &Op, &mut Cov) -> R) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let root = roots::root(p[0]);
    let s = if p[1].ends_with("-file") { Some(Scratch::new("hist")) } else { None };
    explore(&root, &alphabet(p[1]), p[2].parse().unwrap(), p[3].parse().unwrap(), before, s.as_ref(), cov, check)
}

fn general_roots(t: Tier) -> Vec<(&'static str, &'static str, usize)> {
    let d = t.pick(3, 4);
    let mut v = vec![
        ("geos@d64", "general", d), ("mixed@d71", "general", t.pick(2, 3)), ("geos@d81", "general", t.pick(2, 3)), ("mixed@d64x40e", "general", t.pick(2, 3)),
        ("recycled@d64", "general", d), ("geos@d71e", "general", 2), ("geosfull@d64", "general", t.pick(1, 2)), ("geosfull@d81", "general", 1), ("geosdir@d81", "core", 2), ("geosdir@d64", "core", t.pick(1, 2)),
        ("fresh@d64", "core", d), ("dir7@d64", "core", d), ("dir8@d64", "core", d), ("frag@d64", "core", 3), ("fresh@d71", "core", t.pick(2, 3)),
        ("dir8@d71", "core", t.pick(2, 3)), ("dir8@d81", "core", t.pick(2, 3)), ("frag@d71", "core", 2), ("frag@d81", "core", 2), ("fresh@d64x40", "core", 3),
        ("mixed@d64", "fill", t.pick(3, 4)), ("recycled@d64", "fill", t.pick(3, 4)), ("fresh@d71", "fill", 3), ("fresh@d81", "fill", t.pick(2, 3)), ("recycled@d71", "fill-file", t.pick(2, 3)),
        ("geos@d64", "kept", t.pick(3, 4)), ("geos@d71", "kept", t.pick(3, 4)), ("geos@d81", "kept", 3), ("odd@d64", "general", t.pick(2, 3)), ("odd@d71", "core", 2), ("odd@d81", "core", 2), ("fresh@d64", "big", 2), ("big@d71", "big", t.pick(2, 3)), ("big@d81", "big", t.pick(2, 3)),
        ("geos@d64", "general-file", t.pick(1, 2)), ("mixed@d71e", "general-file", t.pick(1, 2)), ("mixed@d81", "general-file", t.pick(1, 2)),
    ];
    if t.thorough() {
        v.extend_from_slice(&[("fresh@d64", "core", 5), ("dirlast8@d64", "core", 4), ("dir8@d81", "core", 4), ("dir8@d64", "core", 5), ("mixed@d64", "core", 5)]);
    }
    v
}
fn bound_general(t: Tier) -> String {
    bound_of(&general_roots(t))
}
fn bound_of(v: &[(&str, &str, usize)]) -> String {
    v.iter().map(|(r, a, d)| format!("{} x all sequences of 1..={} of {} operations ({})", r, d, alphabet(a).len(), a)).collect::<Vec<_>>().join("; ")
}

fn c01_cases(t: Tier) -> Vec<String> {
    let mut v = mk(&general_roots(t));
    for g in ["d64", "d71", "d81"] {
        for i in 0..8 {
            v.push(format!("fill/{}/{}", g, i));
        }
    }
    v
}
fn c01(case: &str, _t: Tier, cov: &mut Cov) -> R {
    if let Some(x) = case.strip_prefix("fill/") {
        let (g, i) = x.split_once('/').unwrap();
        return crate::files::fills(Geo::by_name(g), i.parse().unwrap(), cov);
    }
    go(case, 0, cov, &mut |w, op, _| {
        if matches!(op, Op::Reopen | Op::Init) || w.result_ok() {
        } else {
            return Err(format!("{} {}", w.ctx(), w.result_msg()));
        }
        w.files_ok()?;
        let r = w.raw();
        w.raw_files_ok(&r)?;
        w.names_gone(NAMES)
    })
}

fn consistent(w: &World, r: &Raw) -> R {
    let p = r.problems();
    if !p.is_empty() {
        return Err(format!("{} image inconsistent: {}", w.ctx(), p[..p.len().min(5)].join("; ")));
    }
    let free = k(w.disk.blocks_free()).map_err(|e| format!("{} blocks free: {}", w.ctx(), e))?;
    if free != r.free_data().len() {
        return Err(format!("{} reports {} blocks free, the allocation map has {}", w.ctx(), free, r.free_data().len()));
    }
    let v = k(w.disk.validate()).map_err(|e| format!("{} validation fails: {}", w.ctx(), e))?;
    if !v.is_empty() {
        return Err(format!("{} validation reports {:?} on a consistent image", w.ctx(), v));
    }
    Ok(())
}
fn c02_cases(t: Tier) -> Vec<String> {
    let mut v = mk(&general_roots(t));
    for g in ["d64", "d64x40e", "d71", "d81"] {
        for tr in 1..=Geo::by_name(g).dos_tracks() {
            v.push(format!("map/{}/{}", g, tr));
        }
    }
    v
}
/// Explicit edits of the allocation map: all sequences of up to three claims and releases of one block
/// (also of blocks already in that state), alone and followed by one on a second block of the track.
fn c02_map(g: Geo, tr: u8, cov: &mut Cov) -> R {
    let n = g.spt(tr);
    for root in [roots::fresh(g), roots::geos(g)] {
        let mut d = load(&root);
        for s in 0..n {
            for code in 0..2 + 4 + 8 + 4 {
                let ops: Vec<(u8, bool)> = match code {
                    0..=1 => vec![(s, code & 1 == 1)],
                    2..=5 => (0..2).map(|i| (s, code - 2 >> i & 1 == 1)).collect(),
                    6..=13 => (0..3).map(|i| (s, code - 6 >> i & 1 == 1)).collect(),
                    _ => vec![(s, code & 1 == 1), ((s + 1) % n, code & 2 == 2)],
                };
                cov.tick(|| format!("{} track {} map edits {:?} (true: release)", g.name(), tr, ops));
                for l in g.bam_sectors() {
                    let x = ts!(d, l);
                    k(d.write_sector(x, root.sec(l)))?;
                }
                d.initialize();
                let mut want = root.clone();
                let ctx = format!("{} geos={} track {}: after the map edits (sector, release) {:?}", g.name(), root.geos(), tr, ops);
                let bam = k(d.bam())?;
                for (s, free) in &ops {
                    cov.step();
                    let l = ts!(d, (tr, *s));
                    let r = if *free { bam.borrow_mut().free(l) } else { bam.borrow_mut().allocate(l) };
                    k(r).map_err(|e| format!("{}: {}", ctx, e))?;
                    want.set_free(tr, *s, *free);
                    let (f, b, m) = g.bam(tr);
                    let bits: u32 = want.d[b..b + m].iter().map(|x| x.count_ones()).sum();
                    want.d[f] = bits as u8;
                    let live = k(bam.borrow().entry(tr).map(|e| (e.free_sectors, e.sector_map)))?;
                    if live.0 as u32 != bits {
                        return Err(format!("{}: the track counts {} free blocks, the map has {}", ctx, live.0, bits));
                    }
                }
                k(bam.borrow_mut().flush()).map_err(|e| format!("{}: flush: {}", ctx, e))?;
                let mut now = want.clone();
                for l in g.bam_sectors() {
                    now.sec_mut(l).copy_from_slice(k(d.blocks_ref().sector(ts!(d, l)))?);
                }
                if code == 0 || code == 17 {
                    now = snap(&*d, g);
                }
                cov.state(fp(&[&now.d]));
                if let Some(x) = diff_raw(&want, &now) {
                    return Err(format!("{}: image (expected -> found): {}", ctx, x));
                }
                drop(bam);
                let live = k(d.blocks_free())?;
                d.initialize();
                let free = want.free_data().len();
                for (n, x) in [("live", live), ("reopened", k(d.blocks_free())?)] {
                    if x != free {
                        return Err(format!("{}: {} disk reports {} blocks free, the map has {}", ctx, n, x, free));
                    }
                }
            }
        }
    }
    Ok(())
}
fn c02(case: &str, _t: Tier, cov: &mut Cov) -> R {
    if let Some(x) = case.strip_prefix("map/") {
        let (g, t) = x.split_once('/').unwrap();
        return c02_map(Geo::by_name(g), t.parse().unwrap(), cov);
    }
    go(case, 0, cov, &mut |w, _, _| {
        let r = w.raw();
        consistent(w, &r)
    })
}

fn c03_cases(t: Tier) -> Vec<String> {
    let mut v = mk(&general_roots(t));
    for g in ALL_GEOS {
        v.push(format!("fh/{}", g.name()));
    }
    v
}
fn c03(case: &str, t: Tier, cov: &mut Cov) -> R {
    if let Some(g) = case.strip_prefix("fh/") {
        return c03_format_header(Geo::by_name(g), t, cov);
    }
    go(case, 0, cov, &mut |w, _, _| {
        let r = w.raw();
        if let Some(p) = &w.path {
            let file = std::fs::read(p).expect("image file");
            if file != r.d {
                return Err(format!("{} the image file differs from the live image: {}", w.ctx(), diff_raw(&r, &Raw { g: r.g, d: file }).unwrap_or_default()));
            }
            let d = cbm::disk::open(p, false).map_err(|e| format!("{} cannot open afresh: {}", w.ctx(), e))?;
            w.files_ok_on(&*d).map_err(|e| format!("in the image opened afresh: {}", e))?;
            return diff_views(&view(&*w.disk), &view(&*d), "live disk object", "fresh open of the file").map_err(|e| format!("{} {}", w.ctx(), e));
        }
        let fresh = load(&r);
        w.files_ok_on(&*fresh).map_err(|e| format!("in the image opened afresh: {}", e))?;
        diff_views(&view(&*w.disk), &view(&*fresh), "live disk object", "fresh open").map_err(|e| format!("{} {}", w.ctx(), e))
    })
}
fn c03_format_header(g: Geo, _t: Tier, cov: &mut Cov) -> R {
    // format and header edits in all orders, on every previous content
    let prev = [Raw::blank(g), roots::fresh(g), roots::geos(g), Raw { g, d: vec![0xA5; g.size()] }];
    for (pi, p) in prev.iter().enumerate() {
        for seq in 0..4 * 4 * 4 {
            let ops = [seq % 4, seq / 4 % 4, seq / 16];
            cov.tick(|| format!("{} previous={} ops={:?}", g.name(), pi, ops));
            let mut d = load(p);
            for o in ops {
                cov.step();
                match o {
                    0 => k(d.write_format(&pet(b"NEW NAME"), &cbm::disk::Id::from_bytes(b"7Z"))).map_err(|e| format!("format fails: {}", e))?,
                    1 => {
                        if let Ok(h) = d.header_mut() {
                            h.disk_name = pet(b"CHANGED");
                            h.disk_id = cbm::disk::Id::from_bytes(b"QQ");
                            k(d.flush_header()).map_err(|e| format!("flush_header fails: {}", e))?;
                        }
                    }
                    2 => {
                        if d.header().is_ok() && pi != 3 {
                            let _ = d.create_file(&pet(b"F"), ftype(2), cbm::disk::file::Scheme::Linear);
                        }
                    }
                    _ => {
                        if let Ok(mut f) = d.open_file(&pet(b"F")) {
                            let _ = f.delete();
                        }
                    }
                }
                let r = snap(&*d, g);
                cov.state(fp(&[&r.d]));
                let f = load(&r);
                diff_views(&view(&*d), &view(&*f), "live disk object", "fresh open").map_err(|e| format!("{} previous={} ops={:?} (after {}): {}", g.name(), pi, ops, o, e))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
fn space_roots(t: Tier) -> Vec<(&'static str, &'static str, usize)> {
    let d = t.pick(3, 4);
    vec![
        ("full@d64", "space", d), ("free1@d64", "space", d), ("free2@d64", "space", d), ("free3@d64", "space", d), ("dirfull@d64", "space", d),
        ("dirlast@d64", "space", t.pick(2, 3)), ("dirlast8@d64", "space", t.pick(2, 3)), ("free2@d71", "space", 2), ("free2@d81", "space", 2), ("free2@d64x40", "space", 2),
        ("dirlast8@d71", "space", 2), ("dirlast8@d81", "space", 2), ("fresh@d64", "space", t.pick(2, 3)),
        ("geosfull@d64", "space", 2), ("geosfull@d71", "space", t.pick(1, 2)), ("geosfull@d81", "space", t.pick(1, 2)),
    ]
}
fn c04_cases(t: Tier) -> Vec<String> {
    let mut v = mk(&space_roots(t));
    for g in ["d64", "d64x40", "d71", "d81"] {
        let g = Geo::by_name(g);
        for tr in 1..=g.dos_tracks() {
            v.push(format!("one/{}/{}", g.name(), tr));
        }
        v.push(format!("dirs/{}", g.name()));
    }
    v
}
fn c04(case: &str, t: Tier, cov: &mut Cov) -> R {
    if case.starts_with("one/") {
        return c04_one(case, t, cov);
    }
    if let Some(g) = case.strip_prefix("dirs/") {
        return c04_dirs(Geo::by_name(g), cov);
    }
    go(case, 0, cov, &mut |w, op, _| {
        if !matches!(op, Op::Reopen | Op::Init) && !w.result_ok() {
            return Err(format!("{} {}", w.ctx(), w.result_msg()));
        }
        w.files_ok()?;
        let r = w.raw();
        w.raw_files_ok(&r)?;
        consistent(w, &r)
    })
}
/// Exactly one or two free data blocks, at every position: they are usable, and no others.
fn c04_one(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let g = Geo::by_name(p[1]);
    let tr: u8 = p[2].parse().unwrap();
    if tr == g.dir_track() || tr == g.reserved_track() {
        cov.tick(|| "no data blocks".into());
        return Ok(());
    }
    let base = roots::fresh(g);
    let all = base.free_data();
    for geos in [false, true] {
        for s in 0..g.spt(tr) {
            // partners for the second block: none, and a spread over the whole disk
            let mut partners: Vec<Option<Loc>> = vec![None];
            let step = t.pick(211, 7);
            partners.extend(all.iter().skip(((tr as usize) * 3 + s as usize) % step).step_by(step).map(|l| Some(*l)));
            for q in partners {
                if q == Some((tr, s)) {
                    continue;
                }
                let mut keep = vec![(tr, s)];
                keep.extend(q);
                // mark everything else allocated, without owners: allocation only looks at the map
                let mut r = base.clone();
                if geos {
                    let h = r.g.header();
                    r.sec_mut(h)[0xAB] = 1;
                    r.sec_mut(h)[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
                }
                for tt in 1..=g.dos_tracks() {
                    if tt == g.dir_track() {
                        continue;
                    }
                    let (f, b, n) = g.bam(tt);
                    r.d[f] = 0;
                    for x in &mut r.d[b..b + n] {
                        *x = 0;
                    }
                }
                for l in &keep {
                    r.set_free(l.0, l.1, true);
                }
                cov.tick(|| format!("{} geos={} free {:?}", g.name(), geos, keep));
                cov.step();
                let mut d = load(&r);
                let ctx = format!("{} geos={} only {:?} free", g.name(), geos, keep);
                let f = k(d.create_file(&pet(b"A"), ftype(2), cbm::disk::file::Scheme::Linear)).map_err(|e| format!("{}: creation fails with {}", ctx, e))?;
                let data = content(5, 254 * keep.len() + 1);
                let mut w = k(f.writer()).map_err(|e| format!("{}: writer: {}", ctx, e))?;
                let (n, e) = push(&mut *w, &data);
                if n != 254 * keep.len() || e.as_deref() != Some("DiskFull") {
                    return Err(format!("{}: wrote {} bytes of {} possible, then {:?}", ctx, n, 254 * keep.len(), e));
                }
                drop(w);
                let now = snap(&*d, g);
                let e = now.find(b"A").ok_or_else(|| format!("{}: file not in the image", ctx))?;
                let mut b = now.file_blocks(&e).map_err(|x| format!("{}: {:?}", ctx, x))?;
                b.sort();
                keep.sort();
                if b != keep || !now.free_data().is_empty() || e.size() as usize != keep.len() {
                    return Err(format!("{}: file occupies {:?} (entry says {}), still free {:?}", ctx, b, e.size(), now.free_data()));
                }
                if now.chain_data(e.start()).map_err(|x| format!("{}: {:?}", ctx, x))? != data[..n] {
                    return Err(format!("{}: contents differ", ctx));
                }
                match d.create_file(&pet(b"B"), ftype(2), cbm::disk::file::Scheme::Linear) {
                    Err(e) if kind(&e) == "DiskFull" => {}
                    x => return Err(format!("{}: creation on the full disk gives {:?}", ctx, x.map(|_| ()).map_err(|e| kind(&e)))),
                }
                // released space is usable again
                k(d.open_file(&pet(b"A")).and_then(|mut f| f.delete())).map_err(|e| format!("{}: delete: {}", ctx, e))?;
                k(d.create_file(&pet(b"B"), ftype(2), cbm::disk::file::Scheme::Linear)).map_err(|e| format!("{}: creation after delete fails with {}", ctx, e))?;
                cov.state(fp(&[&now.d]));
            }
        }
    }
    Ok(())
}
/// Fill the directory completely, then the whole disk completely.
fn c04_dirs(g: Geo, cov: &mut Cov) -> R {
    let mut d = load(&roots::fresh(g));
    let max = roots::dirblocks(g) * 8;
    for i in 0..max {
        cov.tick(|| format!("{} entry {}", g.name(), i));
        cov.step();
        k(d.create_file(&pet(format!("F{}", i).as_bytes()), ftype(2), cbm::disk::file::Scheme::Linear)).map_err(|e| format!("{}: creating file {} of {} fails with {}", g.name(), i + 1, max, e))?;
    }
    match d.create_file(&pet(b"LAST"), ftype(2), cbm::disk::file::Scheme::Linear) {
        Err(e) if kind(&e) == "DiskFull" => {}
        x => return Err(format!("{}: creating more than {} files gives {:?}", g.name(), max, x.map(|_| ()).map_err(|e| kind(&e)))),
    }
    let r = snap(&*d, g);
    cov.state(fp(&[&r.d]));
    let p = r.problems();
    if !p.is_empty() {
        return Err(format!("{}: full directory: {:?}", g.name(), p));
    }
    if r.entries().unwrap().len() != max {
        return Err(format!("{}: {} entries of {}", g.name(), r.entries().unwrap().len(), max));
    }
    // one file over the whole disk
    let mut d = load(&roots::fresh(g));
    let cap = roots::fresh(g).free_data().len() * 254;
    let data = content(8, cap + 100);
    let f = k(d.create_file(&pet(b"BIG"), ftype(2), cbm::disk::file::Scheme::Linear))?;
    let mut w = k(f.writer())?;
    let (n, e) = push(&mut *w, &data);
    drop(w);
    if n != cap || e.as_deref() != Some("DiskFull") {
        return Err(format!("{}: one file over the whole disk took {} bytes of {}, then {:?}", g.name(), n, cap, e));
    }
    let r = snap(&*d, g);
    let p = r.problems();
    if !p.is_empty() {
        return Err(format!("{}: whole-disk file: {:?}", g.name(), p));
    }
    if contents(&*d, b"BIG")? != data[..cap] {
        return Err(format!("{}: whole-disk file reads back differently", g.name()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
fn name_roots(t: Tier) -> Vec<(&'static str, &'static str, usize)> {
    vec![("geos@d64", "names", t.pick(3, 4)), ("fresh@d64", "names", 3), ("recycled@d71", "names", 2), ("geos@d81", "names", t.pick(2, 3)), ("dir7@d64x40", "names", 2)]
}
fn c13_cases(t: Tier) -> Vec<String> {
    let mut v = mk(&name_roots(t));
    for i in 0..odd_names().len() {
        v.push(format!("bytes/{}", i));
    }
    for g in ALL_GEOS {
        v.push(format!("entry/{}", g.name()));
        v.push(format!("all/dirfull@{}", g.name()));
        v.push(format!("all/geosfull@{}", g.name()));
        v.push(format!("all/dirlast@{}", g.name()));
    }
    v
}
/// Names that differ in case, length, padding-like and control bytes, prefixes.
fn odd_names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for b in 0..=255u8 {
        if b != 0xA0 {
            v.push(vec![b]);
            v.push(vec![b'X', b]);
        }
        v.push(vec![b, b'X']);
    }
    v.push(vec![]);
    for n in 2..=17 {
        v.push(vec![b'N'; n]);
    }
    // full-length names with every last byte, and every position of a blank, shifted blank or NUL
    for b in 0..=255u8 {
        let mut n = b"ABCDEFGHIJKLMNO".to_vec();
        n.push(b);
        if b != 0xA0 {
            v.push(n);
        }
    }
    for p in 0..16 {
        for b in [0, 0x20, 0x0D, 0x22, 0x2A, 0xFF] {
            let mut n = b"ABCDEFGHIJKLMNOP".to_vec();
            n[p] = b;
            v.push(n.clone());
            n.truncate(p + 1);
            v.push(n);
        }
        if p < 15 {
            let mut n = b"ABCDEFGHIJKLMNOP".to_vec();
            n[p] = 0xA0;
            v.push(n);
        }
    }
    v.push(vec![0xA0, b'A']);
    v.push(b"A\xA0A".to_vec());
    v.push(vec![0xFF; 16]);
    v.push(vec![0; 16]);
    v.push(vec![0; 17]);
    v.push(vec![b'Z'; 18]);
    // too long, whatever bytes the excess consists of
    for n in [17usize, 18, 20, 32] {
        for p in 0..n {
            for b in [0xA0, 0x00, 0x20] {
                let mut x = vec![b'Q'; n];
                x[p] = b;
                v.push(x.clone());
                for y in &mut x[p..] {
                    *y = b;
                }
                if n < 32 || p >= 12 {
                    v.push(x);
                }
            }
        }
    }
    v.push(vec![b'Z'; 255]);
    v.push(vec![b'Z'; 256]);
    v.sort();
    v.dedup();
    v
}
fn only_name_changed(before: &Raw, after: &Raw, new: &[u8], old: &[u8]) -> R {
    let e = before.find(old).ok_or("harness: entry missing")?;
    let mut want = before.clone();
    for i in 0..16 {
        want.sec_mut(e.loc)[e.idx * 32 + 5 + i] = *new.get(i).unwrap_or(&0xA0);
    }
    match diff_raw(&want, after) {
        None => Ok(()),
        Some(d) => Err(format!("renaming changed something other than the stored name: {}", d)),
    }
}
fn c13(case: &str, _t: Tier, cov: &mut Cov) -> R {
    if let Some(i) = case.strip_prefix("bytes/") {
        return c13_bytes(i.parse().unwrap(), cov);
    }
    if let Some(g) = case.strip_prefix("entry/") {
        return c13_entry(Geo::by_name(g), cov);
    }
    if let Some(r) = case.strip_prefix("all/") {
        return c13_all(r, cov);
    }
    go(case, 1, cov, &mut |w, op, _| {
        if !w.result_ok() {
            return Err(format!("{} {}", w.ctx(), w.result_msg()));
        }
        let (b, a) = (w.before.clone().unwrap(), w.raw());
        match op {
            Op::Ren(old, new) if !w.failed() => only_name_changed(&b, &a, new.as_bytes(), old.as_bytes()).map_err(|e| format!("{} {}", w.ctx(), e))?,
            Op::Ren(..) | Op::Create(..) if w.failed() => {
                if let Some(d) = diff_raw(&b, &a) {
                    return Err(format!("{} the refused operation changed the image: {}", w.ctx(), d));
                }
            }
            _ => {}
        }
        w.files_ok()?;
        w.names_gone(NAMES)
    })
}
/// Entries of every structure with every attribute byte and every value in each byte of their
/// structure-specific data, renamed: nothing but the name changes.
fn c13_entry(g: Geo, cov: &mut Cov) -> R {
    let base = roots::root(&format!("geos@{}", g.name()));
    let es = base.entries().unwrap();
    for e in &es {
        for pos in [2usize, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f] {
            for v in 0..=255u8 {
                let mut b = base.clone();
                b.sec_mut(e.loc)[e.idx * 32 + pos] = v;
                if pos == 2 && v & 0x8f == 0 {
                    continue; // scratched
                }
                cov.tick(|| format!("{} file {} byte {:#x} of its entry {:#x}", g.name(), lossy(&e.name()), pos, v));
                cov.step();
                let mut d = load(&b);
                let ctx = format!("{}: entry of {} with byte {:#x} set to {:#x}", g.name(), lossy(&e.name()), pos, v);
                k(d.rename(&pet(&e.name()), &pet(b"RENAMED"))).map_err(|x| format!("{}: renaming fails with {}", ctx, x))?;
                let a = snap(&*d, g);
                only_name_changed(&b, &a, b"RENAMED", &e.name()).map_err(|x| format!("{}: {}", ctx, x))?;
                if v < 4 {
                    cov.state(fp(&[&a.d]));
                }
            }
        }
    }
    Ok(())
}
/// A directory as long as it gets: every name in it is found, is refused to others, and can be given up.
fn c13_all(root: &str, cov: &mut Cov) -> R {
    let r = roots::root(root);
    let es = r.entries().unwrap();
    let mut d = load(&r);
    for (i, e) in es.iter().enumerate() {
        let n = e.name();
        let ctx = || format!("{}: {} (entry {})", root, lossy(&n), i);
        cov.tick(ctx);
        cov.step();
        let f = k(d.find_directory_entry(&pet(&n))).map_err(|x| format!("{}: not found: {}", ctx(), x))?;
        let at = f.position.map(|p| (p.location.0, p.location.1, p.offset as usize));
        if f.filename.as_bytes() != &n[..] || at != Some((e.loc.0, e.loc.1, e.idx * 32)) {
            return Err(format!("{}: found at {:?}", ctx(), at));
        }
        match d.create_file(&pet(&n), ftype(1), cbm::disk::file::Scheme::Linear).map(|_| ()).map_err(|e| kind(&e)) {
            Err(x) if x == "FileExists" => {}
            x => return Err(format!("{}: creating another gives {:?}", ctx(), x)),
        }
        let other = es[(i + 1) % es.len()].name();
        match d.rename(&pet(&other), &pet(&n)).map_err(|e| kind(&e)) {
            Err(x) if x == "FileExists" => {}
            x => return Err(format!("{}: renaming {} to it gives {:?}", ctx(), lossy(&other), x)),
        }
        if let Some(x) = diff_raw(&r, &snap(&*d, r.g)) {
            return Err(format!("{}: the refused operations changed the image: {}", ctx(), x));
        }
        let mut d = load(&r);
        k(d.rename(&pet(&n), &pet(b"A NEW NAME"))).map_err(|x| format!("{}: renaming fails: {}", ctx(), x))?;
        let a = snap(&*d, r.g);
        only_name_changed(&r, &a, b"A NEW NAME", &n).map_err(|x| format!("{}: {}", ctx(), x))?;
        match k(d.find_directory_entry(&pet(&n)).map(|_| ())) {
            Err(x) if x == "NotFound" => {}
            x => return Err(format!("{}: the old name still gives {:?}", ctx(), x)),
        }
        cov.state(fp(&[&a.d]));
    }
    Ok(())
}
/// Every pair (existing name, asked name) of a set of byte strings.
fn c13_bytes(i: usize, cov: &mut Cov) -> R {
    let names = odd_names();
    let a = &names[i];
    let root = roots::mixed(G64);
    let mut d = load(&root);
    let ctx = format!("file named {:02x?}", a);
    cov.tick(|| ctx.clone());
    let made = d.create_file(&pet(a), ftype(2), cbm::disk::file::Scheme::Linear);
    if a.len() > 16 {
        return match made {
            Err(e) if kind(&e) == "FilenameTooLong" => Ok(()),
            Err(e) => Err(format!("{}: creation fails with {}", ctx, kind(&e))),
            Ok(_) => Err(format!("{}: creation succeeds", ctx)),
        };
    }
    k(made.map(|_| ())).map_err(|e| format!("{}: creation fails with {}", ctx, e))?;
    let with = snap(&*d, G64);
    cov.state(fp(&[&with.d]));
    if with.find(a).is_none() {
        return Err(format!("{}: the image has no entry of that name", ctx));
    }
    for b in &names {
        cov.tick(|| format!("{} asked {:02x?}", ctx, b));
        cov.step();
        let found = d.open_file(&pet(b)).map(|f| f.name().as_bytes().to_vec()).map_err(|e| kind(&e));
        let want: Result<Vec<u8>, String> = if a == b { Ok(b.clone()) } else { Err("NotFound".into()) };
        if found != want {
            return Err(format!("{}: opening {:02x?} gives {:02x?}", ctx, b, found));
        }
        let r = k(d.rename(&pet(b"OLD"), &pet(b)));
        let now = snap(&*d, G64);
        let want = if b.len() > 16 {
            Err("FilenameTooLong")
        } else if a == b {
            Err("FileExists")
        } else {
            Ok(())
        };
        if r.clone().map_err(|e| e.to_string()) != want.map_err(|e| e.to_string()) {
            return Err(format!("{}: renaming another file to {:02x?} gives {:?}, expected {:?}", ctx, b, r, want));
        }
        if r.is_ok() {
            only_name_changed(&with, &now, b, b"OLD").map_err(|e| format!("{} -> {:02x?}: {}", ctx, b, e))?;
            k(d.rename(&pet(b), &pet(b"OLD"))).map_err(|e| format!("{}: renaming {:02x?} back gives {}", ctx, b, e))?;
        }
        let now = snap(&*d, G64);
        if let Some(x) = diff_raw(&with, &now) {
            return Err(format!("{}: after renaming OLD to {:02x?} and back: {}", ctx, b, x));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21 (histories; damaged files in damage.rs)
fn c21_roots(t: Tier) -> Vec<(&'static str, &'static str, usize)> {
    vec![
        ("geos@d64", "names", t.pick(2, 3)), ("geos@d64", "general", t.pick(2, 3)), ("full@d64", "space", t.pick(3, 4)), ("dirfull@d64", "space", t.pick(2, 3)),
        ("free1@d64", "space", t.pick(3, 4)), ("dirlast8@d64", "space", 2), ("full8@d64", "space", t.pick(3, 4)), ("full8@d71", "space", 2), ("full8@d81", "space", 2),
        ("mixed@d71", "names", 2), ("geos@d81", "names", 2), ("dir8@d64", "names", 2), ("dir8@d64", "space", 2), ("dir8@d71", "names", 2), ("dir8@d81", "names", 2),
        ("dir7@d64", "names", 2), ("dirlast8@d71", "names", 1), ("dirlast8@d81", "names", 1), ("odd@d64", "general", t.pick(1, 2)), ("recycled@d71", "general", t.pick(1, 2)),
    ]
}
pub fn c21_hist(case: &str, cov: &mut Cov) -> R {
    go(case, 2, cov, &mut |w, op, _| {
        if !w.failed() || w.got.0 > 0 {
            return Ok(()); // bytes accepted before the disk ran full are C04's business
        }
        // a write that fails after creating its file did create the file
        if matches!(op, Op::Put(..) | Op::Pieces(..)) && w.want.1 == w.got.1 && w.m.pos(opfile(op)).is_some() && w.got.1.as_deref() == Some("DiskFull") {
            return Ok(());
        }
        let now = w.raw();
        if let Some(d) = diff_raw(w.before.as_ref().unwrap(), &now) {
            return Err(format!("{} the operation failed ({}) but changed the image: {}", w.ctx(), w.got.1.as_deref().unwrap(), d));
        }
        diff_views(&w.before_view, &view(&*w.disk), "before the failed operation", "after it").map_err(|e| format!("{} {}", w.ctx(), e))
    })
}
fn opfile(o: &Op) -> &[u8] {
    match o {
        Op::Create(n, _) | Op::Put(n, _, _) | Op::App(n, _) | Op::Pieces(n, _, _) | Op::Del(n) | Op::Ren(n, _) => n.as_bytes(),
        _ => b"",
    }
}
pub fn c21_hist_cases(t: Tier) -> Vec<String> {
    mk(&c21_roots(t))
}
pub fn c21_bound(t: Tier) -> String {
    bound_of(&c21_roots(t))
}

// ---------------------------------------------------------------- C23
fn c23_roots(t: Tier) -> Vec<(&'static str, &'static str, usize)> {
    vec![
        ("geos@d64", "general", t.pick(2, 3)), ("geos@d71", "general", t.pick(2, 3)), ("geos@d81", "general", 2), ("dir8@d64", "core", t.pick(2, 4)), ("recycled@d64x40e", "general", 2),
        ("fresh@d64", "core", t.pick(3, 4)), ("frag@d64", "core", 2),
        ("geos@d64", "kept", t.pick(3, 4)), ("geos@d71", "kept", t.pick(3, 4)), ("geos@d81", "kept", 3),
    ]
}
fn c23_cases(t: Tier) -> Vec<String> {
    let mut v = mk(&c23_roots(t));
    for g in ["d64", "d64x40", "d71", "d81"] {
        for i in 0..6 {
            v.push(format!("order/{}/{}", g, i));
        }
        for w in ["seq", "vlir", "rel", "linear", "held", "places"] {
            v.push(format!("kinds/{}/{}", g, w));
        }
        v.push(format!("huge/{}", g));
    }
    v
}
pub fn exact_delete(b: &Raw, a: &Raw, name: &[u8]) -> R {
    let e = b.find(name).ok_or("harness: entry missing")?;
    let blocks = b.file_blocks(&e).map_err(|x| format!("harness: {:?}", x))?;
    let mut want = b.clone();
    for l in blocks {
        want.set_free(l.0, l.1, true);
    }
    let o = e.idx * 32 + 2;
    let attr = a.sec(e.loc)[o];
    if attr & 0x8f != 0 {
        return Err(format!("the directory slot is not scratched: attribute {:02x}", attr));
    }
    want.sec_mut(e.loc)[o] = attr;
    match diff_raw(&want, a) {
        None => Ok(()),
        Some(d) => Err(format!("deleting {:?} has an effect other than releasing its blocks and slot (expected -> found): {}", lossy(name), d)),
    }
}
/// Files as large as they get, deleted in every order of two.
fn c23_huge(root: &str, cov: &mut Cov) -> R {
    let r = roots::root(root);
    let names: Vec<Vec<u8>> = r.entries().unwrap().iter().map(|e| e.name()).collect();
    for a in &names {
        for b in &names {
            let mut d = load(&r);
            let mut now = r.clone();
            for n in [a, b] {
                if now.find(n).is_none() {
                    continue;
                }
                let ctx = || format!("{}: deleting {} then {}", root, lossy(a), lossy(b));
                cov.tick(ctx);
                cov.step();
                k(d.open_file(&pet(n)).and_then(|mut f| f.delete())).map_err(|x| format!("{}: {}", ctx(), x))?;
                let x = snap(&*d, r.g);
                exact_delete(&now, &x, n).map_err(|e| format!("{}: {}", ctx(), e))?;
                cov.state(fp(&[&x.d]));
                now = x;
            }
        }
    }
    Ok(())
}
fn c23(case: &str, _t: Tier, cov: &mut Cov) -> R {
    if let Some(x) = case.strip_prefix("order/") {
        let (g, i) = x.split_once('/').unwrap();
        return c23_order(Geo::by_name(g), i.parse().unwrap(), cov);
    }
    if let Some(g) = case.strip_prefix("huge/") {
        return c23_huge(&format!("huge@{}", g), cov);
    }
    if let Some(x) = case.strip_prefix("kinds/") {
        let (g, w) = x.split_once('/').unwrap();
        return c23_kinds(Geo::by_name(g), w, cov);
    }
    go(case, 1, cov, &mut |w, _, _| {
        if let Some(n) = &w.deleted {
            if w.failed() {
                return if w.result_ok() { Ok(()) } else { Err(format!("{} {}", w.ctx(), w.result_msg())) };
            }
            let a = w.raw();
            exact_delete(w.before.as_ref().unwrap(), &a, n).map_err(|e| format!("{} {}", w.ctx(), e))?;
            w.names_gone(NAMES)?;
            let f = k(w.disk.blocks_free())?;
            if f != a.free_data().len() {
                return Err(format!("{} blocks free {} instead of {}", w.ctx(), f, a.free_data().len()));
            }
        }
        Ok(())
    })
}
/// Delete the file V of the image, opened by name or by its directory entry.
fn delete_v(r: &Raw, what: &dyn Fn() -> String, cov: &mut Cov) -> R {
    for by_entry in [false, true] {
        cov.tick(what);
        cov.step();
        let d = load(r);
        let f = if by_entry {
            d.find_directory_entry(&pet(b"V")).and_then(|e| d.open_file_from_entry(&e))
        } else {
            d.open_file(&pet(b"V"))
        };
        k(f.and_then(|mut f| f.delete())).map_err(|e| format!("{}: deleting fails with {}", what(), e))?;
        let a = snap(&*d, r.g);
        cov.state(fp(&[&a.d]));
        exact_delete(r, &a, b"V").map_err(|e| format!("{}: {}", what(), e))?;
        if k(d.blocks_free())? != a.free_data().len() {
            return Err(format!("{}: blocks free is {} instead of {}", what(), k(d.blocks_free())?, a.free_data().len()));
        }
        if d.open_file(&pet(b"V")).is_ok() {
            return Err(format!("{}: the file is still found", what()));
        }
    }
    Ok(())
}
/// Files of every structure and many shapes.
fn c23_kinds(g: Geo, which: &str, cov: &mut Cov) -> R {
    match which {
        "seq" => {
            for info in [false, true] {
                for n in [0usize, 1, 253, 254, 255, 508, 509, 3000] {
                    let mut r = roots::mixed(g);
                    let data = content(n as u32, n);
                    let b = r.pick_spread(Raw::need(&data), 7, 30);
                    let i = r.pick_spread(1, 1, 310)[0];
                    r.add_seq(b"V", if info { Some(i) } else { None }, &b, &data);
                    delete_v(&r, &|| format!("{} GEOS sequential file of {} bytes, info block {}", g.name(), n, info), cov)?;
                }
            }
        }
        "vlir" => {
            for n in 0..=127usize {
                for which in 0..4 {
                    let recs: Vec<Option<usize>> = (0..n)
                        .map(|i| match which {
                            0 => None,
                            1 => Some(i % 260),
                            2 => (i % 3 != 0).then(|| 250 + i % 7),
                            _ => (i + 1 == n).then_some(700),
                        })
                        .collect();
                    let r = crate::files::vlir_disk(g, &recs, n % 2 == 0, n % 5 == 4);
                    delete_v(&r, &|| format!("{} VLIR file of {} records, pattern {}", g.name(), n, which), cov)?;
                }
            }
        }
        "rel" => {
            for n in [1usize, 2, 3, 119, 120, 121, 240, 241, 360, 361, 480, 600, 601, 720] {
                let mut r = roots::fresh(g);
                if n + 6 > r.free_data().len() {
                    continue;
                }
                let f = r.free_data();
                let sides = (n + 119) / 120;
                let (s, b) = (f[..sides].to_vec(), f[sides..sides + n].to_vec());
                r.add_rel(b"V", 127, &b, &s, &content(n as u32, n * 254));
                delete_v(&r, &|| format!("{} relative file of {} blocks", g.name(), n), cov)?;
            }
        }
        "linear" => {
            for attr in (0..=255u8).filter(|a| a & 0x8f != 0 && a & 15 != 4) {
                let mut r = roots::mixed(g);
                let b = r.pick_spread(3, 7, 30);
                r.add_linear(b"V", attr, &b, &content(1, 600));
                delete_v(&r, &|| format!("{} file with attribute {:#x}", g.name(), attr), cov)?;
            }
            for n in [1usize, 2, 254, 255, 256, 257, 511, 512, 600, 664, 1328, 3160] {
                let mut r = roots::fresh(g);
                if n > r.free_data().len() {
                    continue;
                }
                let b = r.pick_spread(n, 1, 0);
                r.add_linear(b"V", 0x82, &b, &content(1, n * 254));
                delete_v(&r, &|| format!("{} file of {} blocks", g.name(), n), cov)?;
            }
        }
        "places" => {
            for l in crate::files::places(g) {
                for part in crate::files::PARTS {
                    delete_v(&crate::files::placed(g, part, l), &|| format!("{} {} on block {:?}", g.name(), part, l), cov)?;
                }
            }
        }
        _ => {
            // the handle was opened before the file was renamed, extended, locked
            for n in [1usize, 2, 255, 256, 300] {
                for m in 0..8u32 {
                    let what = format!("{} file of {} blocks deleted through a handle opened before changes {:03b}", g.name(), n, m);
                    cov.tick(|| what.clone());
                    cov.step();
                    let mut r = roots::mixed(g);
                    let b = r.pick_spread(n, 1, 3);
                    r.add_linear(b"V", 0x82, &b, &content(1, n * 254 - 7));
                    let mut d = load(&r);
                    let mut f = k(d.open_file(&pet(b"V")))?;
                    let mut name = b"V".to_vec();
                    if m & 1 != 0 {
                        name = b"W2".to_vec();
                        k(d.rename(&pet(b"V"), &pet(&name)))?;
                    }
                    if m & 2 != 0 {
                        use std::io::Write;
                        let mut w = k(k(d.open_file(&pet(&name)))?.writer())?;
                        k(w.write_all(&content(2, 600)))?;
                        k(w.flush())?;
                    }
                    if m & 4 != 0 {
                        let mut e = k(d.find_directory_entry(&pet(&name)))?;
                        e.file_attributes.locked_flag = true;
                        k(d.write_directory_entry(&e))?;
                    }
                    let before = snap(&*d, g);
                    k(f.delete()).map_err(|e| format!("{}: {}", what, e))?;
                    drop(f);
                    exact_delete(&before, &snap(&*d, g), &name).map_err(|e| format!("{}: {}", what, e))?;
                    cov.state(fp(&[&snap(&*d, g).d]));
                }
            }
        }
    }
    Ok(())
}
/// All orders of deleting the files of a GEOS disk give the same image, and everything is reusable.
fn c23_order(g: Geo, first: usize, cov: &mut Cov) -> R {
    let root = roots::geos(g);
    let names: Vec<Vec<u8>> = root.entries().unwrap().iter().map(|e| e.name()).collect();
    if first >= names.len() {
        cov.tick(|| "nothing".into());
        return Ok(());
    }
    let mut want: Option<Raw> = None;
    let mut perms = vec![];
    permute(&(0..names.len()).collect::<Vec<_>>(), &mut vec![], &mut perms);
    // the reference order is always the first permutation
    let mut list: Vec<Vec<usize>> = vec![perms[0].clone()];
    list.extend(perms.into_iter().filter(|p| p[0] == first));
    for p in list {
        cov.tick(|| format!("{} delete order {:?}", g.name(), p));
        let d = load(&root);
        for i in &p {
            cov.step();
            k(d.open_file(&pet(&names[*i])).and_then(|mut f| f.delete())).map_err(|e| format!("deleting {:?} in order {:?}: {}", lossy(&names[*i]), p, e))?;
        }
        let now = snap(&*d, g);
        cov.state(fp(&[&now.d]));
        match &want {
            None => {
                let pr = now.problems();
                if !pr.is_empty() || !now.entries().unwrap().is_empty() {
                    return Err(format!("{} after deleting everything: {:?}", g.name(), pr));
                }
                let empty = roots::fresh(g).free_data().len() - 1; // border block
                if k(d.blocks_free())? != empty {
                    return Err(format!("{} after deleting everything {} blocks free instead of {}", g.name(), k(d.blocks_free())?, empty));
                }
                want = Some(now);
            }
            Some(x) => {
                if let Some(e) = diff_raw(x, &now) {
                    return Err(format!("{} order {:?} gives a different image: {}", g.name(), p, e));
                }
            }
        }
    }
    Ok(())
}
fn permute(rest: &[usize], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if rest.is_empty() {
        out.push(cur.clone());
    }
    for (i, x) in rest.iter().enumerate() {
        let mut r = rest.to_vec();
        r.remove(i);
        cur.push(*x);
        permute(&r, cur, out);
        cur.pop();
    }
}

pub static C01: Prop = Prop {
    id: "C01", level: "model_checking",
    rule: "every operation sequence up to the depth from every root image, executed on the real library next to the reference model; after each: every result, listing and content compared, through the library and in the raw image",
    bound: |t| format!("{}; contents with runs of every byte value", bound_general(t)), cases: c01_cases, run: c01,
};
pub static C02: Prop = Prop {
    id: "C02", level: "model_checking",
    rule: "every operation sequence up to the depth from every root image; the raw image must be consistent after each (independent usage map vs allocation map, counts, block counts), blocks_free agrees, validate() is empty; all short sequences of explicit allocation-map edits on every block",
    bound: |t| format!("{}; per block of 4 geometries, plain and GEOS: all sequences of 1..=3 claims/releases, and pairs with the next block", bound_general(t)), cases: c02_cases, run: c02,
};
pub static C03: Prop = Prop {
    id: "C03", level: "model_checking",
    rule: "after every operation sequence up to the depth (in memory and on image files), everything observable on the live object equals everything observable after opening the image bytes afresh; also all 3-step sequences of format, header edit, create, delete on all formats",
    bound: bound_general, cases: c03_cases, run: c03,
};
pub static C04: Prop = Prop {
    id: "C04", level: "model_checking",
    rule: "every operation sequence up to the depth from full and nearly full disks and directories with exact prediction of accepted bytes and errors; every single free block and pairs of free blocks on an otherwise full disk",
    bound: |t| format!("{}; each data block as the only free one, with {} partner blocks, with and without GEOS, 4 formats; whole directory and whole disk filled", bound_of(&space_roots(t)), t.pick("every 211th", "every 7th")),
    cases: c04_cases, run: c04,
};
pub static C13: Prop = Prop {
    id: "C13", level: "model_checking",
    rule: "every operation sequence of creations, renames, deletions over similar, empty, 16 and 17 byte names; every pair from a set of over 700 byte-string names; renames compared with the byte-exact expected image",
    bound: |t| format!("{}; all pairs of {} names; every attribute byte and every value of each structure-specific and size byte of 6 entries, 8 geometries, renamed; every entry of the longest directories", bound_of(&name_roots(t)), odd_names().len()),
    cases: c13_cases, run: c13,
};
pub static C23: Prop = Prop {
    id: "C23", level: "model_checking",
    rule: "every delete reached by every operation sequence up to the depth, compared with the byte-exact expected image; all delete orders of a disk with files of every structure",
    bound: |t| format!("{}; all 720 orders of 6 files on 4 formats; files of every structure with each of {} parts on the blocks of every zone edge and the outer sectors of every track; files of the largest size, in pairs", bound_of(&c23_roots(t)), crate::files::PARTS.len()),
    cases: c23_cases, run: c23,
};

pub static PROPS: &[&Prop] = &[&C01, &C02, &C03, &C04, &C13, &C23];
