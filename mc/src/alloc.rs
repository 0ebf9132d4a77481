//! C11: choice of blocks.  The oracle is an independent rendering of the published rule (DISK.TXT).
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use crate::ts;
use crate::world::*;

/// Free sectors per track as bit sets, index 1..=tracks.
pub type Map = Vec<u64>;
pub fn map_of(r: &Raw) -> Map {
    let mut m = vec![0u64; 1];
    for t in 1..=r.g.dos_tracks() {
        m.push((0..r.g.spt(t)).filter(|s| r.is_free(t, *s)).map(|s| 1u64 << s).sum());
    }
    m
}
/// Lowest free sector at or after `from`, going round the track.
fn scan(g: Geo, m: &Map, t: u8, from: u32) -> Loc {
    let n = g.spt(t) as u32;
    let s = (0..n).map(|i| (from + i) % n).find(|s| m[t as usize] >> s & 1 == 1).unwrap();
    (t, s as u8)
}
/// First block of a new file.
pub fn first(g: Geo, geos: bool, m: &Map) -> Option<Loc> {
    if geos {
        return follow(g, geos, m, (1, 0));
    }
    let dt = g.dir_track() as i32;
    for dist in 1..=100i32 {
        for t in [dt - dist, dt + dist] {
            if t >= 1 && t <= g.dos_tracks() as i32 && t as u8 != g.reserved_track() && m[t as usize] != 0 {
                return Some(scan(g, m, t as u8, 0));
            }
        }
    }
    None
}
/// The block that continues a file or directory ending at `p`.
pub fn follow(g: Geo, geos: bool, m: &Map, p: Loc) -> Option<Loc> {
    let dt = g.dir_track();
    let has = |t: u8| m[t as usize] != 0;
    if p.0 == dt {
        // the directory never leaves its track
        if !has(dt) {
            return None;
        }
        let n = g.spt(dt) as u32;
        let mut s = p.1 as u32 + g.dir_interleave() as u32;
        if geos && dt >= 25 {
            s -= 1;
        }
        while s >= n {
            s -= n;
            if s > 0 && !geos {
                s -= 1;
            }
        }
        return Some(scan(g, m, dt, s));
    }
    let data = |t: &u8| *t != dt && *t != g.reserved_track();
    let last = g.dos_tracks();
    if geos {
        // this track and those above, then (from its first sector) the disk from track 1
        let i = g.interleave() as u32;
        if let Some(t) = (p.0..=last).filter(data).find(|t| has(*t)) {
            let n = g.spt(t) as u32;
            let s = if t == p.0 { p.1 as u32 + i - if t >= 25 { 1 } else { 0 } } else { ((t - p.0) as u32) * 2 + 4 + i };
            return Some(scan(g, m, t, s % n));
        }
        return (1..=last).filter(data).find(|t| has(*t)).map(|t| scan(g, m, t, 0));
    }
    // CBM DOS: from this track away from the directory; the other half; the rest of this half
    let below: Vec<u8> = (1..dt).rev().collect();
    let above: Vec<u8> = (dt + 1..=last).filter(data).collect();
    let (own, other) = if p.0 < dt { (below, above) } else { (above, below) };
    let i = own.iter().position(|t| *t == p.0).unwrap();
    if let Some(t) = own[i..].iter().find(|t| has(**t)) {
        let n = g.spt(*t) as u32;
        let mut s = p.1 as u32 + g.interleave() as u32;
        while s >= n {
            s -= n;
            if s > 0 {
                s -= 1;
            }
        }
        return Some(scan(g, m, *t, s));
    }
    other.iter().chain(&own).find(|t| has(**t)).map(|t| scan(g, m, *t, 0))
}
/// Where a file ending at `p` continues, also for files that end outside the area used for data.
pub fn follow_data(g: Geo, geos: bool, m: &Map, p: Loc) -> Option<Loc> {
    if p.0 == g.dir_track() || p.0 == g.reserved_track() || p.0 > g.dos_tracks() {
        first(g, geos, m)
    } else {
        follow(g, geos, m, p)
    }
}

// ------------------------------------------------------------------ the choice alone
fn geos_of(mut r: Raw, geos: bool) -> Raw {
    if geos {
        let g = r.g;
        r.make_geos(match g.kind {
            Kind::D81 => (39, 39),
            _ => (19, 0),
        });
    }
    r
}
/// An image whose allocation map is exactly `m` (plus system blocks).
fn put_map(r: &mut Raw, m: &Map) {
    for t in 1..=r.g.dos_tracks() {
        let (f, b, n) = r.g.bam(t);
        r.d[f] = m[t as usize].count_ones() as u8;
        for i in 0..n {
            r.d[b + i] = (m[t as usize] >> (8 * i)) as u8;
        }
    }
}
struct Bench {
    d: Dk,
    r: Raw,
    geos: bool,
}
impl Bench {
    fn new(g: Geo, geos: bool) -> Bench {
        let r = geos_of(roots::fresh(g), geos);
        Bench { d: load(&r), r, geos }
    }
    fn set(&mut self, m: &Map) {
        put_map(&mut self.r, m);
        for l in self.r.g.bam_sectors() {
            let loc = ts!(self.d, l);
            self.d.write_sector(loc, self.r.sec(l)).unwrap();
        }
        self.d.initialize();
    }
    fn ask(&self, p: Option<Loc>) -> Result<Option<Loc>, String> {
        let b = k(self.d.bam())?;
        let b = b.borrow();
        match b.next_free_block(p.map(|l| ts!(self.d, l))) {
            Ok(l) => Ok(Some((l.0, l.1))),
            Err(e) if kind(&e) == "DiskFull" => Ok(None),
            Err(e) => Err(kind(&e)),
        }
    }
    fn check(&self, m: &Map, p: Option<Loc>, cov: &mut Cov) -> R {
        cov.step();
        let g = self.r.g;
        let want = match p {
            None => first(g, self.geos, m),
            Some(p) => follow(g, self.geos, m, p),
        };
        let got = self.ask(p);
        if got != Ok(want) {
            let free: Vec<String> = (1..=g.dos_tracks()).filter(|t| m[*t as usize] != 0 && m[*t as usize].count_ones() < 45).map(|t| format!("{}:{:x}", t, m[t as usize])).take(90).collect();
            return Err(format!("{} geos={} after {:?}: chose {:?}, the rule prescribes {:?}; free sectors {}", g.name(), self.geos, p, got, want, free.join(" ")));
        }
        Ok(())
    }
}
fn full(g: Geo) -> Map {
    vec![0; g.dos_tracks() as usize + 1]
}
fn all(g: Geo, t: u8) -> u64 {
    (1u64 << g.spt(t)) - 1
}
fn data_tracks(g: Geo) -> Vec<u8> {
    (1..=g.dos_tracks()).filter(|t| *t != g.dir_track() && *t != g.reserved_track()).collect()
}
fn sectors_some(g: Geo, t: u8, thorough: bool) -> Vec<u8> {
    if thorough {
        (0..g.spt(t)).collect()
    } else {
        let n = g.spt(t);
        let i = g.interleave();
        let mut v = vec![0, 1, n / 2, n - 1 - i % n, n - i, (n - i + 1) % n, n - 2, n - 1];
        v.retain(|s| *s < n);
        v.sort();
        v.dedup();
        v
    }
}

fn c11_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for g in [G64, G40, G71, G81] {
        for geos in 0..2 {
            for w in ["own", "one", "two", "dir", "start"] {
                if g == G40 && w != "own" && !t.thorough() {
                    continue;
                }
                let parts = if w == "dir" || w == "start" { 1 } else { 8 };
                for i in 0..parts {
                    v.push(format!("{}/{}/{}/{}/{}", w, g.name(), geos, i, parts));
                }
            }
        }
    }
    for (root, depth) in c11_roots(t) {
        for i in 0..alpha(root).len() {
            v.push(format!("hist/{}/{}/{}", root, i, depth));
        }
    }
    for g in ["d64", "d64x40", "d71", "d81"] {
        for geos in 0..2 {
            for pat in 0..6 {
                v.push(format!("fill/{}/{}/{}", g, geos, pat));
            }
        }
    }
    v
}
fn c11_roots(t: Tier) -> Vec<(&'static str, usize)> {
    let d = t.pick(2, 3);
    vec![
        ("fresh@d64", d + 1), ("geos@d64", d), ("mixed@d71", d), ("geos@d71", d), ("mixed@d81", d), ("geos@d81", d), ("frag@d64", d), ("frag@d71", 2), ("frag@d81", 2), ("dir8@d64", d + 1), ("dir8@d71", d),
        ("dir8@d81", d), ("free3@d64", d), ("free3@d71", d), ("free3@d81", d), ("dirlast8@d64", d), ("mixed@d64x40", d),
    ]
}
fn alpha(_r: &str) -> Vec<Op> {
    use Op::*;
    vec![
        Create("A", 2), Put("A", 2, 254 * 3), Put("B", 1, 254 * 30 + 7), Put("C", 3, 254 * 200), App("A", 255), App("OLD", 254 * 5), App("B", 254 * 40), Del("A"), Del("OLD"), Del("B"), Churn(9), Init,
    ]
}
fn c11_bound(t: Tier) -> String {
    format!(
        "4 formats x GEOS or not: every previous block x (own track with each single sector free, whole track, all but one) ; every previous track x {} sectors x every other single free track (whole; first, middle, last sector only); every pair of free tracks; \
         every directory block; no previous block; histories: {}; files filling the whole disk from 6 layouts",
        t.pick("boundary", "all"),
        c11_roots(t).iter().map(|(r, d)| format!("{} depth {}", r, d)).collect::<Vec<_>>().join(", ")
    )
}
fn c11(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    if p[0] == "hist" {
        return c11_hist(p[1], p[2].parse().unwrap(), p[3].parse().unwrap(), cov);
    }
    let g = Geo::by_name(p[1]);
    let geos = p[2] == "1";
    if p[0] == "fill" {
        return c11_fill(g, geos, p[3].parse().unwrap(), cov);
    }
    let (part, parts): (usize, usize) = (p[3].parse().unwrap(), p[4].parse().unwrap());
    let mut b = Bench::new(g, geos);
    let dt = g.dir_track();
    let sys = full(g);
    match p[0] {
        // the track of the previous block: all single-sector, all-but-one and full patterns; other
        // tracks full or free
        "own" => {
            for (i, tr) in data_tracks(g).into_iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                for rest in [false, true] {
                    let mut m = sys.clone();
                    if rest {
                        for x in data_tracks(g) {
                            m[x as usize] = all(g, x);
                        }
                    }
                    let n = g.spt(tr);
                    let mut pats = vec![all(g, tr), 0, all(g, tr) & 0x5555_5555_5555, all(g, tr) & 0xAAAA_AAAA_AAAA];
                    for s in 0..n {
                        pats.push(1u64 << s);
                        pats.push(all(g, tr) & !(1u64 << s));
                        if t.thorough() {
                            for s2 in 0..s {
                                pats.push(1u64 << s | 1u64 << s2);
                            }
                        }
                    }
                    for pat in pats {
                        cov.tick(|| format!("{} geos={} track {} free {:x}, others {}", g.name(), geos, tr, pat, rest));
                        m[tr as usize] = pat;
                        b.set(&m);
                        cov.state(fp(&[&[g.kind as u8, geos as u8, tr, rest as u8], &pat.to_le_bytes()]));
                        for s in 0..n {
                            b.check(&m, Some((tr, s)), cov)?;
                        }
                    }
                }
            }
        }
        // one free track anywhere
        "one" => {
            for (i, ft) in data_tracks(g).into_iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                let n = g.spt(ft);
                let mut pats = vec![all(g, ft), 1, 1u64 << (n - 1), 1u64 << (n / 2), all(g, ft) & !1];
                if t.thorough() {
                    pats.extend((0..n).map(|s| 1u64 << s));
                }
                for pat in pats {
                    let mut m = sys.clone();
                    m[ft as usize] = pat;
                    b.set(&m);
                    cov.state(fp(&[&[g.kind as u8, geos as u8, ft], &pat.to_le_bytes()]));
                    cov.tick(|| format!("{} geos={} only track {} free {:x}", g.name(), geos, ft, pat));
                    b.check(&m, None, cov)?;
                    for pt in data_tracks(g) {
                        for s in sectors_some(g, pt, t.thorough() || g.kind == Kind::D64) {
                            b.check(&m, Some((pt, s)), cov)?;
                        }
                    }
                }
            }
        }
        // two free tracks
        "two" => {
            let ts = data_tracks(g);
            for (i, a) in ts.iter().enumerate() {
                if i % parts != part {
                    continue;
                }
                for c in &ts[i + 1..] {
                    for pat in t.pick(vec![0usize], vec![0, 1, 2]) {
                        let mut m = sys.clone();
                        let sel = |x: u8| match pat {
                            0 => all(g, x),
                            1 => 1u64 << (g.spt(x) - 1),
                            _ => 1u64 << (g.spt(x) / 3),
                        };
                        m[*a as usize] = sel(*a);
                        m[*c as usize] = sel(*c);
                        b.set(&m);
                        cov.state(fp(&[&[g.kind as u8, geos as u8, *a, *c, pat as u8]]));
                        cov.tick(|| format!("{} geos={} tracks {} and {} free ({})", g.name(), geos, a, c, pat));
                        b.check(&m, None, cov)?;
                        for pt in &ts {
                            for s in [0, g.spt(*pt) / 2, g.spt(*pt) - 1] {
                                b.check(&m, Some((*pt, s)), cov)?;
                            }
                        }
                    }
                }
            }
        }
        // directory blocks
        "dir" => {
            let n = g.spt(dt);
            let sysbits: u64 = g.system().iter().filter(|l| l.0 == dt).map(|l| 1u64 << l.1).sum();
            let mut pats = vec![0];
            for s in 0..n {
                pats.push(1u64 << s);
                pats.push(all(g, dt) & !(1u64 << s));
                for s2 in 0..s {
                    pats.push(1u64 << s | 1u64 << s2);
                }
            }
            for pat in pats {
                let pat = pat & !sysbits;
                for rest in [false, true] {
                    let mut m = sys.clone();
                    if rest {
                        for x in data_tracks(g) {
                            m[x as usize] = all(g, x);
                        }
                    }
                    m[dt as usize] = pat;
                    b.set(&m);
                    cov.tick(|| format!("{} geos={} directory track free {:x}", g.name(), geos, pat));
                    cov.state(fp(&[&[g.kind as u8, geos as u8, rest as u8], &pat.to_le_bytes()]));
                    for s in 0..n {
                        b.check(&m, Some((dt, s)), cov)?;
                    }
                    b.check(&m, None, cov)?;
                }
            }
        }
        // no previous block: every prefix of full tracks from the directory outwards
        _ => {
            let mut order = data_tracks(g);
            for rev in [false, true] {
                order.sort_by_key(|x| {
                    let d = (*x as i32 - dt as i32).abs();
                    (if rev { -d } else { d }, *x)
                });
                let mut m = sys.clone();
                for x in data_tracks(g) {
                    m[x as usize] = all(g, x);
                }
                for x in order.clone() {
                    for pat in (0..g.spt(x)).map(|s| 1u64 << s).chain([0]) {
                        m[x as usize] = pat;
                        b.set(&m);
                        cov.tick(|| format!("{} geos={} track {} down to {:x}", g.name(), geos, x, pat));
                        cov.state(fp(&[&[g.kind as u8, geos as u8, rev as u8, x], &pat.to_le_bytes()]));
                        b.check(&m, None, cov)?;
                    }
                }
            }
        }
    }
    Ok(())
}

/// The chain a write of so many more blocks should produce.
fn grow(g: Geo, geos: bool, m: &mut Map, chain: &mut Vec<Loc>, n: usize) {
    while chain.len() < n {
        let nx = match chain.last() {
            None => first(g, geos, m),
            Some(p) => follow_data(g, geos, m, *p),
        };
        match nx {
            None => return,
            Some(l) => {
                m[l.0 as usize] &= !(1u64 << l.1);
                chain.push(l);
            }
        }
    }
}
fn c11_hist(root: &str, firstop: usize, depth: usize, cov: &mut Cov) -> R {
    let r = roots::root(root);
    explore(&r, &alpha(root), firstop, depth, 1, None, cov, &mut |w, op, _| {
        let (name, new) = match op {
            Op::Create(n, _) | Op::Put(n, _, _) => (n.as_bytes(), true),
            Op::App(n, _) => (n.as_bytes(), false),
            _ => return Ok(()),
        };
        if w.failed() && w.got.0 == 0 {
            return Ok(());
        }
        let (g, b, a) = (w.g, w.before.clone().unwrap(), w.raw());
        let geos = b.geos();
        let mut m = map_of(&b);
        let mut dir = b.dir_chain().unwrap();
        let mut chain = vec![];
        if new {
            if !b.slots().unwrap().iter().any(|e| e.scratched() && !e.border) {
                match follow(g, geos, &m, *dir.last().unwrap()) {
                    None => return Ok(()),
                    Some(l) => {
                        m[l.0 as usize] &= !(1u64 << l.1);
                        dir.push(l);
                    }
                }
            }
        } else {
            let e = b.find(name).ok_or("harness: appended file is missing")?;
            chain = b.chain(e.start()).unwrap().0;
        }
        let mf = &w.m.files[w.m.pos(name).ok_or("harness: file is missing in the model")?];
        grow(g, geos, &mut m, &mut chain, mf.blocks);
        let got_dir = a.dir_chain().map_err(|e| format!("{} directory: {:?}", w.ctx(), e))?;
        if got_dir != dir {
            return Err(format!("{} the directory occupies {:?}, the rule prescribes {:?}", w.ctx(), got_dir, dir));
        }
        let e = a.find(name).ok_or_else(|| format!("{} the file is not in the image", w.ctx()))?;
        let got = a.chain(e.start()).map_err(|e| format!("{} chain: {:?}", w.ctx(), e))?.0;
        if got != chain {
            let i = got.iter().zip(&chain).position(|(x, y)| x != y).unwrap_or(got.len().min(chain.len()));
            return Err(format!("{} block {} of the file is {:?}, the rule prescribes {:?} (after {:?})", w.ctx(), i, got.get(i), chain.get(i), i.checked_sub(1).map(|j| got[j])));
        }
        Ok(())
    })
}
/// One file takes all blocks of the disk; different layouts of free space.
fn c11_fill(g: Geo, geos: bool, pat: usize, cov: &mut Cov) -> R {
    let mut r = geos_of(roots::fresh(g), geos);
    let free = r.free_data();
    let keep: Vec<Loc> = match pat {
        0 => vec![],
        1 => free.iter().step_by(3).copied().collect(),
        2 => free.iter().filter(|l| l.0 % 2 == 0).copied().collect(),
        3 => free.iter().filter(|l| l.0 % 5 != 0 && l.1 % 4 == 1).copied().collect(),
        4 => free.iter().filter(|l| l.0 > g.dir_track()).copied().collect(),
        _ => free.iter().filter(|l| l.0 < g.dir_track() || l.1 < 3).copied().collect(),
    };
    let fill: Vec<Loc> = if pat == 0 { vec![] } else { free.iter().filter(|l| !keep.contains(l)).copied().collect() };
    if !fill.is_empty() {
        let n = fill.len();
        r.add_linear(b"FILL", 0x82, &fill, &content(5, n * 254));
    }
    let n = r.free_data().len();
    for chunk in [254, 1000, n * 254] {
        cov.tick(|| format!("{} geos={} layout {} written in pieces of {}", g.name(), geos, pat, chunk));
        let mut m = map_of(&r);
        let mut want = vec![];
        grow(g, geos, &mut m, &mut want, usize::MAX);
        if want.len() != n {
            return Err(format!("harness: the rule reaches {} of {} blocks", want.len(), n));
        }
        let mut d = load(&r);
        let f = k(d.create_file(&pet(b"ALL"), ftype(2), cbm::disk::file::Scheme::Linear))?;
        {
            use cbm::disk::file::FileOps;
            let mut w = k(f.writer())?;
            for c in content(6, n * 254).chunks(chunk) {
                cov.step();
                let (x, e) = push(&mut *w, c);
                if e.is_some() || x != c.len() {
                    return Err(format!("{} geos={} layout {}: writing fails early with {:?}", g.name(), geos, pat, e));
                }
            }
        }
        let a = snap(&*d, g);
        cov.state(fp(&[&a.d]));
        let got = a.chain(a.find(b"ALL").unwrap().start()).map_err(|e| format!("{:?}", e))?.0;
        if got != want {
            let i = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
            return Err(format!("{} geos={} layout {}: block {} is {:?}, the rule prescribes {:?} (after {:?})", g.name(), geos, pat, i, got.get(i), want.get(i), i.checked_sub(1).map(|j| got[j])));
        }
    }
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11", level: "model_checking",
    rule: "an independent model of the published allocation rule predicts the chosen block for every previous block against every allocation map of the enumerated families, and every block of every file and directory written in every operation sequence up to the depth",
    bound: c11_bound, cases: c11_cases, run: c11,
};
pub static PROPS: &[&Prop] = &[&C11];
