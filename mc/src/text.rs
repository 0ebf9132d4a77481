//! C17 (PETSCII) and C24 (dumps and listings).
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use cbm::disk::file::FileOps;
use cbm::disk::Id;
use cbm::Petscii;

// ------------------------------------------------------------------ C17
const NONE: char = '\u{FFFD}';

/// The published chart (lower/upper case character set), written down independently:
/// 0x20-0x5F as below, 0x60-0x7F and 0xA0-0xBF graphics/capitals, 0xC0-0xDF repeats 0x60-0x7F and
/// 0xE0-0xFE repeats 0xA0-0xBE, 0xFF repeats 0x7E; everything else is a control code.
pub fn chart(b: u8) -> char {
    const X60: [u32; 32] = [
        0x2501, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 0x254B, 0, 0x2503, 0x2592, 0,
    ];
    const XA0: [u32; 32] = [
        0xA0, 0x258C, 0x2584, 0x2594, 0x2581, 0x258E, 0x2592, 0x2595, 0, 0, 0x2595, 0x2523, 0x2597, 0x2517, 0x2513, 0x2582, 0x250F, 0x253B, 0x2533,
        0x252B, 0x258E, 0x258D, 0x2595, 0x2594, 0x2594, 0x2583, 0x2713, 0x2596, 0x259D, 0x2518, 0x2598, 0x259A,
    ];
    let f = |x: u32| if x == 0 { NONE } else { char::from_u32(x).unwrap() };
    match b {
        0x20..=0x40 => b as char,
        0x41..=0x5A => (b + 32) as char,
        0x5B => '[',
        0x5C => '\u{A3}',
        0x5D => ']',
        0x5E => '\u{2191}',
        0x5F => '\u{2190}',
        0x60..=0x7F => f(X60[b as usize - 0x60]),
        0xA0..=0xBF => f(XA0[b as usize - 0xA0]),
        0xC0..=0xDF => f(X60[b as usize - 0xC0]),
        0xE0..=0xFE => f(XA0[b as usize - 0xE0]),
        0xFF => f(X60[0x1E]),
        _ => NONE,
    }
}
pub fn unicode(b: &[u8]) -> String {
    b.iter().map(|x| chart(*x)).collect()
}
/// The code a character converts to: the lowest one showing it, 0x7F if there is none.
pub fn to_petscii(c: char) -> u8 {
    (0..=255u8).find(|b| chart(*b) == c).unwrap_or(0x7F)
}

fn c17_cases(_t: Tier) -> Vec<String> {
    let mut v: Vec<String> = vec!["bytes".into(), "pad".into(), "strings".into()];
    for i in 0..17 {
        v.push(format!("plane/{}", i));
    }
    for i in 0..8 {
        v.push(format!("pairs/{}", i));
    }
    v
}
fn c17_bound(t: Tier) -> String {
    format!(
        "all 256 bytes, all 65536 byte pairs and two-byte ids, all 1112064 Unicode characters, all strings of up to {} of 24 characters, all padded fields of up to {} bytes over 4 values x 3 pad bytes",
        t.pick(3, 4), t.pick(6, 8)
    )
}
fn c17(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    match p[0] {
        "bytes" => {
            for b in 0..=255u8 {
                cov.tick(|| format!("byte {:02x}", b));
                cov.step();
                let x = Petscii::from_bytes(&[b]);
                let s = x.to_string();
                let mut it = s.chars();
                if (it.next(), it.next()) != (Some(chart(b)), None) {
                    return Err(format!("byte {:#04x} shows as {:?}, the chart has {:?}", b, s, chart(b)));
                }
                let owned: String = x.clone().into();
                if owned != s {
                    return Err(format!("byte {:#04x}: String conversion gives {:?}, display {:?}", b, owned, s));
                }
                let dbg = format!("{:?}", x);
                let want = if chart(b) == '"' { "\"\\\"\"".to_string() } else { format!("\"{}\"", chart(b)) };
                if dbg != want {
                    return Err(format!("byte {:#04x} debug-shows as {}, expected {}", b, dbg, want));
                }
                let back = Petscii::from_str_lossy(&s);
                if back.len() != 1 || back.to_string() != s {
                    return Err(format!("byte {:#04x} -> {:?} -> {:?}: rendering changed", b, s, back.as_bytes()));
                }
                if x.as_bytes() != [b] || x.len() != 1 || x.is_empty() || x[0] != b || x.clone().into_iter().collect::<Vec<u8>>() != [b] {
                    return Err(format!("byte {:#04x}: accessors disagree", b));
                }
                cov.state(chart(b) as u64);
            }
            Ok(())
        }
        "pairs" => {
            let k: u8 = p[1].parse().unwrap();
            for a in (0..=255u8).filter(|a| a % 8 == k) {
                for b in 0..=255u8 {
                    if b == 0 {
                        cov.tick(|| format!("pairs {:02x} *", a));
                    }
                    cov.step();
                    let x = Petscii::from_bytes(&[a, b]);
                    let s = x.to_string();
                    if s != unicode(&[a, b]) {
                        return Err(format!("bytes {:02x} {:02x} show as {:?}", a, b, s));
                    }
                    let want: Vec<u8> = s.chars().map(to_petscii_fast).collect();
                    if Petscii::from(s.as_str()).as_bytes() != &want[..] {
                        return Err(format!("{:?} converts to {:02x?}, expected {:02x?}", s, Petscii::from(s.as_str()).as_bytes(), want));
                    }
                    cov.state(fp(&[&[a, b]]));
                    let id = Id::from_bytes(&[a, b]);
                    if id.to_string() != unicode(&[a, b]) || id[0] != a || id[1] != b {
                        return Err(format!("id {:02x} {:02x} shows as {:?}", a, b, id.to_string()));
                    }
                    // an id from text or longer and shorter fields: the first two bytes, zero where there is none
                    let want2 = [want[0], want[1]];
                    for (how, got) in [
                        ("text", Id::from(s.as_str())),
                        ("a string", Id::from(&s)),
                        ("an owned string", Id::from(s.clone())),
                    ] {
                        if AsRef::<[u8]>::as_ref(&got) != &want2[..] {
                            return Err(format!("{:?} as an id from {} is {:02x?}, expected {:02x?}", s, how, AsRef::<[u8]>::as_ref(&got), want2));
                        }
                    }
                    for (n, w) in [(0usize, [0u8, 0]), (1, [a, 0]), (2, [a, b]), (3, [a, b]), (4, [a, b])] {
                        let f = [a, b, b, a];
                        let (x, y) = (Id::from_bytes(&f[..n]), Id::from(Petscii::from_bytes(&f[..n])));
                        if AsRef::<[u8]>::as_ref(&x) != &w[..] || x != y {
                            return Err(format!("{:02x?} as an id is {:02x?} or {:02x?}, expected {:02x?}", &f[..n], AsRef::<[u8]>::as_ref(&x), AsRef::<[u8]>::as_ref(&y), w));
                        }
                    }
                    if Petscii::from(id).as_bytes() != [a, b] || String::from(id) != s {
                        return Err(format!("id {:02x} {:02x} converts to {:02x?} and {:?}", a, b, Petscii::from(id).as_bytes(), String::from(id)));
                    }
                }
            }
            Ok(())
        }
        "plane" => {
            let pl: u32 = p[1].parse().unwrap();
            let mut buf = [0u8; 4];
            for c in (pl << 16)..((pl + 1) << 16) {
                let c = match char::from_u32(c) {
                    Some(c) => c,
                    None => continue,
                };
                if c as u32 % 4096 == 0 {
                    cov.tick(|| format!("character U+{:04X}..", c as u32));
                }
                cov.step();
                let g = Petscii::from_str_lossy(c.encode_utf8(&mut buf));
                let w = to_petscii_fast(c);
                if g.as_bytes() != [w] {
                    return Err(format!("U+{:04X} {:?} converts to {:02x?}, expected {:02x}", c as u32, c, g.as_bytes(), w));
                }
                if w != 0x7F {
                    cov.state(c as u64);
                }
            }
            Ok(())
        }
        "strings" => {
            let al: Vec<char> = vec![
                'a', 'z', 'A', 'Z', '0', '9', ' ', '"', '@', '_', '\\', '~', '{', '\u{7f}', '\0', '\n', '\u{a3}', '\u{a0}', '\u{2501}', '\u{2713}', '\u{FFFD}', '\u{e9}', '\u{65e5}', '\u{1F600}',
            ];
            let n = t.pick(3, 4);
            let mut idx = vec![0usize; n];
            for len in 0..=n {
                let total = al.len().pow(len as u32);
                for x in 0..total {
                    let mut y = x;
                    for i in 0..len {
                        idx[i] = y % al.len();
                        y /= al.len();
                    }
                    let s: String = idx[..len].iter().map(|i| al[*i]).collect();
                    if x % 512 == 0 {
                        cov.tick(|| format!("string {:?}", s));
                    }
                    cov.step();
                    let want: Vec<u8> = s.chars().map(to_petscii_fast).collect();
                    let a = Petscii::from_str_lossy(&s);
                    let b: Petscii = s.as_str().into();
                    let c: Petscii = (&s).into();
                    let d: Petscii = s.clone().into();
                    if a.as_bytes() != &want[..] || b != a || c != a || d != a {
                        return Err(format!("{:?} converts to {:02x?}, expected {:02x?}", s, a.as_bytes(), want));
                    }
                    let i: Id = s.as_str().into();
                    if i[0] != *want.first().unwrap_or(&0) || i[1] != *want.get(1).unwrap_or(&0) {
                        return Err(format!("id from {:?} is {:02x?}", s, i));
                    }
                    let back: String = a.clone().into();
                    if Petscii::from_str_lossy(&back).to_string() != back {
                        return Err(format!("{:?}: converting back and forth changes the rendering", s));
                    }
                    cov.state(fp(&[&want]));
                }
            }
            Ok(())
        }
        "pad" => {
            for pad in [0xA0u8, 0x00, 0x20] {
                let al = [pad, b'A', 0xA1, 0x00];
                for n in 0..=t.pick(6usize, 8) {
                    for x in 0..4usize.pow(n as u32) {
                        let f: Vec<u8> = (0..n).map(|i| al[x >> (2 * i) & 3]).collect();
                        if x % 64 == 0 {
                            cov.tick(|| format!("field {:02x?} pad {:02x}", f, pad));
                        }
                        cov.step();
                        let mut want = f.clone();
                        while want.last() == Some(&pad) {
                            want.pop();
                        }
                        let g = Petscii::from_padded_bytes(&f, pad);
                        if g.as_bytes() != &want[..] {
                            return Err(format!("field {:02x?} with padding {:02x} reads as {:02x?}, expected {:02x?}", f, pad, g.as_bytes(), want));
                        }
                        for m in 0..=n + 2 {
                            let mut out = vec![0x55u8; m];
                            let r = g.write_bytes_with_padding(&mut out, pad);
                            if m < want.len() {
                                if r.is_ok() {
                                    return Err(format!("{} bytes were written to a field of {}", want.len(), m));
                                }
                            } else {
                                let mut w = want.clone();
                                w.resize(m, pad);
                                if r.is_err() || out != w {
                                    return Err(format!("{:02x?} written to a field of {} gives {:02x?}, expected {:02x?}", want, m, out, w));
                                }
                                if Petscii::from_padded_bytes(&out, pad) != g {
                                    return Err(format!("{:02x?} does not survive a field of {}", want, m));
                                }
                            }
                        }
                        cov.state(fp(&[&f, &[pad]]));
                    }
                }
            }
            Ok(())
        }
        _ => panic!("case {}", case),
    }
}
fn to_petscii_fast(c: char) -> u8 {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static M: OnceLock<HashMap<char, u8>> = OnceLock::new();
    let m = M.get_or_init(|| (0..=255u8).rev().map(|b| (chart(b), b)).collect());
    *m.get(&c).unwrap_or(&0x7F)
}

// ------------------------------------------------------------------ C24
/// The rows of a hex dump, as documented: offset, hex bytes, printable characters.
pub fn hexrows(d: &[u8]) -> Vec<String> {
    let mut v = vec![];
    for (i, c) in d.chunks(16).enumerate() {
        let mut s = format!("{:04x}: ", i * 16);
        for b in c {
            s += &format!("{:02x} ", b);
        }
        for _ in c.len()..16 {
            s += "   ";
        }
        s.extend(c.iter().map(|b| if (0x20..=0x7e).contains(b) { *b as char } else { '.' }));
        v.push(s);
    }
    v
}
/// Lines without trailing blanks, empty ones dropped (layout is not the subject).
fn lines(s: &str) -> Vec<String> {
    s.lines().map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty()).collect()
}
fn cmp(what: &str, got: &str, want: &[String]) -> R {
    let g = lines(got);
    let w: Vec<String> = want.iter().map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty()).collect();
    if g != w {
        let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap();
        return Err(format!("{}: line {} is {:?}, expected {:?}", what, i + 1, g.get(i), w.get(i)));
    }
    Ok(())
}
pub fn disk_dump(r: &Raw) -> Vec<String> {
    let mut v = vec![];
    for (t, s) in r.g.blocks() {
        v.push(format!("track {:02} sector {:02}", t, s));
        v.extend(hexrows(r.sec((t, s))));
    }
    if r.g.err {
        v.push("Error table:".into());
        let mut i = r.g.nblocks() * 256;
        for t in 1..=r.g.tracks {
            let n = r.g.spt(t) as usize;
            v.push(format!("track {:02}: {}", t, r.d[i..i + n].iter().map(|b| format!("{:02x} ", b)).collect::<String>()));
            i += n;
        }
    }
    v
}
pub fn file_dump(name: &[u8], records: &[Vec<u8>]) -> Vec<String> {
    let mut v = vec![format!("Filename: \"{}\"", unicode(name))];
    for (i, r) in records.iter().enumerate() {
        v.push(format!("Record: {}", i));
        if r.is_empty() {
            v.push("0000:".into());
        }
        v.extend(hexrows(r));
    }
    v
}
pub fn type_name(attr: u8) -> &'static str {
    match attr & 15 {
        0 => "del",
        1 => "seq",
        2 => "prg",
        3 => "usr",
        4 => "rel",
        _ => "unk",
    }
}
/// A directory line.
pub fn dir_line(e: &Ent) -> String {
    let a = e.b[2];
    let q = format!("\"{}\"", unicode(&e.name()));
    let fl = match (a & 0x40 != 0, a & 0x20 != 0) {
        (true, false) => "<",
        (false, true) => "@",
        (true, true) => "<@",
        _ => " ",
    };
    format!("{:<4} {:18}{}{}{}{}", e.size(), q, if a & 0x80 != 0 { ' ' } else { '*' }, type_name(a), fl, if e.border { " (GEOS border)" } else { "" })
}
/// A directory line with the fields particular to the file structure.
pub fn verbose_line(e: &Ent) -> String {
    let x = &e.b[0x15..0x1e];
    let extra = match e.scheme() {
        Scheme::Linear => "REGULAR".to_string(),
        Scheme::Rel => format!("REL(side=({},{}) rec_len={})", x[0], x[1], x[2]),
        s => format!(
            "GEOS({}, {}, {:04}-{:02}-{:02}-{:02}:{:02})",
            if s == Scheme::Vlir { "VLIR" } else { "Sequential" }, geos_type(x[3]), 1900 + x[4] as usize, x[5], x[6], x[7], x[8]
        ),
    };
    let l = dir_line(e);
    match l.strip_suffix(" (GEOS border)") {
        Some(l) => format!("{} {} (GEOS border)", l, extra),
        None => format!("{} {}", l, extra),
    }
}
pub fn geos_type(b: u8) -> String {
    const T: [&str; 15] = [
        "Non-GEOS", "BASIC", "Assembler", "Data file", "System File", "Desk Accessory", "Application", "Application Data", "Font File",
        "Printer Driver", "Input Driver", "Disk Driver", "System Boot File", "Temporary", "Auto-Execute File",
    ];
    T.get(b as usize).map(|s| s.to_string()).unwrap_or_else(|| format!("Unknown(0x{:02x})", b))
}
pub fn bam_text(r: &Raw) -> Vec<String> {
    let mut v = vec![];
    let mut total = 0usize;
    for t in 1..=r.g.dos_tracks() {
        let map: String = (0..r.g.spt(t)).map(|s| if r.is_free(t, s) { '.' } else { 'x' }).collect();
        v.push(format!("t{:02}: [{:02}/{:02}] {}", t, r.free_count(t), r.g.spt(t), map));
        if t != r.g.dir_track() {
            total += r.free_count(t) as usize;
        }
    }
    v.push(format!("{} blocks free.", total));
    v
}

fn c24_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for g in ALL_GEOS {
        v.push(format!("disk/{}", g.name()));
        v.push(format!("listing/{}", g.name()));
    }
    for g in [G64, G40, G71, G81] {
        for tr in 1..=g.dos_tracks() {
            v.push(format!("bam/{}/{}", g.name(), tr));
        }
    }
    for i in 0..9 {
        v.push(format!("verbose/{}", i));
    }
    for i in 0..8 {
        v.push(format!("linear/{}", i));
        v.push(format!("runs/{}", i));
        v.push(format!("lines/{}", i));
    }
    for i in 0..t.pick(6, 14) {
        v.push(format!("records/{}", i));
    }
    for i in 0..5 {
        v.push(format!("large/{}", i));
    }
    for g in ["d64", "d71", "d81"] {
        v.push(format!("huge/{}", g));
    }
    v
}
fn c24_bound(t: Tier) -> String {
    format!(
        "disk dumps of 8 image kinds x 3 contents; file dumps of every length 0..={}; relative and GEOS files, also of the largest size; images and files with runs of every byte value; directory lines for all 256 attribute bytes x {} sizes x 20 names, \
         in the directory and the border block; verbose lines for every value of each of the nine structure bytes x 5 types; allocation map with every single block free or used ({} neighbours)",
        t.pick(800, 4000), t.pick(40, 2000), t.pick("one at a time", "one or two at a time")
    )
}
fn dump_of(f: impl FnOnce(&mut dyn std::io::Write) -> std::io::Result<()>) -> Result<String, String> {
    let mut v: Vec<u8> = vec![];
    k(f(&mut v))?;
    String::from_utf8(v).map_err(|_| "the dump is not text".to_string())
}
fn locs(v: &[Loc]) -> String {
    v.iter().map(|l| format!("({},{})", l.0, l.1)).collect::<Vec<_>>().join(" ")
}
/// Dump and details of every file on the disk.
fn shown(r: &Raw, d: &Dk, cov: &mut Cov) -> R {
    let g = r.g;
    for e in r.entries().unwrap() {
        cov.tick(|| format!("dump of {:?} on {}", e.name(), g.name()));
        cov.step();
        let recs: Vec<Vec<u8>> = match e.scheme() {
            Scheme::Linear | Scheme::Seq => vec![r.chain_data(e.start()).unwrap()],
            Scheme::Rel => crate::world::rel_records(&r.chain_data(e.start()).unwrap(), e.b[0x17]),
            Scheme::Vlir => r.vlir_records(e.start()).unwrap().into_iter().map(|x| x.map(|l| r.chain_data(l).unwrap()).unwrap_or_default()).collect(),
        };
        let f = k(d.open_file(&pet(&e.name())))?;
        let got = dump_of(|w| f.dump(w))?;
        cmp(&format!("dump of {:?}", unicode(&e.name())), &got, &file_dump(&e.name(), &recs))?;
        // the blocks shown in the details are the blocks of the file
        let det = dump_of(|w| f.details(w, 1))?;
        let want: Vec<String> = match e.scheme() {
            Scheme::Linear | Scheme::Seq => vec![locs(&r.chain(e.start()).unwrap().0)],
            Scheme::Rel => {
                let (s, d) = r.side_sectors(e.extra()).unwrap();
                vec![locs(&d), locs(&s)]
            }
            Scheme::Vlir => r.vlir_records(e.start()).unwrap().into_iter().flatten().map(|l| locs(&r.chain(l).unwrap().0)).collect(),
        };
        let at = format!("({},{}@0x{:02x})", e.loc.0, e.loc.1, e.idx * 32);
        if !det.lines().any(|l| l.ends_with(&at) && l.contains("position")) {
            return Err(format!("details of {:?} do not show its directory position {}: {:?}", unicode(&e.name()), at, det));
        }
        for w in want {
            if !det.lines().any(|l| l.ends_with(&w) && l.to_lowercase().contains("sector")) {
                return Err(format!("details of {:?} do not show the blocks {}: {:?}", unicode(&e.name()), w, det));
            }
        }
        let sum = dump_of(|w| f.details(w, 0))?;
        if e.scheme() == Scheme::Vlir {
            let n = r.vlir_records(e.start()).unwrap().iter().rposition(|x| x.is_some()).map(|i| i + 1).unwrap();
            if !sum.contains(&format!("VLIR records: {}\n", n)) {
                return Err(format!("details of {:?} show {:?}, expected {} records", unicode(&e.name()), sum, n));
            }
        }
        cov.state(fp(&[got.as_bytes(), det.as_bytes()]));
    }
    Ok(())
}
fn c24(case: &str, t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    match p[0] {
        "disk" => {
            let g = Geo::by_name(p[1]);
            for (i, r) in [Raw { g, d: content(31, g.size()) }, roots::geos(g), Raw { g, d: (0..g.size()).map(|i| (i % 256) as u8 ^ (i / 256) as u8).collect() }].iter().enumerate() {
                cov.tick(|| format!("dump of {} image {}", g.name(), i));
                cov.step();
                let mut d = load(r);
                let got = dump_of(|w| d.dump(w))?;
                cmp(&format!("dump of a {} image", g.name()), &got, &disk_dump(r))?;
                cov.state(fp(&[&r.d]));
            }
            Ok(())
        }
        "runs" => {
            let part: u8 = p[1].parse().unwrap();
            for v in (0..=255u8).filter(|v| v % 8 == part) {
                let g = Geo::by_name("d64e");
                cov.tick(|| format!("dump of an image filled with {:02x}", v));
                cov.step();
                let r = Raw { g, d: vec![v; g.size()] };
                let mut d = load(&r);
                let got = dump_of(|w| d.dump(w))?;
                cmp(&format!("dump of an image filled with {:02x}", v), &got, &disk_dump(&r))?;
                for how in 0..4 {
                    for n in [16usize, 33, 300] {
                        cov.tick(|| format!("dump of {} bytes of {:02x}, pattern {}", n, v, how));
                        cov.step();
                        let data = crate::files::fill(v, how, n);
                        let mut r = roots::fresh(G64);
                        let b = r.pick_spread(Raw::need(&data), 7, 3);
                        r.add_linear(b"DATA", 0x82, &b, &data);
                        let d = load(&r);
                        let got = dump_of(|w| k(d.open_file(&pet(b"DATA"))).map_err(std::io::Error::other)?.dump(w))?;
                        cov.state(fp(&[got.as_bytes()]));
                        cmp(&format!("dump of {} bytes of {:02x}, pattern {}", n, v, how), &got, &file_dump(b"DATA", &[data]))?;
                    }
                }
            }
            Ok(())
        }
        "linear" => {
            let k0: usize = p[1].parse().unwrap();
            for len in (0..=t.pick(800usize, 4000)).filter(|n| n % 8 == k0) {
                cov.tick(|| format!("dump of a file of {} bytes", len));
                cov.step();
                let mut r = roots::fresh(G64);
                let data = content(len as u32, len);
                let b = r.pick_spread(Raw::need(&data), 7, 3);
                r.add_linear(b"DATA", 0x82, &b, &data);
                let d = load(&r);
                let f = k(d.open_file(&pet(b"DATA")))?;
                let got = dump_of(|w| f.dump(w))?;
                cmp(&format!("dump of a file of {} bytes", len), &got, &file_dump(b"DATA", &[data]))?;
                let det = dump_of(|w| f.details(w, 1))?;
                if !det.lines().any(|l| l.ends_with(&locs(&b)) && l.contains("sectors")) {
                    return Err(format!("details of a file at {} show {:?}", locs(&b), det));
                }
                cov.state(fp(&[got.as_bytes()]));
            }
            Ok(())
        }
        "large" => {
            // offsets of five digits, record numbers of four digits
            let i: usize = p[1].parse().unwrap();
            let g = [G64, G71, G81, G64, G81][i];
            let mut r = roots::fresh(g);
            let reclen = if i < 3 { 0 } else { [1u8, 2][i - 3] };
            let data = content(40 + i as u32, [70_000, 140_001, 200_003, 1100, 20_002][i]);
            let b = r.pick_spread(Raw::need(&data), 1, 3);
            let recs = if reclen == 0 {
                r.add_linear(b"LARGE", 0x81, &b, &data);
                vec![data]
            } else {
                let s = r.pick_spread((b.len() + 119) / 120, 1, 2);
                r.add_rel(b"LARGE", reclen, &b, &s, &data);
                crate::world::rel_records(&data, reclen)
            };
            let d = load(&r);
            cov.tick(|| format!("dump of a large file on {}", g.name()));
            cov.step();
            let f = k(d.open_file(&pet(b"LARGE")))?;
            let got = dump_of(|w| f.dump(w))?;
            cov.state(fp(&[got.as_bytes()]));
            cmp(&format!("dump of a large file on {}", g.name()), &got, &file_dump(b"LARGE", &recs))
        }
        "records" => {
            let i: usize = p[1].parse().unwrap();
            let g = [G64, G71, G81][i % 3];
            let mut r = roots::geos(g);
            // a relative file of some record length and a VLIR file of many records
            let reclen = [1u8, 254, 16, 255, 100, 2, 3, 17, 128, 127, 253, 33, 64, 200][i];
            let nrec = [5usize, 3, 40, 4, 9, 500, 100, 30, 12, 5, 5, 20, 16, 8][i];
            let data = content(70 + i as u32, nrec * reclen as usize);
            let b = r.pick_spread(Raw::need(&data), 3, 20);
            let s = r.pick_spread(1, 1, 300);
            r.add_rel(b"R\xC1 2", reclen, &b, &s, &data);
            let ix = r.pick(1)[0];
            let recs: Vec<Vec<u8>> = (0..10 + i).map(|j| if j % 4 == 3 { vec![] } else { content(j as u32, j * 37 + i) }).collect();
            let mut lay = vec![];
            r.take(ix);
            for x in &recs {
                if x.is_empty() {
                    lay.push(None);
                } else {
                    let b = r.pick(Raw::need(x));
                    for l in &b {
                        r.take(*l);
                    }
                    lay.push(Some((b, x.clone())));
                }
            }
            r.add_vlir(b"MANY", None, ix, &lay, false);
            let d = load(&r);
            shown(&r, &d, cov)
        }
        "huge" => {
            let r = roots::root(&format!("huge@{}", p[1]));
            shown(&r, &load(&r), cov)
        }
        "verbose" => {
            // every value of each structure-specific byte, on plain, GEOS and relative entries
            let pos: usize = p[1].parse().unwrap();
            let r = roots::geos(G64);
            let mut d = load(&r);
            for border in [false, true] {
                let sl = r.slots().unwrap().into_iter().find(|s| s.scratched() && s.border == border).unwrap();
                for attr in [0x81u8, 0x82, 0xC3, 0x84, 0x27] {
                    for base in [[0u8; 9], [3, 4, 0, 1, 88, 2, 29, 13, 7], [9, 10, 1, 6, 99, 12, 31, 23, 59]] {
                        for v in 0..=255u8 {
                            let mut x = base;
                            x[pos] = v;
                            cov.tick(|| format!("verbose line attr={:02x} structure bytes {:02x?} border={}", attr, x, border));
                            cov.step();
                            let e = Raw::entry_bytes(b"V", attr, (1, 2), &x, 3);
                            let mut rr = r.clone();
                            rr.sec_mut(sl.loc)[sl.idx * 32 + 2..sl.idx * 32 + 32].copy_from_slice(&e[2..]);
                            let b = rr.sec(sl.loc).to_vec();
                            k(d.write_sector(ts!(d, sl.loc), &b))?;
                            let want: Vec<String> = rr.entries().unwrap().iter().map(verbose_line).collect();
                            let got: Vec<String> = k(d.directory())?.iter().map(|e| format!("{:#}", e)).collect();
                            if got != want {
                                let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
                                return Err(format!("verbose directory line {} is {:?}, expected {:?}", i, got.get(i), want.get(i)));
                            }
                            let b = r.sec(sl.loc).to_vec();
                            k(d.write_sector(ts!(d, sl.loc), &b))?;
                            cov.state(fp(&[&e]));
                        }
                    }
                }
            }
            Ok(())
        }
        "lines" => {
            let k0: usize = p[1].parse().unwrap();
            let names: Vec<Vec<u8>> = {
                let mut v: Vec<Vec<u8>> = (0..=16).map(|n| (0..n).map(|i| 0x41 + i as u8).collect()).collect();
                v.push((0xC1..0xD1).collect());
                v.push(vec![0x22, 0x2C, 0x20, 0x41]);
                v.push(vec![0x00, 0x0D, 0x41, 0xA0, 0x42]);
                v
            };
            let sizes: Vec<u16> = {
                let mut v: Vec<u16> = vec![0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 257, 511, 999, 1000, 1001, 4095, 9999, 10000, 32767, 32768, 65279, 65280, 65535];
                v.extend((0..16).map(|i| (1u32 << i) as u16));
                if t.thorough() {
                    v.extend((0..2000u32).map(|i| (i * 32 + i % 32) as u16));
                }
                v.sort();
                v.dedup();
                v
            };
            for attr in (0..=255u8).filter(|a| *a as usize % 8 == k0) {
                let mut r = roots::geos(G64);
                let slot = r.slots().unwrap().into_iter().find(|s| s.scratched() && !s.border).unwrap();
                let bslot = r.slots().unwrap().into_iter().find(|s| s.scratched() && s.border).unwrap();
                let base = load(&r);
                let mut d = base;
                for (ni, n) in names.iter().enumerate() {
                    for (si, size) in sizes.iter().enumerate() {
                        if !t.thorough() && ni > 3 && si % names.len() != ni {
                            continue;
                        }
                        let border = (ni + si) % 5 == 4;
                        let sl = if border { &bslot } else { &slot };
                        cov.tick(|| format!("entry attr={:02x} name={:02x?} size={} border={}", attr, n, size, border));
                        cov.step();
                        let e = Raw::entry_bytes(n, attr, (1, 2), &[0; 9], *size);
                        let mut rr = r.clone();
                        rr.sec_mut(sl.loc)[sl.idx * 32 + 2..sl.idx * 32 + 32].copy_from_slice(&e[2..]);
                        let b = rr.sec(sl.loc).to_vec();
                        k(d.write_sector(ts!(d, sl.loc), &b))?;
                        let want: Vec<String> = rr.entries().unwrap().iter().map(dir_line).collect();
                        let got: Vec<String> = k(d.directory())?.iter().map(|e| e.to_string()).collect();
                        if got != want {
                            let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
                            return Err(format!("directory line {} is {:?}, expected {:?} (attr {:02x})", i, got.get(i), want.get(i), attr));
                        }
                        if si == 0 {
                            for (x, e) in k(d.directory())?.iter().zip(rr.entries().unwrap()) {
                                let t = format!("{:?}", x.file_attributes).to_lowercase();
                                let a = e.b[2];
                                if t.starts_with('*') != (a & 0x80 == 0) || t.contains('<') != (a & 0x40 != 0) || t.contains('@') != (a & 0x20 != 0) || !t.contains(type_name(a)) {
                                    return Err(format!("attribute byte {:02x} debug-shows as {:?}", a, t));
                                }
                            }
                        }
                        let b = r.sec(sl.loc).to_vec();
                        k(d.write_sector(ts!(d, sl.loc), &b))?;
                        cov.state(fp(&[&e]));
                    }
                }
                let _ = &mut r;
            }
            Ok(())
        }
        "bam" => {
            let g = Geo::by_name(p[1]);
            let tr: u8 = p[2].parse().unwrap();
            let bases = [roots::mixed(g), {
                let mut r = roots::fresh(g);
                for (t, s) in r.free_blocks() {
                    r.set_free(t, s, false);
                }
                r
            }];
            for base in &bases {
                let mut d = load(base);
                for s in 0..g.spt(tr) {
                    for s2 in s..if t.thorough() { g.spt(tr) } else { s + 1 } {
                        cov.tick(|| format!("allocation map of {} with ({},{}) and {} flipped", g.name(), tr, s, s2));
                        cov.step();
                        let mut r = base.clone();
                        let f = r.is_free(tr, s);
                        r.set_free(tr, s, !f);
                        if s2 != s {
                            let f = r.is_free(tr, s2);
                            r.set_free(tr, s2, !f);
                        }
                        for l in g.bam_sectors().into_iter().chain([g.header()]) {
                            let b = r.sec(l).to_vec();
                            k(d.write_sector(ts!(d, l), &b))?;
                        }
                        d.initialize();
                        let got = format!("{:?}", k(d.bam())?.borrow());
                        cmp(&format!("allocation map of {} with ({},{}) flipped", g.name(), tr, s), &got, &bam_text(&r))?;
                        cov.state(fp(&[got.as_bytes()]));
                    }
                }
            }
            Ok(())
        }
        "listing" => {
            let g = Geo::by_name(p[1]);
            for root in ["geos", "geosdir", "geosfull", "recycled", "odd", "dirfull", "frag"] {
                let r = roots::root(&format!("{}@{}", root, g.name()));
                cov.tick(|| format!("directory lines of {}@{}", root, g.name()));
                cov.step();
                let d = load(&r);
                let es = k(d.directory())?;
                let want = r.entries().unwrap();
                let (a, b): (Vec<String>, Vec<String>) = es.iter().map(|e| (e.to_string(), format!("{:#}", e))).unzip();
                for (got, want) in [(a, want.iter().map(dir_line).collect::<Vec<_>>()), (b, want.iter().map(verbose_line).collect())] {
                    if got != want {
                        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
                        return Err(format!("{}@{}: directory line {} is {:?}, expected {:?}", root, g.name(), i, got.get(i), want.get(i)));
                    }
                }
                cov.state(fp(&[&r.d]));
            }
            let names: [&[u8]; 4] = [b"", b"A", b"SIXTEEN LETTERS!", b"\xC1\xC2 \x22x"];
            for n in names {
                for id in [[b'0', b'1'], [0xA0, 0x41], [0, 255]] {
                    for geos in [false, true] {
                        cov.tick(|| format!("listing {} name {:02x?} id {:02x?} geos {}", g.name(), n, id, geos));
                        cov.step();
                        let mut r = Raw::format(g, n, &id);
                        if geos {
                            r.make_geos(if g.kind == Kind::D81 { (39, 39) } else { (19, 0) });
                        }
                        let d = load(&r);
                        let mut padded = n.to_vec();
                        padded.resize(16, 0xA0);
                        let h = r.sec(g.header());
                        let want = format!(
                            "0 \"{}\" {} {}{}", unicode(&padded), unicode(&id), unicode(&[h[g.ver_off()], h[g.fmt_off()]]),
                            if geos { " (GEOS format V1.0)" } else { "" }
                        );
                        let got = d.to_string();
                        if got != want {
                            return Err(format!("the disk line is {:?}, expected {:?}", got, want));
                        }
                        cov.state(fp(&[got.as_bytes()]));
                    }
                }
            }
            Ok(())
        }
        _ => panic!("case {}", case),
    }
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C17",
        level: "model_checking",
        rule: "the whole code space and all short strings and fields enumerated against an independent chart",
        bound: c17_bound,
        cases: c17_cases,
        run: c17,
    },
    &Prop {
        id: "C24",
        level: "model_checking",
        rule: "every dump and listing of the enumerated images compared with an independent rendering of the image bytes",
        bound: c24_bound,
        cases: c24_cases,
        run: c24,
    },
];
