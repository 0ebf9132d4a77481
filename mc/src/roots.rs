//! Root images the exploration starts from, built by the independent format model.
use crate::raw::*;

pub fn fresh(g: Geo) -> Raw {
    let mut r = Raw::format(g, b"ROOT", b"R1");
    // job error codes that differ from block to block
    for (i, b) in r.d[g.nblocks() * 256..].iter_mut().enumerate() {
        *b = (i * 7 % 251) as u8;
    }
    r
}

/// Linear, relative and GEOS files next to each other.
pub fn mixed(g: Geo) -> Raw {
    let mut r = fresh(g);
    let b = r.pick_spread(3, 7, 5);
    r.add_linear(b"OLD", 0x82, &b, &content(900, 600));
    let b = r.pick_spread(2, 11, 60);
    r.add_linear(b"LOCK", 0xC1, &b, &content(901, 254 + 17));
    let b = r.pick_spread(4, 5, 100);
    let s = r.pick_spread(1, 1, 333);
    r.add_rel(b"REL", 100, &b, &s, &content(902, 800));
    let i = r.pick_spread(1, 1, 401);
    let b = r.pick_spread(3, 9, 200);
    r.add_seq(b"GSEQ", Some(i[0]), &b, &content(903, 520));
    let i = r.pick_spread(2, 3, 420);
    let a = r.pick_spread(2, 3, 260);
    let c = r.pick_spread(1, 3, 290);
    r.add_vlir(
        b"VLIR", Some(i[0]), i[1],
        &[Some((a, content(904, 300))), None, Some((c, content(905, 80)))], true,
    );
    r
}

/// A GEOS disk with files in the directory and in the border block.
pub fn geos(g: Geo) -> Raw {
    geos_at(g, match g.kind {
        Kind::D81 => (39, 39),
        _ => (19, 0),
    })
}
/// The border block is on the directory track (as on the usual 1581 disks).
pub fn geosdir(g: Geo) -> Raw {
    geos_at(g, match g.kind {
        Kind::D81 => (40, 19),
        _ => (18, 12),
    })
}
fn geos_at(g: Geo, b: Loc) -> Raw {
    let mut r = mixed(g);
    r.make_geos(b);
    let i = r.pick_spread(2, 3, 450);
    let a = r.pick_spread(1, 3, 470);
    let mut e = r.vlir_entry(b"BORD", Some(i[0]), i[1], &[Some((a, content(906, 120)))], false);
    e[0] = 0;
    r.sec_mut(b)[32 * 2 + 2..32 * 3].copy_from_slice(&e[2..]);
    r
}

/// The directory is full, and there are more entries in the border block.
pub fn geosfull(g: Geo) -> Raw {
    let mut r = dirfill(g, dirblocks(g), 0);
    let b = match g.kind {
        Kind::D81 => (39, 39),
        _ => (19, 0),
    };
    // (the block may have been given to a file: exchange it)
    if !r.is_free(b.0, b.1) {
        let e = r.entries().unwrap().into_iter().find(|e| e.start() == b).unwrap();
        let n = r.pick_spread(1, 1, 300)[0];
        let data = r.sec(b).to_vec();
        r.sec_mut(n).copy_from_slice(&data);
        r.set_free(n.0, n.1, false);
        r.set_free(b.0, b.1, true);
        let o = e.idx * 32;
        r.sec_mut(e.loc)[o + 3] = n.0;
        r.sec_mut(e.loc)[o + 4] = n.1;
    }
    r.make_geos(b);
    for (slot, name) in [(0, &b"BORD"[..]), (7, b"REL")] {
        let i = r.pick_spread(2, 3, 420 + slot);
        let a = r.pick_spread(1, 3, 440 + slot);
        let mut e = r.vlir_entry(name, Some(i[0]), i[1], &[Some((a, content(906, 120)))], false);
        e[0] = 0;
        r.sec_mut(b)[32 * slot + 2..32 * slot + 32].copy_from_slice(&e[2..]);
    }
    r
}

/// All data blocks used up except the given ones (by rank among the free blocks).
pub fn keep_free(r: &mut Raw, keep: &[Loc]) {
    let fill: Vec<Loc> = r.free_data().into_iter().filter(|l| !keep.contains(l)).collect();
    let n = fill.len();
    if n > 0 {
        // two filler files so that no block count exceeds 16 bits and chains stay moderate
        r.add_linear(b"FILL", 0x82, &fill, &content(77, n * 254 - 3));
    }
}
pub fn nearfull(g: Geo, n: usize) -> Raw {
    let mut r = fresh(g);
    let b = r.pick(2);
    r.add_linear(b"OLD", 0x82, &b, &content(900, 300));
    let keep = r.pick_spread(n, 97, 13);
    keep_free(&mut r, &keep);
    r
}

/// The directory holds as many entries as fit in `blocks` directory blocks, minus `spare`.
pub fn dirfill(g: Geo, blocks: usize, spare: usize) -> Raw {
    let mut r = fresh(g);
    for i in 0..blocks * 8 - spare {
        let b = r.pick(1);
        let name = if i == 3 { b"OLD".to_vec() } else { format!("F{}", i).into_bytes() };
        r.add_linear(&name, 0x82, &b, &content(500 + i as u32, 5 + i % 200));
    }
    r
}
pub fn dirblocks(g: Geo) -> usize {
    // blocks of the directory track that can hold entries
    match g.kind {
        Kind::D81 => 37,
        _ => 18,
    }
}

/// Scratched slots with leftovers of GEOS and relative entries in front of the free ones.
pub fn recycled(g: Geo) -> Raw {
    let mut r = mixed(g);
    for (name, flags) in [(&b"REL"[..], 0x50), (b"VLIR", 0x20), (b"LOCK", 0x40)] {
        let e = r.find(name).unwrap();
        for l in r.file_blocks(&e).unwrap() {
            r.set_free(l.0, l.1, true);
        }
        r.sec_mut(e.loc)[e.idx * 32 + 2] = flags;
    }
    r
}

/// Only every second block is free.
pub fn fragmented(g: Geo) -> Raw {
    let mut r = fresh(g);
    let f = r.free_data();
    let all: Vec<Loc> = f.iter().step_by(2).copied().collect();
    let n = all.len();
    r.add_linear(b"OLD", 0x82, &all, &content(900, n * 254));
    r
}

/// Entries with unusual attributes: unclosed, replacement flag, deleted-type files that are closed (as used for separators).
pub fn odd(g: Geo) -> Raw {
    let mut r = fresh(g);
    for (i, (n, a)) in [("OLD", 0x02), ("D", 0x80), ("SPLAT", 0x41), ("B", 0xE3), ("LOCK", 0xC0), ("U5", 0x85), ("U15", 0x0F)].into_iter().enumerate() {
        let b = r.pick_spread(1 + i % 3, 5, 20 + 31 * i);
        let n2 = b.len() * 254 - [3usize, 0, 200][i % 3];
        r.add_linear(n.as_bytes(), a, &b, &content(950 + i as u32, n2));
    }
    r
}
/// One file of more than 256 (and, where it fits, of more than 1024) blocks over many tracks.
pub fn big(g: Geo) -> Raw {
    let mut r = fresh(g);
    let n = match g.kind {
        Kind::D64 => 300,
        Kind::D71 => 700,
        Kind::D81 => 1500,
    };
    let f = r.free_data();
    let b: Vec<Loc> = (0..n).map(|i| f[(i * 2) % f.len() + (i * 2) / f.len()]).collect();
    r.add_linear(b"OLD", 0x82, &b, &content(960, n * 254 - 7));
    r
}

/// Files of every structure as large as they get: a relative file with several side sectors (six where they
/// fit), a VLIR file with all 127 records, a GEOS sequential file and a linear file of most other blocks.
pub fn huge(g: Geo) -> Raw {
    let mut r = fresh(g);
    let (rel, seq, lin) = match g.kind {
        Kind::D64 => (250, 70, 150),
        Kind::D71 => (720, 100, 330),
        Kind::D81 => (720, 300, 1900),
    };
    let b = r.pick_spread(rel, 1, 3);
    for l in &b {
        r.take(*l);
    }
    let s = r.pick_spread((rel + 119) / 120, 1, 2);
    let n = (rel - 1) * 254 + 200;
    r.add_rel(b"REL", 50, &b, &s, &content(970, n / 50 * 50));
    let ix = r.pick(2);
    let mut lay = vec![];
    for l in &ix {
        r.take(*l);
    }
    for i in 0..127 {
        if i == 50 || i == 100 {
            lay.push(None);
        } else {
            let b = r.pick(1);
            r.take(b[0]);
            lay.push(Some((b, content(i, 1 + i as usize))));
        }
    }
    r.add_vlir(b"VLIR", Some(ix[0]), ix[1], &lay, false);
    let b = r.pick_spread(seq, 1, 1);
    let i = r.pick(1)[0];
    r.take(i);
    let b = if b.contains(&i) { r.pick_spread(seq, 1, 1) } else { b };
    r.add_seq(b"GSEQ", Some(i), &b, &content(971, seq * 254 - 100));
    let b = r.pick(lin);
    r.add_linear(b"OLD", 0x82, &b, &content(972, lin * 254 - 9));
    r
}

/// Free blocks of a disk in use hold leftovers: here, what looks like links and directory entries.
pub fn stale(r: &mut Raw) {
    let g = r.g;
    let dt = g.dir_track();
    for t in [1, 2, dt - 1, dt, dt + 1] {
        for s in 0..g.spt(t) {
            if r.is_free(t, s) {
                let b = r.sec_mut((t, s));
                for (i, e) in b.chunks_mut(32).enumerate() {
                    e.copy_from_slice(&Raw::entry_bytes(format!("GHOST{}", i).as_bytes(), 0x82, (dt - 1, 3), &[1; 9], 0x0101));
                }
                b[0] = dt - 1;
                b[1] = s;
            }
        }
    }
}

pub fn root(name: &str) -> Raw {
    let (k, g) = name.split_once('@').unwrap_or_else(|| panic!("root {}", name));
    let g = Geo::by_name(g);
    let mut r = match k {
        "fresh" => fresh(g),
        "mixed" => mixed(g),
        "geos" => geos(g),
        "geosdir" => geosdir(g),
        "geosfull" => geosfull(g),
        "full" => nearfull(g, 0),
        "free1" => nearfull(g, 1),
        "free2" => nearfull(g, 2),
        "free3" => nearfull(g, 3),
        "full8" => {
            let mut r = dirfill(g, 1, 1);
            keep_free(&mut r, &[]);
            r
        }
        "dir7" => dirfill(g, 1, 1),
        "dir8" => dirfill(g, 1, 0),
        "dirfull" => dirfill(g, dirblocks(g), 0),
        "dirlast" => dirfill(g, dirblocks(g), 1),
        "dirlast8" => dirfill(g, dirblocks(g) - 1, 0),
        "recycled" => recycled(g),
        "odd" => odd(g),
        "big" => big(g),
        "huge" => huge(g),
        "frag" => fragmented(g),
        _ => panic!("root {}", name),
    };
    stale(&mut r);
    let p = r.problems();
    assert!(p.is_empty(), "harness: root {} is inconsistent: {:?}", name, p);
    r
}
