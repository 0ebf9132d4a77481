//! Independent implementation of the CBM DOS (1541/1571/1581) and GEOS on-disk layout, written from the
//! published format descriptions.  It shares no code with the crate under test and is the oracle for it.
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    D64,
    D71,
    D81,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Geo {
    pub kind: Kind,
    pub tracks: u8,
    pub err: bool,
}

pub const G64: Geo = Geo { kind: Kind::D64, tracks: 35, err: false };
pub const G64E: Geo = Geo { kind: Kind::D64, tracks: 35, err: true };
pub const G40: Geo = Geo { kind: Kind::D64, tracks: 40, err: false };
pub const G40E: Geo = Geo { kind: Kind::D64, tracks: 40, err: true };
pub const G71: Geo = Geo { kind: Kind::D71, tracks: 70, err: false };
pub const G71E: Geo = Geo { kind: Kind::D71, tracks: 70, err: true };
pub const G81: Geo = Geo { kind: Kind::D81, tracks: 80, err: false };
pub const G81E: Geo = Geo { kind: Kind::D81, tracks: 80, err: true };
pub const ALL_GEOS: [Geo; 8] = [G64, G64E, G40, G40E, G71, G71E, G81, G81E];

pub type Loc = (u8, u8);

impl Geo {
    pub fn name(self) -> &'static str {
        match (self.kind, self.tracks, self.err) {
            (Kind::D64, 35, false) => "d64",
            (Kind::D64, 35, true) => "d64e",
            (Kind::D64, 40, false) => "d64x40",
            (Kind::D64, 40, true) => "d64x40e",
            (Kind::D71, _, false) => "d71",
            (Kind::D71, _, true) => "d71e",
            (Kind::D81, _, false) => "d81",
            _ => "d81e",
        }
    }
    pub fn by_name(n: &str) -> Geo {
        *ALL_GEOS.iter().find(|g| g.name() == n).unwrap_or_else(|| panic!("geo {}", n))
    }
    pub fn ext(self) -> &'static str {
        match self.kind {
            Kind::D64 => "d64",
            Kind::D71 => "d71",
            Kind::D81 => "d81",
        }
    }
    /// Sectors on a track (0 if there is no such track).
    pub fn spt(self, t: u8) -> u8 {
        if t == 0 || t > self.tracks {
            return 0;
        }
        match self.kind {
            Kind::D81 => 40,
            _ => {
                let t = if self.kind == Kind::D71 && t > 35 { t - 35 } else { t };
                match t {
                    1..=17 => 21,
                    18..=24 => 19,
                    25..=30 => 18,
                    _ => 17,
                }
            }
        }
    }
    pub fn nblocks(self) -> usize {
        (1..=self.tracks).map(|t| self.spt(t) as usize).sum()
    }
    pub fn size(self) -> usize {
        self.nblocks() * if self.err { 257 } else { 256 }
    }
    pub fn index(self, t: u8, s: u8) -> Option<usize> {
        if s >= self.spt(t) {
            return None;
        }
        Some((1..t).map(|t| self.spt(t) as usize).sum::<usize>() + s as usize)
    }
    pub fn off(self, t: u8, s: u8) -> Option<usize> {
        self.index(t, s).map(|i| i * 256)
    }
    pub fn dir_track(self) -> u8 {
        if self.kind == Kind::D81 { 40 } else { 18 }
    }
    pub fn first_dir(self) -> Loc {
        if self.kind == Kind::D81 { (40, 3) } else { (18, 1) }
    }
    pub fn header(self) -> Loc {
        (self.dir_track(), 0)
    }
    /// Last track covered by the allocation map.
    pub fn dos_tracks(self) -> u8 {
        match self.kind {
            Kind::D64 => 35,
            Kind::D71 => 70,
            Kind::D81 => 80,
        }
    }
    pub fn reserved_track(self) -> u8 {
        if self.kind == Kind::D71 { 53 } else { 0 }
    }
    pub fn interleave(self) -> u8 {
        match self.kind {
            Kind::D64 => 10,
            Kind::D71 => 6,
            Kind::D81 => 1,
        }
    }
    pub fn dir_interleave(self) -> u8 {
        if self.kind == Kind::D81 { 1 } else { 3 }
    }
    pub fn system(self) -> Vec<Loc> {
        match self.kind {
            Kind::D64 => vec![(18, 0), (18, 1)],
            Kind::D71 => {
                let mut v = vec![(18, 0), (18, 1)];
                v.extend((0..19).map(|s| (53, s)));
                v
            }
            Kind::D81 => vec![(40, 0), (40, 1), (40, 2), (40, 3)],
        }
    }
    /// Absolute offsets of (free count, bitmap, bitmap length) for a track.
    pub fn bam(self, t: u8) -> (usize, usize, usize) {
        match self.kind {
            Kind::D64 => {
                let h = self.off(18, 0).unwrap();
                (h + 4 * t as usize, h + 4 * t as usize + 1, 3)
            }
            Kind::D71 => {
                let h = self.off(18, 0).unwrap();
                if t <= 35 {
                    (h + 4 * t as usize, h + 4 * t as usize + 1, 3)
                } else {
                    let b = self.off(53, 0).unwrap();
                    (h + 0xDD + (t - 36) as usize, b + 3 * (t - 36) as usize, 3)
                }
            }
            Kind::D81 => {
                let (s, i) = if t <= 40 { (1, t - 1) } else { (2, t - 41) };
                let b = self.off(40, s).unwrap() + 0x10 + 6 * i as usize;
                (b, b + 1, 5)
            }
        }
    }
    pub fn bam_sectors(self) -> Vec<Loc> {
        match self.kind {
            Kind::D64 => vec![(18, 0)],
            Kind::D71 => vec![(18, 0), (53, 0)],
            Kind::D81 => vec![(40, 1), (40, 2)],
        }
    }
    pub fn name_off(self) -> usize {
        if self.kind == Kind::D81 { 4 } else { 0x90 }
    }
    pub fn id_off(self) -> usize {
        if self.kind == Kind::D81 { 0x16 } else { 0xA2 }
    }
    pub fn ver_off(self) -> usize {
        if self.kind == Kind::D81 { 0x19 } else { 0xA5 }
    }
    pub fn fmt_off(self) -> usize {
        if self.kind == Kind::D81 { 0x1A } else { 0xA6 }
    }
    pub fn pads(self) -> &'static [usize] {
        if self.kind == Kind::D81 {
            &[0x14, 0x15, 0x18, 0x1B, 0x1C]
        } else {
            &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA]
        }
    }
    pub fn blocks(self) -> Vec<Loc> {
        let mut v = vec![];
        for t in 1..=self.tracks {
            for s in 0..self.spt(t) {
                v.push((t, s));
            }
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scheme {
    Linear,
    Rel,
    Seq,
    Vlir,
}

/// A directory slot.
#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub loc: Loc,
    pub idx: usize, // 0..8 within the sector
    pub b: Vec<u8>, // 32 bytes
    pub border: bool,
}
impl Ent {
    pub fn scratched(&self) -> bool {
        self.b[2] & 0x8f == 0
    }
    pub fn ftype(&self) -> u8 {
        self.b[2] & 0x0f
    }
    pub fn name(&self) -> Vec<u8> {
        let mut n = self.b[5..21].to_vec();
        while n.last() == Some(&0xA0) {
            n.pop();
        }
        n
    }
    pub fn start(&self) -> Loc {
        (self.b[3], self.b[4])
    }
    pub fn size(&self) -> u16 {
        self.b[0x1e] as u16 | (self.b[0x1f] as u16) << 8
    }
    pub fn scheme(&self) -> Scheme {
        if self.ftype() == 4 {
            Scheme::Rel
        } else if self.b[2] & 7 < 4 && self.b[0x17] <= 1 && (self.b[0x17] != 0 || self.b[0x18] != 0) {
            if self.b[0x17] == 1 { Scheme::Vlir } else { Scheme::Seq }
        } else {
            Scheme::Linear
        }
    }
    pub fn extra(&self) -> Loc {
        (self.b[0x15], self.b[0x16])
    }
}

#[derive(Clone, PartialEq)]
pub struct Raw {
    pub g: Geo,
    pub d: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    Loop,
    Location,
    Link,
    Structure,
}

impl Raw {
    pub fn blank(g: Geo) -> Raw {
        Raw { g, d: vec![0; g.size()] }
    }
    pub fn sec(&self, l: Loc) -> &[u8] {
        let o = self.g.off(l.0, l.1).unwrap_or_else(|| panic!("harness: bad location {:?}", l));
        &self.d[o..o + 256]
    }
    pub fn sec_mut(&mut self, l: Loc) -> &mut [u8] {
        let o = self.g.off(l.0, l.1).unwrap_or_else(|| panic!("harness: bad location {:?}", l));
        &mut self.d[o..o + 256]
    }
    pub fn sec_opt(&self, l: Loc) -> Option<&[u8]> {
        self.g.off(l.0, l.1).map(|o| &self.d[o..o + 256])
    }
    pub fn format(g: Geo, name: &[u8], id: &[u8; 2]) -> Raw {
        let mut r = Raw::blank(g);
        if g.err {
            let n = g.nblocks();
            for b in &mut r.d[n * 256..] {
                *b = 1;
            }
        }
        let fd = g.first_dir();
        r.sec_mut(fd)[1] = 0xff;
        {
            let h = r.sec_mut(g.header());
            h[0] = fd.0;
            h[1] = fd.1;
            let (ft, ver) = if g.kind == Kind::D81 { (b'D', b'3') } else { (b'A', b'2') };
            h[2] = ft;
            if g.kind == Kind::D71 {
                h[3] = 0x80;
            }
            for i in 0..16 {
                h[g.name_off() + i] = *name.get(i).unwrap_or(&0xA0);
            }
            h[g.id_off()] = id[0];
            h[g.id_off() + 1] = id[1];
            h[g.ver_off()] = ver;
            h[g.fmt_off()] = ft;
            for p in g.pads() {
                h[*p] = 0xA0;
            }
        }
        for t in 1..=g.dos_tracks() {
            let sys = g.system();
            for s in 0..g.spt(t) {
                r.set_free(t, s, !sys.contains(&(t, s)));
            }
        }
        r
    }
    pub fn is_free(&self, t: u8, s: u8) -> bool {
        let (_, b, _) = self.g.bam(t);
        self.d[b + s as usize / 8] >> (s % 8) & 1 == 1
    }
    pub fn free_count(&self, t: u8) -> u8 {
        self.d[self.g.bam(t).0]
    }
    /// Change an allocation bit and recount the track.
    pub fn set_free(&mut self, t: u8, s: u8, free: bool) {
        let (f, b, n) = self.g.bam(t);
        let m = 1u8 << (s % 8);
        if free {
            self.d[b + s as usize / 8] |= m;
        } else {
            self.d[b + s as usize / 8] &= !m;
        }
        self.d[f] = self.d[b..b + n].iter().map(|x| x.count_ones() as u8).sum();
    }
    pub fn bits(&self, t: u8) -> u32 {
        let (_, b, n) = self.g.bam(t);
        self.d[b..b + n].iter().map(|x| x.count_ones()).sum()
    }
    pub fn free_blocks(&self) -> Vec<Loc> {
        let mut v = vec![];
        for t in 1..=self.g.dos_tracks() {
            for s in 0..self.g.spt(t) {
                if self.is_free(t, s) {
                    v.push((t, s));
                }
            }
        }
        v
    }
    /// Free blocks usable for file data.
    pub fn free_data(&self) -> Vec<Loc> {
        self.free_blocks().into_iter().filter(|l| l.0 != self.g.dir_track()).collect()
    }
    pub fn geos(&self) -> bool {
        &self.sec(self.g.header())[0xAD..0xAD + 11] == b"GEOS format"
    }
    pub fn border(&self) -> Option<Loc> {
        if self.geos() {
            let h = self.sec(self.g.header());
            Some((h[0xAB], h[0xAC]))
        } else {
            None
        }
    }
    /// Follow a chain; Ok(list of blocks and bytes used in the last one).
    pub fn chain(&self, start: Loc) -> Result<(Vec<Loc>, usize), Bad> {
        let mut v: Vec<Loc> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut l = start;
        loop {
            if !seen.insert(l) {
                return Err(Bad::Loop);
            }
            let b = self.sec_opt(l).ok_or(Bad::Location)?;
            v.push(l);
            if b[0] == 0 {
                if b[1] < 1 {
                    return Err(Bad::Link);
                }
                return Ok((v, b[1] as usize + 1));
            }
            l = (b[0], b[1]);
        }
    }
    pub fn chain_data(&self, start: Loc) -> Result<Vec<u8>, Bad> {
        let (v, used) = self.chain(start)?;
        let mut d = vec![];
        for (i, l) in v.iter().enumerate() {
            let b = self.sec(*l);
            d.extend_from_slice(if i + 1 == v.len() { &b[2..used] } else { &b[2..] });
        }
        Ok(d)
    }
    pub fn dir_chain(&self) -> Result<Vec<Loc>, Bad> {
        Ok(self.chain(self.g.first_dir())?.0)
    }
    /// All directory slots (scratched ones too), border block last.
    pub fn slots(&self) -> Result<Vec<Ent>, Bad> {
        let (c, used) = self.chain(self.g.first_dir())?;
        let mut v = vec![];
        for (k, l) in c.iter().enumerate() {
            let n = if k + 1 == c.len() { used } else { 256 };
            for i in 0..n / 32 {
                v.push(Ent { loc: *l, idx: i, b: self.sec(*l)[i * 32..i * 32 + 32].to_vec(), border: false });
            }
        }
        if let Some(b) = self.border() {
            let s = self.sec_opt(b).ok_or(Bad::Location)?;
            for i in 0..8 {
                v.push(Ent { loc: b, idx: i, b: s[i * 32..i * 32 + 32].to_vec(), border: true });
            }
        }
        Ok(v)
    }
    pub fn entries(&self) -> Result<Vec<Ent>, Bad> {
        Ok(self.slots()?.into_iter().filter(|e| !e.scratched()).collect())
    }
    pub fn find(&self, name: &[u8]) -> Option<Ent> {
        self.entries().ok()?.into_iter().find(|e| e.name() == name)
    }
    pub fn vlir_records(&self, index: Loc) -> Result<Vec<Option<Loc>>, Bad> {
        let b = self.sec_opt(index).ok_or(Bad::Location)?;
        let mut v = vec![];
        for c in b[2..].chunks(2) {
            match (c[0], c[1]) {
                (0, 0) => break,
                (0, 0xff) => v.push(None),
                (t, s) => v.push(Some((t, s))),
            }
        }
        Ok(v)
    }
    pub fn side_sectors(&self, first: Loc) -> Result<(Vec<Loc>, Vec<Loc>), Bad> {
        let (c, used) = self.chain(first)?;
        let mut data = vec![];
        for (i, l) in c.iter().enumerate() {
            let n = if i + 1 == c.len() { used } else { 256 };
            for p in self.sec(*l)[16..n.max(16)].chunks(2) {
                if p.len() == 2 {
                    data.push((p[0], p[1]));
                }
            }
        }
        Ok((c, data))
    }
    /// Every block a file occupies.
    pub fn file_blocks(&self, e: &Ent) -> Result<Vec<Loc>, Bad> {
        let mut v = match e.scheme() {
            Scheme::Rel => {
                let (side, data) = self.side_sectors(e.extra())?;
                let mut v = data;
                v.extend(side);
                v
            }
            Scheme::Linear => self.chain(e.start())?.0,
            Scheme::Seq | Scheme::Vlir => {
                let mut v = self.chain(e.start())?.0;
                if e.extra() != (0, 0) {
                    v.push(e.extra());
                }
                if e.scheme() == Scheme::Vlir {
                    for r in self.vlir_records(e.start())?.into_iter().flatten() {
                        v.extend(self.chain(r)?.0);
                    }
                }
                v
            }
        };
        v.sort();
        v.dedup();
        Ok(v)
    }
    /// block -> owners
    pub fn usage(&self) -> Result<BTreeMap<Loc, Vec<String>>, Bad> {
        let mut u: BTreeMap<Loc, Vec<String>> = BTreeMap::new();
        let mut sys = self.g.system();
        sys.extend(self.dir_chain()?);
        if let Some(b) = self.border() {
            sys.push(b);
        }
        sys.sort();
        sys.dedup();
        for l in sys {
            u.entry(l).or_default().push("<system>".into());
        }
        for e in self.entries()? {
            for l in self.file_blocks(&e)? {
                u.entry(l).or_default().push(format!("{:?}", String::from_utf8_lossy(&e.name())));
            }
        }
        Ok(u)
    }
    /// Consistency problems of the whole image (empty: consistent).
    pub fn problems(&self) -> Vec<String> {
        let mut p = vec![];
        let u = match self.usage() {
            Ok(u) => u,
            Err(e) => return vec![format!("structures cannot be followed: {:?}", e)],
        };
        for (l, o) in &u {
            if o.len() > 1 {
                p.push(format!("block {:?} has several owners: {}", l, o.join(", ")));
            }
        }
        for t in 1..=self.g.dos_tracks() {
            for s in 0..self.g.spt(t) {
                let used = u.contains_key(&(t, s));
                if self.is_free(t, s) && used {
                    p.push(format!("block ({},{}) is used by {} but marked free", t, s, u[&(t, s)].join(",")));
                }
                if !self.is_free(t, s) && !used {
                    p.push(format!("block ({},{}) is marked allocated but nothing uses it", t, s));
                }
            }
            if self.free_count(t) as u32 != self.bits(t) {
                p.push(format!("track {}: free count {} but {} free bits", t, self.free_count(t), self.bits(t)));
            }
            let valid: u32 = (0..self.g.spt(t)).filter(|s| self.is_free(t, *s)).count() as u32;
            if valid != self.bits(t) {
                p.push(format!("track {}: free bits beyond the last sector", t));
            }
        }
        if let Ok(es) = self.entries() {
            for e in es {
                if let Ok(b) = self.file_blocks(&e) {
                    if b.len() != e.size() as usize {
                        p.push(format!("file {:?} occupies {} blocks but its entry says {}", String::from_utf8_lossy(&e.name()), b.len(), e.size()));
                    }
                }
            }
        }
        p
    }

    // ------------------------------------------------------------------ builders
    pub fn take(&mut self, l: Loc) {
        if l.0 <= self.g.dos_tracks() {
            self.set_free(l.0, l.1, false);
        }
    }
    /// n free blocks, lowest tracks first, skipping the directory track.
    pub fn pick(&self, n: usize) -> Vec<Loc> {
        let f = self.free_data();
        assert!(f.len() >= n, "harness: not enough free blocks");
        f[..n].to_vec()
    }
    /// n free blocks scattered over the disk (every k-th free block).
    pub fn pick_spread(&self, n: usize, k: usize, from: usize) -> Vec<Loc> {
        let f = self.free_data();
        (0..n).map(|i| f[(from + i * k) % f.len()]).collect()
    }
    pub fn put_chain(&mut self, blocks: &[Loc], data: &[u8]) {
        assert!(!blocks.is_empty() && data.len() <= blocks.len() * 254, "harness: chain size");
        for (i, l) in blocks.iter().enumerate() {
            self.take(*l);
            let last = i + 1 == blocks.len();
            let lo = (i * 254).min(data.len());
            let hi = ((i + 1) * 254).min(data.len());
            let next = blocks.get(i + 1).copied();
            let chunk = data[lo..hi].to_vec();
            let s = self.sec_mut(*l);
            for b in s.iter_mut() {
                *b = 0;
            }
            if last {
                s[0] = 0;
                s[1] = (chunk.len() + 1) as u8;
            } else {
                let n = next.unwrap();
                s[0] = n.0;
                s[1] = n.1;
            }
            s[2..2 + chunk.len()].copy_from_slice(&chunk);
        }
    }
    pub fn need(data: &[u8]) -> usize {
        ((data.len() + 253) / 254).max(1)
    }
    /// Put a 32-byte entry into the first scratched slot, extending the directory if needed.
    pub fn put_entry(&mut self, e: &[u8]) -> (Loc, usize) {
        assert_eq!(e.len(), 32);
        let slot = self.slots().unwrap().into_iter().find(|s| s.scratched() && !s.border);
        let (loc, idx) = match slot {
            Some(s) => (s.loc, s.idx),
            None => {
                let last = *self.dir_chain().unwrap().last().unwrap();
                let t = self.g.dir_track();
                let s = (0..self.g.spt(t)).find(|s| self.is_free(t, *s)).expect("harness: directory full");
                self.take((t, s));
                let b = self.sec_mut(last);
                b[0] = t;
                b[1] = s;
                let b = self.sec_mut((t, s));
                for x in b.iter_mut() {
                    *x = 0;
                }
                b[1] = 0xff;
                ((t, s), 0)
            }
        };
        self.sec_mut(loc)[idx * 32 + 2..idx * 32 + 32].copy_from_slice(&e[2..]);
        (loc, idx)
    }
    pub fn entry_bytes(name: &[u8], attr: u8, start: Loc, extra: &[u8; 9], size: u16) -> Vec<u8> {
        let mut e = vec![0u8; 32];
        e[2] = attr;
        e[3] = start.0;
        e[4] = start.1;
        for i in 0..16 {
            e[5 + i] = *name.get(i).unwrap_or(&0xA0);
        }
        e[0x15..0x1e].copy_from_slice(extra);
        e[0x1e] = size as u8;
        e[0x1f] = (size >> 8) as u8;
        e
    }
    pub fn add_linear(&mut self, name: &[u8], attr: u8, blocks: &[Loc], data: &[u8]) {
        self.put_chain(blocks, data);
        let e = Raw::entry_bytes(name, attr, blocks[0], &[0; 9], blocks.len() as u16);
        self.put_entry(&e);
    }
    /// A relative file: `data` in `blocks`, side sectors in `side`.
    pub fn add_rel(&mut self, name: &[u8], reclen: u8, blocks: &[Loc], side: &[Loc], data: &[u8]) {
        self.put_chain(blocks, data);
        for (i, l) in side.iter().enumerate() {
            self.take(*l);
            let lo = i * 120;
            let hi = ((i + 1) * 120).min(blocks.len());
            let next = side.get(i + 1).copied();
            let all = side.to_vec();
            let part = blocks[lo..hi].to_vec();
            let s = self.sec_mut(*l);
            for x in s.iter_mut() {
                *x = 0;
            }
            match next {
                Some(n) => {
                    s[0] = n.0;
                    s[1] = n.1;
                }
                None => s[1] = (16 + part.len() * 2 - 1) as u8,
            }
            s[2] = i as u8;
            s[3] = reclen;
            for (j, x) in all.iter().enumerate() {
                s[4 + 2 * j] = x.0;
                s[5 + 2 * j] = x.1;
            }
            for (j, x) in part.iter().enumerate() {
                s[16 + 2 * j] = x.0;
                s[17 + 2 * j] = x.1;
            }
        }
        let extra = [side[0].0, side[0].1, reclen, 0, 0, 0, 0, 0, 0];
        let e = Raw::entry_bytes(name, 0x84, blocks[0], &extra, (blocks.len() + side.len()) as u16);
        self.put_entry(&e);
    }
    pub fn put_info(&mut self, l: Loc, seed: u8) {
        self.take(l);
        let s = self.sec_mut(l);
        for (i, x) in s.iter_mut().enumerate() {
            *x = (i as u8).wrapping_mul(7).wrapping_add(seed) | 1;
        }
        s[0] = 0;
        s[1] = 0xff;
        s[0x44] = 0x83;
        s[0x45] = 6;
        s[0x46] = 1;
    }
    pub fn geos_extra(info: Option<Loc>, vlir: bool, gtype: u8) -> [u8; 9] {
        let i = info.unwrap_or((0, 0));
        [i.0, i.1, vlir as u8, gtype, 88, 7, 13, 14, 15]
    }
    pub fn add_seq(&mut self, name: &[u8], info: Option<Loc>, blocks: &[Loc], data: &[u8]) {
        self.put_chain(blocks, data);
        if let Some(l) = info {
            self.put_info(l, 3);
        }
        let x = Raw::geos_extra(info, false, 4);
        let e = Raw::entry_bytes(name, 0x83, blocks[0], &x, (blocks.len() + info.is_some() as usize) as u16);
        self.put_entry(&e);
    }
    /// records: None = unavailable (0,255)
    pub fn add_vlir(&mut self, name: &[u8], info: Option<Loc>, index: Loc, records: &[Option<(Vec<Loc>, Vec<u8>)>], pad_ff: bool) {
        let e = self.vlir_entry(name, info, index, records, pad_ff);
        self.put_entry(&e);
    }
    pub fn vlir_entry(&mut self, name: &[u8], info: Option<Loc>, index: Loc, records: &[Option<(Vec<Loc>, Vec<u8>)>], pad_ff: bool) -> Vec<u8> {
        self.take(index);
        let mut n = 1 + info.is_some() as usize;
        let mut ib = vec![0u8; 256];
        ib[1] = 0xff;
        if pad_ff {
            for i in 1..128 {
                ib[i * 2 + 1] = 0xff;
            }
        }
        for (i, r) in records.iter().enumerate() {
            let l = match r {
                Some((b, d)) => {
                    self.put_chain(b, d);
                    n += b.len();
                    b[0]
                }
                None => (0, 0xff),
            };
            ib[2 + 2 * i] = l.0;
            ib[3 + 2 * i] = l.1;
        }
        self.sec_mut(index).copy_from_slice(&ib);
        if let Some(l) = info {
            self.put_info(l, 9);
        }
        let x = Raw::geos_extra(info, true, 6);
        Raw::entry_bytes(name, 0x83, index, &x, n as u16)
    }
    pub fn make_geos(&mut self, border: Loc) {
        self.take(border);
        let h = self.g.header();
        let b = self.sec_mut(h);
        b[0xAB] = border.0;
        b[0xAC] = border.1;
        b[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
        let s = self.sec_mut(border);
        for x in s.iter_mut() {
            *x = 0;
        }
        s[1] = 0xff;
    }
}

/// Deterministic content that is never all equal and distinguishes stamps and offsets.
pub fn content(stamp: u32, len: usize) -> Vec<u8> {
    content_at(stamp, 0, len)
}
pub fn content_at(stamp: u32, from: usize, len: usize) -> Vec<u8> {
    (from..from + len)
        .map(|i| {
            let x = (i as u32).wrapping_mul(0x9E37_79B1) ^ stamp.wrapping_mul(0x85EB_CA6B);
            let x = (x ^ (x >> 15)).wrapping_mul(0x2C1B_3C6D);
            (x >> 24) as u8
        })
        .collect()
}
