seed("s07-del-entry-slot-reused","C01",[("src/disk/directory.rs",
"                if entry.file_attributes.is_scratched() {\n                    return Ok(entry);",
"                if entry.file_attributes.file_type == FileType::DEL {\n                    return Ok(entry);")],
"a closed DEL file (a listed entry of type DEL) exists when another file is created",
"the directory slot of the existing DEL file is overwritten by the new file: the DEL file disappears",
r'''
fn main() {
    let mut d = d64();
    let f = d.create_file(&"sep".into(), FileType::DEL, Scheme::Linear).unwrap();
    f.writer().unwrap().write_all(b"hello").unwrap();
    put(&mut *d, "other", b"x");
    assert_eq!(get(&*d, "sep"), b"hello");
    assert_eq!(d.directory().unwrap().len(), 2);
}
''')
seed("s08-free-count-blind","C02",[("src/disk/bam.rs",
"        self.sector_map |= 1u64 << sector;\n        self.update_free_sectors();",
"        self.sector_map |= 1u64 << sector;\n        self.free_sectors += 1;")],
"a block that is already free is marked free again (editing the allocation map)",
"the per-track free count no longer equals the number of free bits, and blocks-free is too large",
r'''
fn main() {
    let d = d64();
    let n = d.blocks_free().unwrap();
    let bam = d.bam().unwrap();
    bam.borrow_mut().free(at!(d, 5, 3)).unwrap();
    bam.borrow_mut().flush().unwrap();
    assert_eq!(d.blocks_free().unwrap(), n);
}
''')
seed("s09-flush-after-full-block","C03",[("src/disk/chain.rs",
"        self.dirty = true;\n        let mut total_nbytes = 0;\n        while !buf.is_empty() {\n            let (offset, remaining)",
"        let mut total_nbytes = 0;\n        while !buf.is_empty() {\n            let (offset, remaining)"),
("src/disk/chain.rs",
"                ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),\n            };",
"                ChainLink::Tail(nbytes) => {\n                    self.dirty = true;\n                    (nbytes, BLOCK_SIZE - nbytes)\n                }\n            };")],
"a writer is flushed when its last block is exactly full, and then writes once more before it is dropped or flushed",
"the bytes of that last write never reach the image although write and flush reported success",
r'''
fn main() {
    let mut d = d64();
    let f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    let b = data(1, 354);
    {
        let mut w = f.writer().unwrap();
        w.write_all(&b[..254]).unwrap();
        w.flush().unwrap();
        w.write_all(&b[254..]).unwrap();
        w.flush().unwrap();
    }
    assert_eq!(get(&*d, "a"), b);
}
''')
seed("s10-two-passes","C04",[("src/disk/format.rs","        const NUM_PASSES: usize = 3;","        const NUM_PASSES: usize = 2;")],
"a file whose last block is far out on one half of the disk, when the only free blocks lie further in on the same half",
"appending reports a full disk although free blocks remain",
r'''
fn main() {
    let mut d = d64();
    let (a, b) = (at!(d, 1, 0), at!(d, 17, 5));
    {
        let bam = d.bam().unwrap();
        let mut bam = bam.borrow_mut();
        for t in 1..=35u8 {
            if t == 18 { continue; }
            for s in 0..d.native_disk_format().sectors_in_track(t) {
                if (t, s) != (1, 0) { bam.allocate(at!(d, t, s)).unwrap(); }
            }
        }
        bam.flush().unwrap();
    }
    let f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    assert_eq!(f.entry().first_sector, a);
    d.bam().unwrap().borrow_mut().free(b).unwrap();
    f.writer().unwrap().write_all(&data(1, 400)).unwrap();
    assert_eq!(get(&*d, "a"), data(1, 400));
}
''')
seed("s11-initialize-replaces-map","C05",[("src/disk/mod.rs",
"            Some(ref cell) => {\n                cell.replace(new_bam);\n            }\n            None => *bam_ref",
"            Some(_) => *bam_ref = Some(Rc::new(RefCell::new(new_bam))),\n            None => *bam_ref")],
"the disk object is re-initialised while a writer is open, and both the writer and a new file then need blocks",
"the old writer keeps a stale allocation map: two files are given the same block",
r'''
fn main() {
    let mut d = d64();
    let f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(1, 100)).unwrap();
    w.flush().unwrap();
    d.initialize();
    put(&mut *d, "b", &data(2, 700));
    w.write_all(&data(3, 2000)).unwrap();
    drop(w);
    put(&mut *d, "c", &data(4, 3000));
    assert_eq!(get(&*d, "b"), data(2, 700));
    assert_eq!(get(&*d, "c"), data(4, 3000));
    let mut e = data(1, 100);
    e.extend(data(3, 2000));
    assert_eq!(get(&*d, "a"), e);
    d.initialize();
    assert!(d.validate().unwrap().is_empty());
}
''')
seed("s12-writer-keeps-old-entry","C05",[("src/disk/chain.rs",
"        blocks.positioned_read(&mut self.entry)?;\n","")],
"a file is renamed through the disk while a writer on it is open, and the writer then needs another block",
"the writer puts its old copy of the directory entry back: the rename is undone",
r'''
fn main() {
    let mut d = d64();
    let f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(1, 100)).unwrap();
    d.rename(&"a".into(), &"b".into()).unwrap();
    w.write_all(&data(2, 400)).unwrap();
    drop(w);
    assert_eq!(get(&*d, "b").len(), 500);
    assert!(d.open_file(&"a".into()).is_err());
}
''')
seed("s13-link-before-block","C06",[("src/disk/chain.rs",
"        for i in 2..BLOCK_SIZE {\n            self.block[i] = 0;\n        }\n        ChainLink::Tail(2)",
"        next_location.write_bytes(&mut self.block[..]);\n        self.write_current_block()?;\n        for i in 2..BLOCK_SIZE {\n            self.block[i] = 0;\n        }\n        ChainLink::Tail(2)")],
"the process stops between the two block writes when a file grows into a new block that held other data before",
"the file's last block already links to a block that is still free and holds stale bytes; later files may be given that block",
r'''
extern "C" { fn mprotect(p: *mut u8, n: usize, prot: i32) -> i32; }
fn main() {
    let p = std::env::temp_dir().join("c.d64");
    if std::env::args().nth(1).is_some() {
        // child: the block that the file will grow into lies on a page that cannot be written
        let d = D64::open(&p, true).unwrap();
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
        let line = maps.lines().find(|l| l.ends_with("c.d64")).unwrap();
        let base = usize::from_str_radix(line.split('-').next().unwrap(), 16).unwrap();
        let next = (16 * 21 + 20) * 256; // track 17 sector 20
        unsafe { assert_eq!(mprotect((base + next / 4096 * 4096) as *mut u8, 4096, 1), 0); }
        let mut w = d.open_file(&"a".into()).unwrap().writer().unwrap();
        let _ = w.write_all(&data(2, 300));
        std::process::exit(3);
    }
    {
        let mut d = D64::create(&p, D64::geometry(false), true).unwrap();
        d.write_format(&"demo".into(), &"d1".into()).unwrap();
        put(&mut d, "a", &data(1, 508));
        assert_eq!(d.open_file(&"a".into()).unwrap().entry().first_sector, at!(d, 17, 0));
        assert_eq!(d.bam().unwrap().borrow().next_free_block(Some(at!(d, 17, 10))).unwrap(), at!(d, 17, 20));
    }
    let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").status().unwrap();
    assert!(s.code().is_none(), "the child was not interrupted");
    let d = D64::open(&p, true).unwrap();
    assert_eq!(get(&d, "a"), data(1, 508));
}
''')
seed("s14-header-edit-read-only","C07",[("src/disk/d81.rs",
"        self.blocks.borrow().check_writability()?;\n        match self.header {\n            Some(ref mut header) => Ok(header),",
"        match self.header {\n            Some(ref mut header) => Ok(header),")],
"a D81 image opened read-only whose header is edited through the disk object",
"the edit is accepted and what the disk object reports (its name) changes although the medium is read-only",
r'''
fn main() {
    let p = std::env::temp_dir().join("ro.d81");
    {
        let mut d = D81::create(&p, D81::geometry(false), true).unwrap();
        d.write_format(&"demo".into(), &"d1".into()).unwrap();
    }
    let mut d = D81::open(&p, false).unwrap();
    let before = d.name().unwrap().clone();
    let r = d.header_mut().map(|h| h.disk_name = "changed".into());
    assert!(r.is_err());
    assert!(d.name().unwrap() == &before);
}
''')
seed("s15-private-mapping","C07",[("src/disk/image.rs",
"        let mmap = unsafe { MmapOptions::new().map(&file)? };\n        Ok(Image::ReadOnlyMap(mmap))",
"        let mmap = unsafe { MmapOptions::new().map_copy(&file)? };\n        Ok(Image::ReadWriteMap(mmap))")],
"any modifying operation on an image opened read-only",
"operations on a read-only image succeed in a private copy instead of failing with the read-only error, and later calls report the change",
r'''
fn main() {
    let p = std::env::temp_dir().join("ro.d64");
    {
        let mut d = D64::create(&p, D64::geometry(false), true).unwrap();
        d.write_format(&"demo".into(), &"d1".into()).unwrap();
    }
    let mut d = D64::open(&p, false).unwrap();
    assert!(d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).is_err());
    assert_eq!(d.directory().unwrap().len(), 0);
}
''')
seed("s16-loop-not-through-start","C08",[("src/disk/chain.rs",
"        if !self.visited_sectors.insert(location) {\n            return Some(Err",
"        if self.visited_sectors.len() > 1 {\n            self.visited_sectors.retain(|l| l.0 <= 35);\n        }\n        if !self.visited_sectors.insert(location) {\n            return Some(Err")],
"a damaged chain whose loop lies entirely on tracks above 35 (D71 and D81 images only)",
"the loop is never detected: reading the file goes on for ever",
r'''
fn main() {
    let mut d = d81();
    put(&mut *d, "a", &data(1, 600));
    let first = d.open_file(&"a".into()).unwrap().entry().first_sector;
    let mut b = d.read_sector(first).unwrap();
    b[0] = 60; b[1] = 0;
    d.write_sector(first, &b).unwrap();
    b[0] = 60; b[1] = 1;
    d.write_sector(at!(d, 60, 0), &b).unwrap();
    b[0] = 60; b[1] = 0;
    d.write_sector(at!(d, 60, 1), &b).unwrap();
    let mut r = d.open_file(&"a".into()).unwrap().reader().unwrap();
    let mut buf = vec![0u8; 65536];
    let mut n = 0usize;
    loop {
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(k) => n += k,
            Err(_) => break,
        }
        assert!(n < 2_000_000, "endless stream");
    }
}
''')
seed("s17-short-side-sector","C08",[("src/disk/file.rs",
"            if size < SIDE_SECTOR_DATA_OFFSET || size % 2 == 1 {","            if size % 2 == 1 {")],
"a relative file whose last side sector claims fewer than 16 used bytes",
"opening (or validating) such an image panics",
r'''
fn main() {
    let mut d = d64();
    let mut s = vec![0u8; 256];
    s[1] = 9;
    d.write_sector(at!(d, 17, 1), &s).unwrap();
    let mut e = [0u8; 30];
    e[0] = 0x84;
    e[1] = 17;
    name_at(&mut e, "REC");
    e[19] = 17;
    e[20] = 1;
    e[21] = 127;
    e[28] = 2;
    entry(&mut *d, e);
    assert!(d.open_file(&Petscii::from_bytes(b"REC")).is_err());
}
''')
seed("s18-validate-last-track","C09",[("src/disk/validation.rs",
"    for track in format.first_track..=format.last_track {","    for track in format.first_track..format.last_track {")],
"a block on the last track that is marked allocated but used by nothing",
"the consistency check does not report it",
r'''
fn main() {
    let d = d64();
    {
        let bam = d.bam().unwrap();
        bam.borrow_mut().allocate(at!(d, 35, 3)).unwrap();
        bam.borrow_mut().flush().unwrap();
    }
    assert_eq!(d.validate().unwrap(), vec![ValidationError::SectorMisallocated(at!(d, 35, 3))]);
}
''')
seed("s19-validate-directory-blocks","C09",[("src/disk/validation.rs",
"        if system_sectors.contains(misoccupied_sector) {","        if misoccupied_sector.0 == format.directory_track {")],
"a directory of more than one block whose later block is marked free",
"the consistency check does not report that directory block",
r'''
fn main() {
    let mut d = d64();
    for i in 0..9 {
        put(&mut *d, &format!("f{}", i), b"x");
    }
    let b = d.read_sector(at!(d, 18, 1)).unwrap();
    let second = at!(d, b[0], b[1]);
    assert_eq!(second.0, 18);
    d.bam().unwrap().borrow_mut().free(second).unwrap();
    assert_eq!(d.validate().unwrap().len(), 1);
}
''')
seed("s20-sector-bound","C10",[("src/disk/block.rs",
"        if sector >= self.geometry.track_layouts[track].sectors {","        if sector > self.geometry.track_layouts[track].sectors {")],
"a block address whose sector number is one past the last sector of its track",
"the address is accepted and refers to the first block of the next track",
r'''
fn main() {
    let d = d64();
    assert!(d.read_sector(at!(d, 1, 21)).is_err());
    assert!(d.read_sector(at!(d, 35, 17)).is_err());
}
''')
seed("s21-geos-single-wrap","C11",[("src/disk/format.rs",
"        while sector >= num_sectors {\n            sector -= num_sectors;",
"        if sector >= num_sectors {\n            sector -= num_sectors;"),
("src/disk/format.rs","            if map >> sector & 1 == 1 {\n                return","            if sector < num_sectors && map >> sector & 1 == 1 {\n                return")],
"a GEOS disk where a file continues on a track at least three tracks away, so that the skewed sector wraps more than once",
"the block chosen on the new track is not the one the GEOS rule prescribes",
r'''
fn main() {
    // A GEOS disk: tracks 1-9 are full except for (1,0).
    let mut d = d64();
    let mut h = d.read_sector(at!(d, 18, 0)).unwrap();
    h[0xab] = 19;
    h[0xac] = 8;
    h[0xad..0xad + 16].copy_from_slice(b"GEOS format V1.0");
    d.write_sector(at!(d, 18, 0), &h).unwrap();
    d.initialize();
    let bam = d.bam().unwrap();
    let mut bam = bam.borrow_mut();
    for t in 1..=15u8 {
        for s in 0..21u8 {
            bam.allocate(at!(d, t, s)).unwrap();
        }
    }
    // from (1,0) to track 16: 2*15 + 4 + interleave 10 = 44 -> 44 mod 21 = 2
    assert_eq!(bam.next_free_block(Some(at!(d, 1, 0))).unwrap(), at!(d, 16, 2));
}
''')
seed("s22-locked-scratched","C12",[("src/disk/directory.rs",
"        self.file_type == FileType::DEL && !self.closed_flag","        self.file_type == FileType::DEL && !self.closed_flag && !self.locked_flag")],
"a scratched directory entry that still carries the locked flag (deleting a locked file leaves one)",
"the scratched entry is listed and its slot is never used again",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "a", b"x");
    let mut e = d.find_directory_entry(&"a".into()).unwrap();
    e.file_attributes.locked_flag = true;
    d.write_directory_entry(&e).unwrap();
    d.open_file(&"a".into()).unwrap().delete().unwrap();
    assert_eq!(d.directory().unwrap().len(), 0);
}
''')
seed("s23-geos-like-structure","C12",[("src/disk/directory.rs",
"            && bytes[ENTRY_EXTRA_OFFSET + Self::STRUCTURE_OFFSET] <= 1\n",
"            && bytes[ENTRY_EXTRA_OFFSET + Self::STRUCTURE_OFFSET] & 0x8E == 0\n")],
"a non-GEOS entry whose bytes 0x15-0x1D hold left-over data with certain values at the structure position (e.g. 0x31)",
"an ordinary file is listed as a GEOS file and can no longer be opened",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "a", b"hello");
    let e = d.find_directory_entry(&"a".into()).unwrap();
    let p = e.position.unwrap();
    let mut b = d.read_sector(p.location).unwrap();
    b[p.offset as usize + 0x17] = 0x31;
    d.write_sector(p.location, &b).unwrap();
    assert!(d.find_directory_entry(&"a".into()).unwrap().scheme == Scheme::Linear);
    assert_eq!(get(&*d, "a"), b"hello");
}
''')
seed("s24-lookup-by-rendering","C13",[("src/disk/mod.rs",
"                Ok(ref entry) => entry.filename == *filename,","                Ok(ref entry) => entry.filename.to_string() == filename.to_string(),")],
"two names that differ only in bytes that look alike (0x61-0x7a and 0xc1-0xda are both capital letters)",
"a file is found under a name that is not its own, and the second name is refused as already in use",
r'''
fn main() {
    let mut d = d64();
    let (x, y) = (Petscii::from_bytes(&[0x61]), Petscii::from_bytes(&[0xc1]));
    let f = d.create_file(&x, FileType::PRG, Scheme::Linear).unwrap();
    f.writer().unwrap().write_all(b"1").unwrap();
    assert!(d.open_file(&y).is_err());
    d.create_file(&y, FileType::PRG, Scheme::Linear).unwrap();
}
''')
seed("s25-format-padding","C14",[("src/disk/d71.rs",
"    padding_offsets: &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA],","    padding_offsets: &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9],")],
"formatting a D71 image",
"the last of the standard padding bytes of the header (0xAA) is left zero",
r'''
fn main() {
    let d = d71();
    let h = d.read_sector(at!(d, 18, 0)).unwrap();
    assert_eq!(&h[0xa7..0xab], &[0xa0; 4]);
}
''')
seed("s26-format-keeps-extra-tracks","C14",[("src/disk/mod.rs",
"        let track_count = self.blocks_ref().geometry().tracks;","        let track_count = disk_format.last_track;")],
"formatting a 40-track D64 image that has data on tracks 36 to 40",
"the blocks of tracks 36 to 40 keep their previous contents: the result depends on what was there before",
r'''
fn main() {
    let p = std::env::temp_dir().join("f.d64");
    std::fs::write(&p, vec![0x55u8; 196608]).unwrap();
    let mut d = D64::open(&p, true).unwrap();
    d.write_format(&"demo".into(), &"d1".into()).unwrap();
    assert_eq!(d.read_sector(at!(d, 36, 0)).unwrap(), vec![0u8; 256]);
    assert_eq!(d.read_sector(at!(d, 40, 16)).unwrap(), vec![0u8; 256]);
}
''')
seed("s27-six-side-sectors","C15",[("src/disk/file.rs",
"        if side_sectors.len() > MAX_SIDE_SECTORS {","        if side_sectors.len() >= MAX_SIDE_SECTORS {")],
"a relative file of more than 600 data blocks, which has all six side sectors",
"such a file is refused as invalid",
r'''
fn main() {
    let mut d = d81();
    // 601 data blocks and six side sectors, from track 1 on
    let mut l = vec![];
    for t in 1..40u8 { for s in 0..40u8 { l.push((t, s)); } }
    let (data_l, rest) = l.split_at(601);
    let ss = &rest[..6];
    for (i, &(t, s)) in data_l.iter().enumerate() {
        let mut b = vec![i as u8; 256];
        if i == 600 { b[0] = 0; b[1] = 255; } else { b[0] = data_l[i + 1].0; b[1] = data_l[i + 1].1; }
        d.write_sector(at!(d, t, s), &b).unwrap();
    }
    for i in 0..6 {
        let mine = &data_l[i * 120..(i * 120 + 120).min(601)];
        let mut b = vec![0u8; 256];
        if i == 5 { b[1] = (15 + 2 * mine.len()) as u8; } else { b[0] = ss[i + 1].0; b[1] = ss[i + 1].1; }
        b[2] = i as u8;
        b[3] = 254;
        for j in 0..6 { b[4 + 2 * j] = ss[j].0; b[5 + 2 * j] = ss[j].1; }
        for (j, &(t, s)) in mine.iter().enumerate() { b[16 + 2 * j] = t; b[17 + 2 * j] = s; }
        d.write_sector(at!(d, ss[i].0, ss[i].1), &b).unwrap();
    }
    let mut e = [0u8; 30];
    e[0] = 0x84;
    e[1] = data_l[0].0; e[2] = data_l[0].1;
    name_at(&mut e, "REC");
    e[19] = ss[0].0; e[20] = ss[0].1;
    e[21] = 254;
    e[28] = 95; e[29] = 2;
    entry(&mut *d, e);
    let f = d.open_file(&Petscii::from_bytes(b"REC")).unwrap();
    assert_eq!(f.record_count().unwrap(), 601);
    assert_eq!(f.record(600).unwrap(), vec![600u32 as u8; 254]);
}
''')
