seed("s01-rel-record-at-block-end","C15",[("src/disk/file.rs",
"        if sector_offset + self.record_size <= BLOCK_SIZE {","        if sector_offset + self.record_size < BLOCK_SIZE {")],
"a relative file whose last record ends exactly at the end of its last block",
"the last record of such a relative file cannot be read (index past the last data block)",
r'''
fn main() {
    let mut d = d64();
    // one data block (17,0) holding two records of 127 bytes, one side sector (17,1)
    let bam = d.bam().unwrap();
    bam.borrow_mut().allocate(at!(d, 17, 0)).unwrap();
    bam.borrow_mut().allocate(at!(d, 17, 1)).unwrap();
    bam.borrow_mut().flush().unwrap();
    let mut b = vec![0u8; 256];
    b[1] = 255;
    b[2..].copy_from_slice(&data(1, 254));
    d.write_sector(at!(d, 17, 0), &b).unwrap();
    let mut s = vec![0u8; 256];
    s[1] = 17;
    s[3] = 127;
    s[4] = 17;
    s[5] = 1;
    s[16] = 17;
    s[17] = 0;
    d.write_sector(at!(d, 17, 1), &s).unwrap();
    let mut e = [0u8; 30];
    e[0] = 0x84;
    e[1] = 17;
    e[2] = 0;
    name_at(&mut e, "REC");
    e[19] = 17;
    e[20] = 1;
    e[21] = 127;
    e[28] = 2;
    entry(&mut *d, e);
    let f = d.open_file(&Petscii::from_bytes(b"REC")).unwrap();
    assert_eq!(f.record_count().unwrap(), 2);
    assert_eq!(f.record(0).unwrap(), data(1, 254)[..127].to_vec());
    assert_eq!(f.record(1).unwrap(), data(1, 254)[127..].to_vec());
}
''')
seed("s02-last-track-unused","C04",[("src/disk/format.rs",
"            self.last_track + 1 - self.directory_track,","            self.last_track - 1 - self.directory_track,")],
"a D81 image whose only free blocks lie on the last track when a file is created",
"creating a file reports a full disk although track 80 is free",
r'''
fn main() {
    let mut d = d81();
    {
        let bam = d.bam().unwrap();
        let mut bam = bam.borrow_mut();
        for t in 1..80u8 {
            if t == 40 { continue; }
            for s in 0..40u8 {
                bam.allocate(at!(d, t, s)).unwrap();
            }
        }
        bam.flush().unwrap();
    }
    assert_eq!(d.blocks_free().unwrap(), 40);
    put(&mut *d, "file", &data(3, 1000));
    assert_eq!(get(&*d, "file"), data(3, 1000));
}
''')
seed("s03-directory-second-block-slot","C01",[("src/disk/directory.rs",
"        // All other bytes should be zeroed.\n        for block_byte in block.iter_mut().take(BLOCK_SIZE).skip(2) {",
"        // All other bytes should be zeroed.\n        for block_byte in block.iter_mut().take(BLOCK_SIZE - ENTRY_SIZE).skip(2) {")],
"a directory block that is added to the directory after holding other data before",
"a stale entry in the last slot of a recycled directory block reappears as a file",
r'''
fn main() {
    let mut d = d64();
    // the block which the directory will be extended to has been used before
    let stale = vec![0x82u8; 256];
    d.write_sector(at!(d, 18, 4), &stale).unwrap();
    for i in 0..9 {
        put(&mut *d, &format!("f{}", i), &data(i, 10));
    }
    assert_eq!(d.directory().unwrap().len(), 9);
    for i in 0..9 {
        assert_eq!(get(&*d, &format!("f{}", i)), data(i, 10));
    }
}
''')
seed("s04-geos-skew-track25","C11",[("src/disk/format.rs",
"            if self.geos && (track >= 25) {","            if self.geos && (track > 25) {")],
"a GEOS disk and a file that continues on track 25",
"blocks on track 25 of a GEOS disk are not chosen as GEOS chooses them",
r'''
fn main() {
    let mut d = d64();
    // make it a GEOS disk with border block (19,0)
    let mut h = d.read_sector(at!(d, 18, 0)).unwrap();
    h[0xab] = 19;
    h[0xac] = 0;
    h[0xad..0xad + 16].copy_from_slice(b"GEOS format V1.0");
    d.write_sector(at!(d, 18, 0), &h).unwrap();
    let mut b = vec![0u8; 256];
    b[1] = 255;
    d.write_sector(at!(d, 19, 0), &b).unwrap();
    d.initialize();
    let bam = d.bam().unwrap();
    bam.borrow_mut().allocate(at!(d, 19, 0)).unwrap();
    // interleave 10: from (25,3) the search starts at sector 3 + 10 - 1 = 12
    let next = bam.borrow().next_free_block(Some(at!(d, 25, 3))).unwrap();
    assert_eq!((next.0, next.1), (25, 12));
    let next = bam.borrow().next_free_block(Some(at!(d, 24, 3))).unwrap();
    assert_eq!((next.0, next.1), (24, 13));
}
''')
seed("s05-rename-geos-stamp","C13",[("src/disk/directory.rs",
"        bytes[Self::HOUR_OFFSET] = self.hour;\n        bytes[Self::MINUTE_OFFSET] = self.minute;",
"        bytes[Self::HOUR_OFFSET] = self.hour;\n        bytes[Self::MINUTE_OFFSET] = self.hour;")],
"a GEOS file with a time stamp whose minute differs from its hour is renamed",
"renaming changes the file's time stamp",
r'''
fn main() {
    let mut d = d64();
    let mut e = [0u8; 30];
    e[0] = 0x83;
    e[1] = 5;
    e[2] = 1;
    name_at(&mut e, "G");
    e[19] = 5;
    e[21] = 0;
    e[22] = 6;
    e[23] = 88;
    e[24] = 7;
    e[25] = 21;
    e[26] = 13;
    e[27] = 45;
    e[28] = 1;
    entry(&mut *d, e);
    let p = d.find_directory_entry(&Petscii::from_bytes(b"G")).unwrap().position.unwrap();
    d.rename(&Petscii::from_bytes(b"G"), &Petscii::from_bytes(b"H")).unwrap();
    let b = d.read_sector(p.location).unwrap();
    let o = p.offset as usize;
    e[3] = b'H';
    assert_eq!(&b[o + 2..o + 32], &e[..]);
}
''')
seed("s06-reader-tail","C16",[("src/disk/geos/reader.rs",
"                        if !self.chains.is_empty() {","                        if self.chains.len() > 1 {")],
"a VLIR file with at least two records whose last but one does not fill its last block",
"the conversion stream misplaces the last record",
r'''
fn main() {
    let mut d = d64();
    let put = |d: &mut Box<dyn Disk>, t: u8, s: u8, b: &[u8]| {
        let mut v = b.to_vec();
        v.resize(256, 0);
        let l = at!(d, t, s);
        d.write_sector(l, &v).unwrap();
    };
    let mut info = vec![0u8; 256];
    info[1] = 255;
    put(&mut d, 5, 0, &info);
    put(&mut d, 5, 1, &[0, 255, 5, 2, 5, 3]);
    put(&mut d, 5, 2, &[0, 4, 1, 2, 3]);
    put(&mut d, 5, 3, &[0, 3, 8, 9]);
    let mut e = [0u8; 30];
    e[0] = 0x83;
    e[1] = 5;
    e[2] = 1;
    name_at(&mut e, "V");
    e[19] = 5;
    e[20] = 0;
    e[21] = 1;
    e[22] = 6;
    e[28] = 4;
    entry(&mut *d, e);
    let f = d.open_file(&Petscii::from_bytes(b"V")).unwrap();
    let f = match f { File::GEOSVLIR(f) => f, _ => panic!("not VLIR") };
    let mut v = vec![];
    f.reader().unwrap().read_to_end(&mut v).unwrap();
    assert_eq!(v.len(), 254 * 4 + 2);
    assert_eq!(&v[254 * 3..254 * 3 + 3], &[1, 2, 3]);
    assert_eq!(&v[254 * 4..], &[8, 9]);
}
''')
