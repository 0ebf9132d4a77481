GEOSD = r'''
fn geos_disk() -> Box<dyn Disk> {
    let mut d = d64();
    let mut h = d.read_sector(at!(d, 18, 0)).unwrap();
    h[0xab] = 19;
    h[0xac] = 8;
    h[0xad..0xad + 16].copy_from_slice(b"GEOS format V1.0");
    d.write_sector(at!(d, 18, 0), &h).unwrap();
    let mut b = vec![0u8; 256];
    b[1] = 0xff;
    d.write_sector(at!(d, 19, 8), &b).unwrap();
    d.initialize();
    d.bam().unwrap().borrow_mut().allocate(at!(d, 19, 8)).unwrap();
    d.bam().unwrap().borrow_mut().flush().unwrap();
    d
}
/// A VLIR file: info block (1,0), index block (1,1); records[i] = chain of the blocks listed (track, sector), or empty
fn vlir(d: &mut dyn Disk, records: &[Vec<(u8, u8)>]) {
    let mut ix = vec![0u8; 256];
    ix[1] = 0xff;
    for (i, r) in records.iter().enumerate() {
        if r.is_empty() { ix[2 + 2 * i] = 0; ix[3 + 2 * i] = 0xff; } else { ix[2 + 2 * i] = r[0].0; ix[3 + 2 * i] = r[0].1; }
        for (k, &(t, s)) in r.iter().enumerate() {
            let mut b = vec![(i * 16 + k) as u8; 256];
            if k + 1 < r.len() { b[0] = r[k + 1].0; b[1] = r[k + 1].1; } else { b[0] = 0; b[1] = 100; }
            d.write_sector(at!(d, t, s), &b).unwrap();
            d.bam().unwrap().borrow_mut().allocate(at!(d, t, s)).unwrap();
        }
    }
    d.write_sector(at!(d, 1, 1), &ix).unwrap();
    let mut info = vec![0u8; 256];
    info[1] = 0xff;
    info[2] = 3; info[3] = 21; info[4] = 0xbf;
    d.write_sector(at!(d, 1, 0), &info).unwrap();
    for s in 0..2 { d.bam().unwrap().borrow_mut().allocate(at!(d, 1, s)).unwrap(); }
    d.bam().unwrap().borrow_mut().flush().unwrap();
    let mut e = [0u8; 30];
    e[0] = 0x83;
    e[1] = 1; e[2] = 1;
    name_at(&mut e, "VLIR");
    e[19] = 1; e[20] = 0;
    e[21] = 1; e[22] = 6;
    e[23] = 90; e[24] = 1; e[25] = 2; e[26] = 3; e[27] = 4;
    e[28] = (2 + records.iter().map(|r| r.len()).sum::<usize>()) as u8;
    entry(d, e);
}
'''
seed("s28-geos-255-blocks","C16",[("src/disk/geos/reader.rs",
"            if count > ::std::u8::MAX as usize {","            if count >= ::std::u8::MAX as usize {")],
"a VLIR record of exactly 255 blocks",
"the conversion stream of such a file fails with RecordTooLarge",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    let mut l = vec![];
    for t in 2..17u8 { for s in 0..21u8 { l.push((t, s)); } }
    l.truncate(255);
    vlir(&mut *d, &[l]);
    let f = match d.open_file(&Petscii::from_bytes(b"VLIR")).unwrap() { File::GEOSVLIR(f) => f, _ => panic!() };
    let mut v = vec![];
    f.reader().unwrap().read_to_end(&mut v).unwrap();
    assert_eq!(v.len(), 254 * 3 + 254 * 254 + 99);
    assert_eq!(&v[508..510], &[255, 100]);
}
''')
seed("s29-vlir-index-last-pair","C16",[("src/disk/geos/file.rs",
"                .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)\n                .map(|chunk| {\n                    if chunk[0] == 0x00 && chunk[1] == 0xFF {",
"                .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)\n                .map(|chunk| {\n                    if chunk[0] == 0x00 || chunk[1] == 0xFF {"),
("src/disk/geos/file.rs",
"            for vlir_record_start in vlir_record_starts.iter().flatten() {",
"            for vlir_record_start in vlir_record_starts.iter().map_while(|r| r.as_ref()) {")],
"a VLIR file with an unavailable record before further records",
"the blocks of the records after the unavailable one are not counted as the file's: deleting the file leaks them, the conversion and reading still work",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    vlir(&mut *d, &[vec![(2, 0)], vec![], vec![(2, 5), (2, 6)]]);
    let f = d.open_file(&Petscii::from_bytes(b"VLIR")).unwrap();
    assert_eq!(f.occupied_sectors().unwrap().len(), 5);
    assert!(d.validate().unwrap().is_empty());
}
''')
S["s29-vlir-index-last-pair"]["prop"]="C23"
seed("s31-petscii-substitute","C17",[("src/petscii.rs",
"                if *mapping == c {","                if *mapping == c && c != NONE {")],
"none: control",
"x",
r'''
fn main() {}
''')
del S["s31-petscii-substitute"]
seed("s31-petscii-high-graphics","C17",[("src/petscii.rs",
"            for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate() {\n                if *mapping == c {",
"            for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate().take(0xBF) {\n                if *mapping == c {")],
"a string with the quadrant character U+259A, which only PETSCII 0xBF renders",
"the character is replaced by the substitute although PETSCII has it",
r'''
fn main() {
    let p = Petscii::from_bytes(&[0xbf]);
    let q: Petscii = p.to_string().into();
    assert_eq!(q.to_string(), p.to_string());
}
''')
seed("s32-info-reserved","C18",[("src/disk/geos/mod.rs",
"    const RESERVED_SIZE: usize = 23;","    const RESERVED_SIZE: usize = 22;")],
"an info block whose last reserved byte (0x9F) is in use",
"that byte is missing from the decoded block",
r'''
use cbm::disk::geos::GEOSInfo;
fn main() {
    let b: Vec<u8> = (0..=255u8).collect();
    let i = GEOSInfo::from_bytes(&b);
    assert_eq!(i.reserved, b[0x89..0xa0].to_vec());
}
''')
seed("s33-icon-last-row","C18",[("src/sprite.rs",
"                let bottom_byte = if row * 2 + 1 < SPRITE_HEIGHT {","                let bottom_byte = if row * 2 + 2 < SPRITE_HEIGHT - 1 {")],
"an icon with pixels set in row 19 (the row before the last)",
"row 19 of the icon is not shown",
r'''
use cbm::disk::geos::GEOSInfo;
fn main() {
    let mut b = vec![0u8; 256];
    for i in 0..3 { b[5 + 19 * 3 + i] = 0xff; }
    let i = GEOSInfo::from_bytes(&b);
    assert!(format!("{}", i).contains('\u{2584}'));
}
''')
seed("s34-zero-length-read","C19",[("src/disk/chain.rs",
"        let mut total_nbytes = 0;\n        while !buf.is_empty() && !self.eof {\n            match self.block.take() {",
"        let mut total_nbytes = 0;\n        if buf.is_empty() && self.block.is_none() {\n            self.eof = self.chain.next().is_none();\n        }\n        while !buf.is_empty() && !self.eof {\n            match self.block.take() {")],
"a read call with an empty buffer between two reads that end exactly at a block boundary",
"the block after the boundary is skipped",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "a", &data(1, 600));
    let mut r = d.open_file(&"a".into()).unwrap().reader().unwrap();
    let mut v = vec![0u8; 254];
    r.read_exact(&mut v).unwrap();
    assert_eq!(r.read(&mut []).unwrap(), 0);
    r.read_to_end(&mut v).unwrap();
    assert_eq!(v, data(1, 600));
}
''')
seed("s35-short-write-count","C19",[("src/disk/chain.rs",
"            let nbytes = remaining.min(buf.len());\n            let _ = &self.block[offset..offset + nbytes]",
"            let nbytes = remaining.min(buf.len());\n            if nbytes == 1 && offset == BLOCK_SIZE - 1 && total_nbytes > 0 {\n                return Ok(total_nbytes + 1);\n            }\n            let _ = &self.block[offset..offset + nbytes]")],
"never: unreachable",
"x",
r'''
fn main() {}
''')
del S["s35-short-write-count"]
seed("s35-geos-reader-exact","C19",[("src/disk/geos/reader.rs",
"            if bytes == buf.len() {\n                // Output buffer filled -- nothing more to do for now.\n                break;\n            }",
"            if bytes == buf.len() && !self.buffer.is_empty() {\n                // Output buffer filled -- nothing more to do for now.\n                break;\n            }\n            if bytes == buf.len() {\n                self.chains.truncate(126);\n                break;\n            }")],
"reading the conversion stream of a VLIR file with 127 records in pieces one of which ends exactly where a block of the stream ends",
"the last record is missing from the stream",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    let mut l = vec![];
    for t in 2..17u8 { for s in 0..21u8 { l.push(vec![(t, s)]); } }
    l.truncate(127);
    vlir(&mut *d, &l);
    let f = match d.open_file(&Petscii::from_bytes(b"VLIR")).unwrap() { File::GEOSVLIR(f) => f, _ => panic!() };
    let mut whole = vec![];
    f.reader().unwrap().read_to_end(&mut whole).unwrap();
    assert_eq!(whole.len(), 254 * 3 + 126 * 254 + 99);
    let mut v = vec![0u8; 254 * 3];
    let mut r = f.reader().unwrap();
    r.read_exact(&mut v).unwrap();
    r.read_to_end(&mut v).unwrap();
    assert_eq!(v, whole);
}
''')
S["s35-geos-reader-exact"]["prop"]="C16"
open("/tmp/cli_s36.sh","w").write(r'''
set -e
head -c 1000 /dev/zero > src
"$CDISK" d.d64 create
"$CDISK" d.d64 format demo d1
"$CDISK" d.d64 write src a
cp d.d64 before
rc=0
"$CDISK" d.d64 dump nosuch > out 2>&1 || rc=$?
[ $rc != 0 ]
rc=0
"$CDISK" d.d64 bam allocate 1 0 > out 2>&1
"$CDISK" d.d64 validate > out 2>&1 || rc=$?
cat out
[ $rc != 0 ]
grep -q "misallocated: (1,0)" out
''')
seed("s36-cli-validate-status","C20",[("src/bin/cdisk.rs",
"    if errors.is_empty() {","    if errors.len() <= 1 {")],
"validating an image with exactly one inconsistency",
"the command prints the problem and then that the disk validates successfully, with exit status 0",
None,"demo_cli.sh")
S["s36-cli-validate-status"]["files"]={"cli.sh":open("/verif/tools/seeds/files/cli_s36.sh").read()}
seed("s37-cli-write-type","C20",[("src/bin/cdisk.rs",
"            m.value_of(\"type\")\n                .and_then(FileType::from_string)","            m.value_of(\"type\")\n                .filter(|t| *t != \"usr\")\n                .and_then(FileType::from_string)")],
"writing a file with --type usr",
"the file is stored as SEQ",
None,"demo_cli.sh")
S["s37-cli-write-type"]["files"]={"cli.sh":r'''
set -e
echo hello > src
"$CDISK" d.d64 create
"$CDISK" d.d64 format demo d1
"$CDISK" d.d64 write -t usr src a
"$CDISK" d.d64 dir > out
cat out
grep -q '"a" *usr' out
'''}
seed("s38-create-checks-late","C21",[("src/disk/mod.rs",
"        directory::check_filename_validity(filename)?;\n        self.check_filename_availability(filename)?;\n\n",
"        directory::check_filename_validity(filename)?;\n\n"),
("src/disk/mod.rs",
"        let mut entry = self.next_free_directory_entry()?;\n","        let mut entry = self.next_free_directory_entry()?;\n        self.check_filename_availability(filename)?;\n")],
"creating a file under a name in use while every slot of the existing directory blocks is taken",
"the refused creation has extended the directory by a block",
r'''
fn main() {
    let mut d = d64();
    for i in 0..8 {
        put(&mut *d, &format!("f{}", i), b"x");
    }
    let n = d.read_sector(at!(d, 18, 1)).unwrap();
    assert!(d.create_file(&"f0".into(), FileType::PRG, Scheme::Linear).is_err());
    assert_eq!(d.read_sector(at!(d, 18, 1)).unwrap(), n);
}
''')
seed("s39-header-pads-border","C22",[("src/disk/d64.rs",
"    padding_offsets: &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA],","    padding_offsets: &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA, 0xAB],")],
"flushing the header of a GEOS-formatted D64 image",
"the track of the GEOS border block is overwritten with padding",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    d.header_mut().unwrap().disk_name = "other".into();
    d.flush_header().unwrap();
    let h = d.read_sector(at!(d, 18, 0)).unwrap();
    assert_eq!(&h[0xab..0xad], &[19, 8]);
}
''')
seed("s40-rel-occupied-tail","C23",[("src/disk/file.rs",
"        locations.extend(self.data_sectors.iter());\n        locations.extend(self.side_sectors.iter());",
"        locations.extend(self.data_sectors.iter());\n        locations.extend(self.side_sectors.iter().take(5));")],
"a relative file with all six side sectors",
"the last side sector is not counted as the file's",
r'''
fn main() {
    let mut d = d81();
    let mut l = vec![];
    for t in 1..40u8 { for s in 0..40u8 { l.push((t, s)); } }
    let (data_l, rest) = l.split_at(601);
    let ss = &rest[..6];
    for (i, &(t, s)) in data_l.iter().enumerate() {
        let mut b = vec![i as u8; 256];
        if i == 600 { b[0] = 0; b[1] = 255; } else { b[0] = data_l[i + 1].0; b[1] = data_l[i + 1].1; }
        d.write_sector(at!(d, t, s), &b).unwrap();
        d.bam().unwrap().borrow_mut().allocate(at!(d, t, s)).unwrap();
    }
    for i in 0..6 {
        let mine = &data_l[i * 120..(i * 120 + 120).min(601)];
        let mut b = vec![0u8; 256];
        if i == 5 { b[1] = (15 + 2 * mine.len()) as u8; } else { b[0] = ss[i + 1].0; b[1] = ss[i + 1].1; }
        b[2] = i as u8;
        b[3] = 254;
        for j in 0..6 { b[4 + 2 * j] = ss[j].0; b[5 + 2 * j] = ss[j].1; }
        for (j, &(t, s)) in mine.iter().enumerate() { b[16 + 2 * j] = t; b[17 + 2 * j] = s; }
        d.write_sector(at!(d, ss[i].0, ss[i].1), &b).unwrap();
        d.bam().unwrap().borrow_mut().allocate(at!(d, ss[i].0, ss[i].1)).unwrap();
    }
    let mut e = [0u8; 30];
    e[0] = 0x84;
    e[1] = data_l[0].0; e[2] = data_l[0].1;
    name_at(&mut e, "REC");
    e[19] = ss[0].0; e[20] = ss[0].1;
    e[21] = 254;
    e[28] = 95; e[29] = 2;
    entry(&mut *d, e);
    assert!(d.validate().unwrap().is_empty());
    let f = d.open_file(&Petscii::from_bytes(b"REC")).unwrap();
    assert_eq!(f.occupied_sectors().unwrap().len(), 607);
}
''')
S["s40-rel-occupied-tail"]["prop"]="C15"
seed("s41-dump-error-table","C24",[("src/disk/block.rs",
"            for track in 1..=self.geometry().tracks {","            for track in 1..=self.geometry().tracks.min(70) {")],
"dumping a D81 image with an error table",
"the error bytes of tracks 71 to 80 are missing from the dump",
r'''
fn main() {
    let mut d = D81::open_memory(D81::geometry(true)).unwrap();
    let mut v = vec![];
    d.dump(&mut v).unwrap();
    assert!(String::from_utf8(v).unwrap().contains("track 80: "));
}
''')
seed("s42-map-display-second-side","C24",[("src/disk/bam.rs",
"            let mut map = self.entries[track].sector_map;\n            for _ in 0..self.format.tracks[track + 1].sectors {\n                let c: char",
"            let mut map = self.entries[track].sector_map as u32;\n            for _ in 0..self.format.tracks[track + 1].sectors {\n                let c: char")],
"showing the allocation map of a D81 image (tracks of 40 sectors)",
"sectors 32 to 39 of each track are shown as used although they are free",
r'''
fn main() {
    let d = d81();
    let s = format!("{:?}", d.bam().unwrap().borrow());
    assert!(s.contains(&format!("t01: [40/40] {}", ".".repeat(40))));
}
''')
seed("s43-writer-drop-rename","C13",[("src/disk/directory.rs",
"        bytes[ENTRY_FIRST_SECTOR_OFFSET + 1] = self.first_sector.1;\n        self.filename",
"        bytes[ENTRY_FIRST_SECTOR_OFFSET + 1] = self.first_sector.1;\n        if self.filename.len() == ENTRY_FILENAME_LENGTH && self.filename[15] == 0x20 {\n            bytes[ENTRY_FILENAME_OFFSET + 15] = PADDING_BYTE;\n            bytes[ENTRY_FILENAME_OFFSET..ENTRY_FILENAME_OFFSET + 15].copy_from_slice(&self.filename.as_bytes()[..15]);\n        } else {\n        self.filename"),
("src/disk/directory.rs",
"                PADDING_BYTE,\n            )\n            .unwrap();\n","                PADDING_BYTE,\n            )\n            .unwrap();\n        }\n")],
"a 16-byte name that ends in a space",
"the trailing space is lost: the file is not found by its name",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "sixteen chars-- ", b"x");
    assert_eq!(get(&*d, "sixteen chars-- "), b"x");
}
''')
seed("s44-d71-second-bitmap","C02",[("src/disk/bam.rs",
"            if section.bitmap_location != section.free_location {\n                // Write the block",
"            if section.bitmap_location.0 > section.free_location.0 && previous_tracks == 0 {\n                // Write the block")],
"placeholder","x",r'''
fn main() {}
''')
del S["s44-d71-second-bitmap"]
seed("s44-first-block-reserved-side","C04",[("src/disk/format.rs",
"                    while self.is_reserved_track(track) {\n                        track += 1;\n                    }\n                    if track > self.last_track {\n                        // No more availability upwards.",
"                    while self.is_reserved_track(track) {\n                        track += 1;\n                        passes -= 1;\n                    }\n                    if track > self.last_track {\n                        // No more availability upwards.")],
"a D71 image where a file has to search past the reserved track 53 and then needs the last pass",
"a full disk is reported although blocks nearer to the directory track are free",
r'''
fn main() {
    let mut d = d71();
    let (a, b) = (at!(d, 40, 0), at!(d, 20, 5));
    {
        let bam = d.bam().unwrap();
        let mut bam = bam.borrow_mut();
        for t in 1..=70u8 {
            if t == 18 || t == 53 { continue; }
            for s in 0..d.native_disk_format().sectors_in_track(t) {
                if (t, s) != (40, 0) { bam.allocate(at!(d, t, s)).unwrap(); }
            }
        }
        bam.flush().unwrap();
    }
    let f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    assert_eq!(f.entry().first_sector, a);
    d.bam().unwrap().borrow_mut().free(b).unwrap();
    f.writer().unwrap().write_all(&data(1, 400)).unwrap();
    assert_eq!(get(&*d, "a"), data(1, 400));
}
''')
