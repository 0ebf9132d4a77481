seed("s45-format-keeps-geos-rule","C14",[("src/disk/mod.rs",
"                let mut format = self.native_disk_format().clone();\n                // Is this a GEOS-formatted disk?",
"                let mut format = match self.disk_format() {\n                    Ok(format) => format.clone(),\n                    Err(_) => self.native_disk_format().clone(),\n                };\n                // Is this a GEOS-formatted disk?")],
"formatting a GEOS disk and going on with the same disk object",
"the formatted disk object still allocates by the GEOS rule: live object and fresh open disagree",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    d.write_format(&"new".into(), &"n1".into()).unwrap();
    assert!(!d.disk_format().unwrap().geos);
    put(&mut *d, "a", b"x");
    assert_eq!(d.find_directory_entry(&"a".into()).unwrap().first_sector, at!(d, 17, 0));
}
''')
seed("s47-cross-link-same-name","C09",[("src/disk/validation.rs",
"                Entry::Occupied(owner) => {\n                    errors","                Entry::Occupied(owner) => {\n                    if owner.get() == &entry.filename {\n                        continue;\n                    }\n                    errors")],
"two directory entries with the same name that share blocks",
"the consistency check does not report the shared blocks",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "a", &data(1, 300));
    let e = d.find_directory_entry(&"a".into()).unwrap();
    let p = e.position.unwrap();
    let b = d.read_sector(p.location).unwrap();
    let mut x = [0u8; 30];
    x.copy_from_slice(&b[p.offset as usize + 2..p.offset as usize + 32]);
    entry(&mut *d, x);
    assert_eq!(d.validate().unwrap().len(), 2);
}
''')
seed("s48-upper-case-extension","C10",[("src/disk/mod.rs",
"            .and_then(|s| s.to_str())\n            .map(|s| s.to_lowercase());","            .and_then(|s| s.to_str());"),
("src/disk/mod.rs","            match &extension.to_lowercase()[..] {","            match extension {")],
"an image file whose extension is in capitals and does not fit its size",
"the extension is not recognised and the image is opened as another kind",
r'''
fn main() {
    let p = std::env::temp_dir().join(format!("demo-{}.D81", std::process::id()));
    std::fs::write(&p, vec![0u8; 174848]).unwrap();
    let r = open(&p, false).is_err();
    std::fs::remove_file(&p).unwrap();
    assert!(r);
}
''')
seed("s50-handle-keeps-block-list","C23",[("src/disk/file.rs",
"    bam: BamRef,\n    entry: DirectoryEntry,\n}\n\nimpl LinearFile {","    bam: BamRef,\n    entry: DirectoryEntry,\n    locations: Option<Vec<Location>>,\n}\n\nimpl LinearFile {"),
("src/disk/file.rs",
"        LinearFile { blocks, bam, entry }",
"        // The blocks are needed for several purposes, so look them up only once.\n        let locations = ChainIterator::new(blocks.clone(), entry.first_sector)\n            .locations()\n            .ok();\n        LinearFile {\n            blocks,\n            bam,\n            entry,\n            locations,\n        }"),
("src/disk/file.rs",
"        let locations =\n            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;\n        chain::remove_file(&self.blocks, &self.bam, &mut self.entry, &locations)\n    }\n\n    fn record_count(&self) -> io::Result<usize> {\n        // A linear",
"        let locations =\n            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;\n        let locations = self.locations.clone().unwrap_or(locations);\n        chain::remove_file(&self.blocks, &self.bam, &mut self.entry, &locations)\n    }\n\n    fn record_count(&self) -> io::Result<usize> {\n        // A linear")],
"a file handle through which the file is extended and then deleted",
"the blocks added after the handle was opened are not released",
r'''
fn main() {
    let mut d = d64();
    let n = d.blocks_free().unwrap();
    let mut f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    f.writer().unwrap().write_all(&data(1, 1000)).unwrap();
    f.delete().unwrap();
    assert_eq!(d.blocks_free().unwrap(), n);
}
''')
seed("s51-header-keeps-block","C22",[("src/disk/header.rs",
"    pub geos: Option<GEOSDiskHeader>,\n}\n\nimpl Header {","    pub geos: Option<GEOSDiskHeader>,\n    block: Vec<u8>,\n}\n\nimpl Header {"),
("src/disk/header.rs","            geos: None,\n        }","            geos: None,\n            block: vec![],\n        }"),
("src/disk/header.rs","            geos: GEOSDiskHeader::new(block),\n        })","            geos: GEOSDiskHeader::new(block),\n            block: block.to_vec(),\n        })"),
("src/disk/header.rs","        let mut block = blocks.borrow().sector(format.location)?.to_vec();\n\n        // Render","        let mut block = if self.block.is_empty() {\n            blocks.borrow().sector(format.location)?.to_vec()\n        } else {\n            self.block.clone()\n        };\n\n        // Render"),
],
"files are created between opening the disk (or the last header flush) and flushing an edited header",
"the allocation map, which shares the block with the header, goes back to its old state",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "a", &data(1, 600));
    d.header_mut().unwrap().disk_name = "other".into();
    d.flush_header().unwrap();
    d.initialize();
    assert_eq!(d.blocks_free().unwrap(), 661);
    assert!(d.validate().unwrap().is_empty());
}
''')
seed("s52-map-keeps-header","C22",[("src/disk/bam.rs",
"    blocks: BlockDeviceRef,\n    format: &'static BamFormat,\n}","    blocks: BlockDeviceRef,\n    format: &'static BamFormat,\n    cache: Vec<Option<Vec<u8>>>,\n}"),
("src/disk/bam.rs",
"        BamWriter { blocks, format }","        let cache = vec![None; format.sections.len()];\n        BamWriter {\n            blocks,\n            format,\n            cache,\n        }"),
("src/disk/bam.rs",
"        for section in self.format.sections {\n            // Read the block containing BAM bitmaps for this section.\n            let mut block = self\n                .blocks\n                .borrow()\n                .sector(section.bitmap_location)?\n                .to_vec();\n",
"        for (n, section) in self.format.sections.iter().enumerate() {\n            // Read the block containing BAM bitmaps for this section.\n            let mut block = match self.cache[n].take() {\n                Some(block) => block,\n                None => self\n                    .blocks\n                    .borrow()\n                    .sector(section.bitmap_location)?\n                    .to_vec(),\n            };\n"),
("src/disk/bam.rs",
"                .sector_mut(section.free_location)?\n                .copy_from_slice(&block);\n\n            previous","                .sector_mut(section.free_location)?\n                .copy_from_slice(&block);\n            if section.bitmap_location == section.free_location {\n                self.cache[n] = Some(block);\n            }\n\n            previous"),
],
"a header edit that is flushed after a file was written and before another one is written, with the same disk object",
"writing the second file brings the old disk name back",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "a", &data(1, 600));
    d.header_mut().unwrap().disk_name = "other".into();
    d.flush_header().unwrap();
    put(&mut *d, "b", &data(2, 600));
    d.initialize();
    assert!(d.name().unwrap().to_string().starts_with("other"));
}
''')
seed("s53-header-clears-border-bytes","C22",[("src/disk/header.rs",
"        // All 1571 disk images should have the double-side flag set.\n        if let Some((offset, value)) = format.double_sided_flag_expectation {\n            block[offset] = value;",
"        // There is no border block without GEOS.\n        if self.geos.is_none() {\n            block[0xAB] = 0;\n            block[0xAC] = 0;\n        }\n        // All 1571 disk images should have the double-side flag set.\n        if let Some((offset, value)) = format.double_sided_flag_expectation {\n            block[offset] = value;")],
"a header block whose undocumented bytes are not zero on a disk without GEOS",
"editing the disk name clears two bytes that belong to no header field",
r'''
fn main() {
    let mut d = d64();
    let mut h = d.read_sector(at!(d, 18, 0)).unwrap();
    for i in 0xab..0x100 { h[i] = 0x55; }
    d.write_sector(at!(d, 18, 0), &h).unwrap();
    d.initialize();
    d.header_mut().unwrap().disk_name = "other".into();
    d.flush_header().unwrap();
    let n = d.read_sector(at!(d, 18, 0)).unwrap();
    assert_eq!(&n[0xab..], &h[0xab..]);
    assert_eq!(&n[..0x90], &h[..0x90]);
}
''')
seed("s54-format-trims-name","C20",[("src/bin/cdisk.rs",
"    disk.write_format(&name.into(), &id_bytes.into())",
"    disk.write_format(&name.trim().into(), &id_bytes.into())")],
"a disk name that begins or ends with a blank",
"the tool formats the disk with another name than the one given",
None, sh="demo_cli.sh")
S["s54-format-trims-name"]["files"]={"cli.sh":'''"$CDISK" x.d64 create
"$CDISK" x.d64 format " blank" q7
"$CDISK" x.d64 dir | grep -q '" blank'
'''}
seed("s55-long-loop","C08",[("src/disk/chain.rs",
"        if !self.visited_sectors.insert(location) {\n            return Some(Err(DiskError::ChainLoop.into()));",
"        // The set need not grow without limit: a loop passes through its first blocks again.\n        if self.visited_sectors.contains(&location)\n            || (self.visited_sectors.len() < 64 && !self.visited_sectors.insert(location))\n        {\n            return Some(Err(DiskError::ChainLoop.into()));")],
"a chain whose first 64 blocks lead into a loop among later blocks",
"reading the file never ends",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "a", &data(1, 254 * 100));
    let mut l = d.find_directory_entry(&"a".into()).unwrap().first_sector;
    let mut chain = vec![l];
    loop {
        let b = d.read_sector(l).unwrap();
        if b[0] == 0 { break; }
        l = at!(d, b[0], b[1]);
        chain.push(l);
    }
    let mut b = d.read_sector(l).unwrap();
    b[0] = chain[80].0;
    b[1] = chain[80].1;
    d.write_sector(l, &b).unwrap();
    let mut r = d.open_file(&"a".into()).unwrap().reader().unwrap();
    let mut buf = [0u8; 254];
    for _ in 0..5000 {
        if r.read(&mut buf).is_err() { return; }
    }
    panic!("the stream does not end");
}
''')
seed("s56-fresh-block-looks-full","C06",[("src/disk/chain.rs",
"        for i in 2..BLOCK_SIZE {\n            self.block[i] = 0;\n        }\n        ChainLink::Tail(2).to_bytes(&mut self.block[..]);\n",
"        for i in 2..BLOCK_SIZE {\n            self.block[i] = 0;\n        }\n        // (The link bytes are set when data is put into the block.)\n")],
"a process that stops between extending a file and the next flush",
"the file ends with 254 bytes that were never written to it",
r'''
fn main() {
    let mut d = d64();
    let f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(1, 255)).unwrap();
    // the process stops here: what is on the image?
    let found = get(&*d, "a");
    std::mem::forget(w);
    assert!(data(1, 255).starts_with(&found), "{} bytes", found.len());
}
''')
seed("s57-border-by-track","C12",[("src/disk/directory.rs",
"self.processing_geos_border = border == block.location;",
"self.processing_geos_border = border.0 == block.location.0;")],
"a GEOS disk whose border block lies on the directory track",
"ordinary directory entries are shown as border entries",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    let mut h = d.read_sector(at!(d, 18, 0)).unwrap();
    h[0xab] = 18;
    h[0xac] = 12;
    d.write_sector(at!(d, 18, 0), &h).unwrap();
    let b = d.read_sector(at!(d, 19, 8)).unwrap();
    d.write_sector(at!(d, 18, 12), &b).unwrap();
    d.initialize();
    put(&mut *d, "a", b"x");
    let e = d.find_directory_entry(&"a".into()).unwrap();
    assert!(!format!("{}", e).contains("border"));
}
''')
seed("s58-relabel-through-handle-rename","C05",[("src/disk/chain.rs",
"        blocks.positioned_read(&mut self.entry)?;\n","")],
"a file renamed while a writer on it is open and goes on to need another block",
"the rename is undone",
r'''
fn main() {
    let mut d = d64();
    let f = d.create_file(&"a".into(), FileType::PRG, Scheme::Linear).unwrap();
    let mut w = f.writer().unwrap();
    w.write_all(&data(1, 100)).unwrap();
    d.rename(&"a".into(), &"b".into()).unwrap();
    w.write_all(&data(2, 400)).unwrap();
    drop(w);
    assert!(d.find_directory_entry(&"b".into()).is_ok());
    assert!(d.find_directory_entry(&"a".into()).is_err());
}
''')
seed("s59-signature-of-open-files","C16",[("src/disk/geos/reader.rs",
"        entry.to_bytes(&mut buffer[0..directory::ENTRY_SIZE]);\n",
"        entry.to_bytes(&mut buffer[0..directory::ENTRY_SIZE]);\n        // A converted file is a closed file.\n        buffer[2] |= 0x80;\n")],
"converting a GEOS file whose entry is not marked as closed",
"the directory entry in the conversion stream differs from the stored one",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    vlir(&mut *d, &[vec![(2, 0)]]);
    let e = d.find_directory_entry(&Petscii::from_bytes(b"VLIR")).unwrap();
    let p = e.position.unwrap();
    let mut b = d.read_sector(p.location).unwrap();
    b[p.offset as usize + 2] &= 0x7f;
    d.write_sector(p.location, &b).unwrap();
    let f = match d.open_file(&Petscii::from_bytes(b"VLIR")).unwrap() { File::GEOSVLIR(f) => f, _ => panic!() };
    let mut v = vec![];
    f.reader().unwrap().read_to_end(&mut v).unwrap();
    assert_eq!(&v[..30], &b[p.offset as usize + 2..p.offset as usize + 32]);
}
''')
seed("s60-dump-stops-at-999","C24",[("src/disk/file.rs",
"        for i in 0..self.record_count()? {","        for i in 0..self.record_count()?.min(999) {")],
"a relative file with a thousand records",
"the dump of the file leaves records out",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "r", &data(1, 1270));
    // turn it into a relative file of 1270 records of one byte
    let e = d.find_directory_entry(&"r".into()).unwrap();
    let p = e.position.unwrap();
    let mut l = vec![e.first_sector];
    loop {
        let b = d.read_sector(*l.last().unwrap()).unwrap();
        if b[0] == 0 { break; }
        l.push(at!(d, b[0], b[1]));
    }
    let mut s = vec![0u8; 256];
    s[1] = (15 + 2 * l.len()) as u8;
    s[3] = 1;
    s[4] = 1;
    s[5] = 0;
    for (i, x) in l.iter().enumerate() { s[16 + 2 * i] = x.0; s[17 + 2 * i] = x.1; }
    d.write_sector(at!(d, 1, 0), &s).unwrap();
    let mut b = d.read_sector(p.location).unwrap();
    let o = p.offset as usize;
    b[o + 2] = 0x84;
    b[o + 0x15] = 1;
    b[o + 0x16] = 0;
    b[o + 0x17] = 1;
    d.write_sector(p.location, &b).unwrap();
    let mut v = vec![];
    d.open_file(&"r".into()).unwrap().dump(&mut v).unwrap();
    assert!(String::from_utf8_lossy(&v).contains("Record: 1269"));
}
''')
seed("s61-info-block-on-first-sector","C23",[("src/disk/geos/file.rs",
"        if let Some(info_location) = self.entry.info_location()? {\n            locations.push(info_location);\n        }",
"        match self.entry.info_location()? {\n            Some(info_location) if info_location.1 > 0 => locations.push(info_location),\n            _ => {}\n        }")],
"a GEOS file whose info block lies on sector 0 of its track",
"deleting the file leaves its info block allocated",
GEOSD+r'''
fn main() {
    let mut d = geos_disk();
    let n = d.blocks_free().unwrap();
    vlir(&mut *d, &[vec![(2, 0)], vec![(2, 1), (2, 2)]]);
    assert_eq!(d.blocks_free().unwrap(), n - 5);
    d.open_file(&Petscii::from_bytes(b"VLIR")).unwrap().delete().unwrap();
    assert_eq!(d.blocks_free().unwrap(), n);
}
''')
seed("s62-question-mark","C13",[("src/disk/mod.rs",
"                Ok(ref entry) => entry.filename == *filename,",
"                Ok(ref entry) => {\n                    entry.filename.len() == filename.len()\n                        && entry\n                            .filename\n                            .as_bytes()\n                            .iter()\n                            .zip(filename.as_bytes())\n                            .all(|(a, b)| a == b || *b == b'?')\n                }")],
"a name with a question mark in it, and another file whose name differs only there",
"the other file is found under that name, and the name is refused as already in use",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "what1", &data(1, 10));
    assert!(d.find_directory_entry(&"what?".into()).is_err());
    put(&mut *d, "what?", &data(2, 20));
    assert_eq!(get(&*d, "what?"), data(2, 20));
}
''')
seed("s63-border-on-directory-track","C12",[("src/disk/directory.rs",
"                Some(ref geos_header) => {\n                    let border_block_result","                Some(ref geos_header) if geos_header.border.0 != location.0 => {\n                    let border_block_result"),
("src/disk/directory.rs","                None => (Box::new(chain), None),","                _ => (Box::new(chain), None),")],
"a GEOS disk whose border block lies on the directory track",
"the entries of the border block are not listed",
r'''
fn main() {
    let mut d = d64();
    let mut h = d.read_sector(at!(d, 18, 0)).unwrap();
    h[0xab] = 18;
    h[0xac] = 18;
    h[0xad..0xad + 16].copy_from_slice(b"GEOS format V1.0");
    d.write_sector(at!(d, 18, 0), &h).unwrap();
    let mut b = vec![0u8; 256];
    b[1] = 0xff;
    b[2] = 0x83;
    b[3] = 1;
    b[5..21].copy_from_slice(b"BORDER\xa0\xa0\xa0\xa0\xa0\xa0\xa0\xa0\xa0\xa0");
    b[30] = 1;
    d.write_sector(at!(d, 18, 18), &b).unwrap();
    d.initialize();
    assert_eq!(d.directory().unwrap().len(), 1);
}
''')
seed("s64-id-of-one-character","C17",[("src/disk/mod.rs",
"            if bytes.len() > 1 { bytes[1] } else { 0 },","            if bytes.len() > 1 { bytes[1] } else { 0xA0 },")],
"an identifier made from a single character",
"the missing second byte is not zero",
r'''
fn main() {
    assert_eq!(Id::from_bytes(b"X"), Id::from_bytes(b"X\0"));
    assert_eq!(Id::from_bytes(b""), Id::from_bytes(b"\0\0")); // unaffected or not
}
''')
seed("s65-validate-same-name","C09",[("src/disk/validation.rs",
"                Entry::Occupied(owner) => {","                Entry::Occupied(owner) if *owner.get() == entry.filename => {}\n                Entry::Occupied(owner) => {")],
"two files of the same name that share a block, or a file called like the system that uses a system block",
"the consistency check does not report the shared blocks",
r'''
fn main() {
    let mut d = d64();
    put(&mut *d, "one", &data(1, 600));
    let e = d.find_directory_entry(&"one".into()).unwrap();
    let p = e.position.unwrap();
    let b = d.read_sector(p.location).unwrap();
    let mut x = [0u8; 30];
    x.copy_from_slice(&b[p.offset as usize + 2..p.offset as usize + 32]);
    entry(&mut *d, x);
    assert_eq!(d.validate().unwrap().len(), 3);
}
''')
F="src/bin/cdisk.rs"
seed("s66-cli-write-64k","C20",[(F,
"    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;\n    io::copy(&mut reader, &mut writer)?;\n    writer.flush()",
"    let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;\n    let mut buffer = Vec::new();\n    reader.take(65536).read_to_end(&mut buffer)?;\n    writer.write_all(&buffer)?;\n    writer.flush()"),
(F,"    let mut reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_writer(","    let reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_writer(")],
"a host file of more than 65,536 bytes",
"only the first 64 KB reach the disk, and success is reported",
None, sh="demo_cli.sh")
S["s66-cli-write-64k"]["files"]={"cli.sh":'''"$CDISK" x.d81 create
"$CDISK" x.d81 format demo q7
head -c 100000 /dev/urandom > src
"$CDISK" x.d81 write src a
"$CDISK" x.d81 read a out
cmp src out
'''}
seed("s67-cli-empty-file","C20",[(F,
"    let mut reader = open_cbm_reader(diskimage, source_filename)?;\n    let mut writer = open_fs_writer(destination_filename)?;\n    io::copy(&mut reader, &mut writer)?;",
"    let mut data = Vec::new();\n    open_cbm_reader(diskimage, source_filename)?.read_to_end(&mut data)?;\n    if data.is_empty() {\n        return Ok(());\n    }\n    let mut writer = open_fs_writer(destination_filename)?;\n    writer.write_all(&data)?;")],
"reading an empty file onto a host file",
"no host file is written (one that exists keeps its old contents), and success is reported",
None, sh="demo_cli.sh")
S["s67-cli-empty-file"]["files"]={"cli.sh":'''"$CDISK" x.d64 create
"$CDISK" x.d64 format demo q7
: > src
"$CDISK" x.d64 write src a
echo old > out
"$CDISK" x.d64 read a out
cmp src out
'''}
seed("s68-cli-stdin-type","C20",[(F,
"    let destination_filename = destination_filename.unwrap_or(source_filename);\n    let mut reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_writer(",
"    let destination_filename = destination_filename.unwrap_or(source_filename);\n    let file_type = match source_filename {\n        STDINOUT_PSEUDOFILENAME => FileType::SEQ,\n        _ => file_type,\n    };\n    let mut reader = open_fs_reader(source_filename)?;\n    let mut writer = open_cbm_writer(")],
"writing from standard input with a file type",
"the file gets type seq instead of the type asked for",
None, sh="demo_cli.sh")
S["s68-cli-stdin-type"]["files"]={"cli.sh":'''"$CDISK" x.d64 create
"$CDISK" x.d64 format demo q7
echo hello | "$CDISK" x.d64 write -t prg - a
"$CDISK" x.d64 dir > out
cat out
grep -q '"a" *prg' out
'''}
seed("s69-cli-rename-same","C20",[(F,
"    disk.rename(&original_filename.into(), &new_filename.into())",
"    if original_filename == new_filename {\n        return Ok(());\n    }\n    disk.rename(&original_filename.into(), &new_filename.into())")],
"renaming a file that does not exist (or any file) to the same name",
"the tool reports success where the disk operation fails",
None, sh="demo_cli.sh")
S["s69-cli-rename-same"]["files"]={"cli.sh":'''"$CDISK" x.d64 create
"$CDISK" x.d64 format demo q7
! "$CDISK" x.d64 rename nosuch nosuch
'''}
seed("s70-rel-empty-record","C15",[("src/disk/file.rs",
"        let mut record = blocks.read_position(&positions.0)?.to_vec();",
"        let mut record = blocks.read_position(&positions.0)?.to_vec();\n        if record.len() > 1 && record[0] == 0xFF && record[1..].iter().all(|b| *b == 0) {\n            // CBM DOS marks a record that was never written like this.\n            return Ok(vec![]);\n        }")],
"a relative file with a record of 0xFF followed by zeros, as left by CBM DOS for records not yet written",
"the record is delivered empty instead of with the record length",
r'''
fn main() {
    let mut d = d64();
    let mut s = vec![0u8; 256];
    s[1] = 17;
    s[3] = 10;
    s[4] = 17;
    s[5] = 1;
    s[16] = 17;
    s[17] = 0;
    d.write_sector(at!(d, 17, 1), &s).unwrap();
    let mut b = vec![0u8; 256];
    b[1] = 21;
    b[2..12].copy_from_slice(b"0123456789");
    b[12] = 0xff;
    d.write_sector(at!(d, 17, 0), &b).unwrap();
    let mut e = [0u8; 30];
    e[0] = 0x84;
    e[1] = 17;
    name_at(&mut e, "REC");
    e[19] = 17;
    e[20] = 1;
    e[21] = 10;
    e[28] = 2;
    entry(&mut *d, e);
    let f = d.open_file(&Petscii::from_bytes(b"REC")).unwrap();
    assert_eq!(f.record_count().unwrap(), 2);
    assert_eq!(f.record(0).unwrap(), b"0123456789");
    assert_eq!(f.record(1).unwrap(), b"\xff\0\0\0\0\0\0\0\0\0");
}
''')
seed("s71-block-list-cut","C24",[("src/disk/block.rs",
"        locations\n            .iter()\n            .map(|l| l.to_string())\n            .collect::<Vec<_>>()\n            .join(\" \")",
"        let mut list = locations\n            .iter()\n            .take(512)\n            .map(|l| l.to_string())\n            .collect::<Vec<_>>();\n        if locations.len() > 512 {\n            list.push(\"...\".to_string());\n        }\n        list.join(\" \")")],
"a file of more than 512 blocks",
"the details of the file leave out its further blocks",
r'''
fn main() {
    let mut d = d81();
    put(&mut *d, "long", &data(1, 600 * 254));
    let f = d.open_file(&"long".into()).unwrap();
    let mut v: Vec<u8> = vec![];
    f.details(&mut v, 1).unwrap();
    let t = String::from_utf8(v).unwrap();
    assert_eq!(t.lines().find(|l| l.contains("sectors")).unwrap().matches('(').count(), 600);
}
''')
seed("s72-long-directory","C13",[("src/disk/directory.rs",
"                None => (Box::new(chain), None),","                // (The directory track of a 1541 holds 18 directory blocks at most.)\n                None => (Box::new(chain.take(32)), None),")],
"a 1581 disk with more than 256 directory entries",
"the entries behind them are not found, and their names can be used again",
r'''
fn main() {
    let mut d = d81();
    for i in 0..270 {
        put(&mut *d, &format!("f{}", i), &data(i, 5));
    }
    for i in 0..270 {
        assert_eq!(get(&*d, &format!("f{}", i)), data(i, 5));
    }
    assert!(d.create_file(&"f269".into(), FileType::PRG, Scheme::Linear).is_err());
}
''')
