#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the text is reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]="cfg(cbm_verif) re-export of the block device and disk traits" if hook else None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/disk/"
p("C01","Files read back exactly what was written, whatever happens to other files",
 "After any sequence of create, write, append, rename, delete and reopen operations on a disk image, every existing file is listed once with its name, type and flags (a new file is closed and unlocked) and reads back exactly the bytes written to it, in order and without extra or missing bytes. Operations on one file never change the contents, name, type or flags of another file, including relative and GEOS files that were already on the disk. A deleted or never created name is reported as not found.",
 ["histories","configurations"],"All operation histories on all disk formats, with any existing layout of files and free space, for any content length including multiples of the 254-byte block payload.",
 "Corruption of a neighbour depends on the combination of history, directory slot reuse, free-space layout and block-boundary lengths; random tests sample a vanishing part and only on freshly formatted non-GEOS disks.",
 [D+"chain.rs",D+"mod.rs",D+"directory.rs",D+"bam.rs",D+"file.rs"],
 [("chain writer and reader",D+"chain.rs ChainWriter/ChainReader"),("file creation",D+"mod.rs create_file"),("directory slot reuse",D+"directory.rs next_free_directory_entry"),("chain release",D+"chain.rs remove_file")],
 state="sector chains, directory entries, allocation map",observe="file listing and file contents through the public API",hook=False)
p("C02","The allocation map always equals the set of blocks in use",
 "Whenever no write is in progress, a block is marked free in the disk image's allocation map exactly if it is not used by the disk's own structures, the directory, the GEOS border block or any file (including side sectors, info blocks and index blocks); per-track free counts equal the number of free bits, no block belongs to two owners, each file's directory block count equals the number of blocks it occupies, and the reported blocks-free figure agrees. The consistency check reports no problem for such an image.",
 ["histories","configurations"],"All histories of successful and failed operations from any consistent image, on every disk format.",
 "The invariant relates on-disk structures that unit tests only look at through the library's own validator, on one format family and random histories.",
 [D+"bam.rs",D+"chain.rs",D+"mod.rs",D+"file.rs",D+"geos/file.rs",D+"validation.rs"],
 [("allocation map serialisation",D+"bam.rs BamWriter/Bam"),("allocate before link",D+"chain.rs allocate_next_block"),("release on delete",D+"chain.rs remove_file, file.rs, geos/file.rs")],
 state="allocation map on disk and in memory",observe="raw image bytes decoded by an independent reader",hook=False)
p("C03","What an operation reported as done is in the image for the next opener",
 "When an operation (format, create, write followed by flush or by dropping the writer, append, rename, delete, header flush) returns success, the image bytes already contain its complete effect: opening the image afresh shows the same directory, file contents, header, free-block figure and allocation map as the live disk object. No later call is needed to make it so.",
 ["histories","configurations"],"All operation histories and every point between operations at which the image is reopened, in memory and in files, on every disk format.",
 "Tests inspect the same live object that did the writing, whose caches hide metadata that was never written out.",
 [D+"mod.rs",D+"bam.rs",D+"chain.rs",D+"file.rs",D+"geos/file.rs",D+"image.rs"],
 [("allocation map flush",D+"bam.rs flush"),("writer flush on drop",D+"chain.rs ChainWriter"),("file backing",D+"image.rs")],
 state="in-memory allocation map and header versus image bytes",observe="fresh open of the image bytes after each operation",hook=False)
p("C04","Running out of space is reported and harms nothing",
 "When the disk or the directory has no room, creation or writing fails with the disk-full error and never earlier: every free data block outside the reserved tracks, and every directory slot the directory track can hold, is usable before that. After the failure all other files are intact, the file being written holds exactly the bytes that were accepted, and the allocation map is consistent. Space released by deleting files is usable again.",
 ["histories","configurations"],"All fill, fail, delete and refill histories from all near-full layouts (free blocks on any tracks, full or nearly full directory) on every disk format.",
 "The failure paths need exact exhaustion at every different step of an operation, with free space in unusual places.",
 [D+"format.rs",D+"chain.rs",D+"mod.rs",D+"directory.rs"],
 [("free block search",D+"format.rs next_free_block and helpers"),("write rollback",D+"chain.rs allocate_next_block"),("directory extension",D+"directory.rs next_free_directory_entry")],
 state="allocation map, directory chain",observe="operation results and independently decoded image",hook=False)
p("C05","Handles open at the same time do not disturb each other",
 "Any interleaving of several readers and writers on different files with creations, deletions and renames of other files and with re-initialisation of the disk object leaves each file with exactly the bytes written through its own writer, and every reader sees exactly its file's bytes; stepping through the directory meanwhile gives every file that is there throughout exactly once. No two handles are ever given the same block, and once all writers are flushed the image is consistent.",
 ["schedules","histories"],"All interleavings at call granularity of two writers, a reader and directory operations, with any chunk sizes, from any consistent layout.",
 "The library promises that several file objects, readers and writers can be in use at once through shared state; tests only ever use one handle at a time.",
 [D+"chain.rs",D+"bam.rs",D+"mod.rs"],
 [("shared allocation map",D+"bam.rs BamRef, mod.rs set_bam"),("re-read of the directory entry before update",D+"chain.rs increment_entry_blocks"),("shared block device",D+"block.rs BlockDeviceRef")],
 state="shared allocation map and block device behind several handles",observe="file contents, block ownership after each schedule",hook=False)
p("C06","An interruption at any block write never damages other or finished data",
 "If the process stops after any prefix of the block writes of an operation, reopening the image finds the disk readable, every file not being operated on intact, and all data flushed before the operation still readable in the file being appended, followed by nothing but bytes written to it since. No block used by an intact or flushed file is marked free, so later writes cannot overwrite it; the file being created, deleted or renamed is seen in its old state or its new state, or with its blocks leaked but never shared.",
 ["crash_points","histories"],"Every block-write boundary of every create, append, delete and rename (of every file structure) from every root layout; each block write is atomic and writes reach the image in program order.",
 "Needs the image as it is between two block writes inside one call, which no API-level test can observe.",
 [D+"chain.rs",D+"mod.rs",D+"directory.rs",D+"bam.rs",D+"file.rs",D+"geos/file.rs"],
 [("write ordering when extending a chain",D+"chain.rs allocate_next_block"),("write ordering when creating",D+"mod.rs create_file"),("write ordering when extending the directory",D+"directory.rs next_free_directory_entry"),("write ordering when deleting",D+"chain.rs remove_file")],
 state="image bytes at every block-write boundary",observe="reopening every intermediate image",hook=False)
p("C07","Read-only media and inspection never change the image",
 "Through an image opened read-only no disk or file operation can change a byte of the underlying file or what later calls report; operations that would change the image fail with the read-only error (at the latest when written data is flushed). On writable images, inspection (listing, reading, searching, validating, dumping, querying free space, file details, re-initialising) leaves every byte unchanged.",
 ["histories","inputs"],"All sequences of API calls up to the bound on read-only opened files of every format, and of non-mutating calls on writable images.",
 "Tests never open images read-only; in-memory state can be altered even when the medium refuses the write.",
 [D+"image.rs",D+"block.rs",D+"chain.rs",D+"mod.rs"],
 [("writability gate",D+"block.rs sector_mut, image.rs check_writability"),("in-memory map changes before the failing write",D+"mod.rs create_file, chain.rs remove_file")],
 state="image file bytes; in-memory allocation map",observe="file bytes and query results before and after",hook=False)
p("C08","Damaged images give errors, never crashes or endless work",
 "For an image of a supported size with any damage to its metadata (links, directory entries, allocation map, header, side sectors, index and info blocks), every public operation returns a result or an error: it never panics, never loops forever and never reads an unbounded stream. Chains with loops are reported as errors.",
 ["inputs","fault_sequences"],"All single-byte corruptions of every metadata byte, and all pairs of link corruptions within the bound, of images containing every file structure, on every format, followed by every operation.",
 "The space of damaged images is far beyond hand-written cases and each needs the full operation set to be tried.",
 [D+"chain.rs",D+"directory.rs",D+"bam.rs",D+"file.rs",D+"geos/file.rs",D+"geos/reader.rs",D+"format.rs",D+"block.rs"],
 [("loop detection",D+"chain.rs ChainIterator"),("location bounds",D+"block.rs get_offset, bam.rs entry"),("structure checks",D+"file.rs RelativeFile, geos/reader.rs")],
 state="arbitrary image bytes",observe="normal return of every operation within a step bound",hook=False)
p("C09","The consistency check reports exactly the inconsistencies present",
 "Validating an image reports precisely: each system block not marked allocated, each block marked allocated that nothing uses, each block used but marked free together with its owner, each block used by more than one owner with the owners' names, and each file whose structure cannot be scanned; it reports nothing else, and nothing at all on a consistent image. It never modifies the image.",
 ["inputs","configurations"],"All single and pairwise flips of allocation bits, cross-links, and broken chains over images with every file structure, on every format.",
 "Tests only check that healthy images validate clean, so missing or wrong reports go unnoticed.",
 [D+"validation.rs",D+"bam.rs",D+"format.rs"],
 [("validation pass",D+"validation.rs validate"),("system block list",D+"format.rs system_locations"),("allocated and free lists",D+"bam.rs allocated_sectors/free_sectors")],
 state="allocation map versus occupied blocks",observe="returned list of problems compared as a set",hook=False)
p("C10","Every track and sector addresses its own block of the image",
 "For every supported image kind, with and without error table, every valid track and sector pair addresses the 256 image bytes at its standard offset and no other, and every invalid pair is refused with an error; blocks written are read back unchanged and leave all other bytes, including the error table, untouched. Images are recognised by extension or else by exact size, other sizes are refused, and creating an image yields a file of exactly the right size with zeroed content, replacing an existing file only when allowed to.",
 ["inputs","configurations"],"All 65,536 track/sector pairs on every geometry; all image sizes near the supported ones; all extension and existing-file combinations.",
 "Tests check only internal table consistency, not the mapping of each address nor the recognition rules.",
 [D+"block.rs",D+"image.rs",D+"mod.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs"],
 [("address translation",D+"block.rs get_offset"),("geometry by size",D+"mod.rs Geometry"),("image creation",D+"image.rs create"),("type detection",D+"mod.rs open, DiskType")],
 state="image bytes",observe="block reads and writes against independent offsets",hook=False)
p("C11","New blocks are chosen as the Commodore DOS (or GEOS) would choose them",
 "For every allocation map and previous block, the next block chosen for a file or directory is the one the documented Commodore DOS rule prescribes: the first block on the free track nearest the directory track, further blocks on the same track at the format's interleave with the documented wrap adjustment, then outward away from the directory track, then the other half; on GEOS disks the documented GEOS rule is used. Files and directory extensions written through the library occupy exactly those blocks, and a block that is already allocated is never chosen.",
 ["inputs","histories"],"All previous positions on every format against allocation maps with every track and sector pattern in the bound, and all file-writing histories in the bound.",
 "The choice depends on previous track, sector, interleave, wrap-around and which tracks are full; tests only require some free block.",
 [D+"format.rs",D+"chain.rs",D+"directory.rs"],
 [("next free block",D+"format.rs next_free_block_from_previous, next_free_track_*"),("use while writing",D+"chain.rs allocate_next_block"),("use for the directory",D+"directory.rs next_free_directory_entry")],
 state="allocation map",observe="chosen locations, chains on disk",hook=False)
p("C12","Directory entries are listed and rewritten without loss",
 "Listing a directory yields exactly the non-scratched entries in directory order followed by those of the GEOS border block, each with its name, type, flags, start block, block count and type-specific fields as stored. Writing an entry back unchanged leaves the image unchanged byte for byte, and changing one field changes only the bytes of that field.",
 ["inputs","configurations"],"All 256 values of every byte of a directory entry at every slot of one- and multi-sector directories, for all file structures and formats.",
 "An entry has 32 bytes with cross-dependent interpretation (relative, GEOS, plain); tests only exercise entries the library itself creates.",
 [D+"directory.rs",D+"geos/mod.rs"],
 [("entry codec",D+"directory.rs DirectoryEntry, FileAttributes, Extra"),("directory iteration",D+"directory.rs DirectoryIterator")],
 state="directory sectors",observe="listed entries; bytes after rewriting",hook=False)
p("C13","Names identify files: lookup, uniqueness and rename are exact",
 "A file is found by exactly its name, byte for byte; names are at most 16 bytes, longer names and names already in use are refused for creation and renaming with the proper error. Renaming changes only the stored name: the file's contents, type, flags, size, position and structure-specific data and all other files stay the same.",
 ["inputs","histories"],"All names over a small alphabet up to length 2 plus boundary lengths and all single-byte names, in all create/rename/delete histories in the bound, for all file structures.",
 "Tests create random valid names and never rename, nor create colliding or over-long names.",
 [D+"mod.rs",D+"directory.rs","src/petscii.rs"],
 [("lookup and availability",D+"mod.rs find_directory_entry, check_filename_availability, rename"),("name validity",D+"directory.rs check_filename_validity"),("padding","src/petscii.rs from_padded_bytes/write_bytes_with_padding")],
 state="directory entry name fields",observe="lookup results, errors, image bytes",hook=False)
p("C14","Formatting yields a standard empty disk of that type",
 "Formatting any image, whatever it contained, produces an empty disk with the given name and id, the standard DOS version, format bytes and padding for that disk type, an empty first directory block, only the system blocks allocated, the standard number of free blocks and a clean consistency check; the error table is untouched. The result does not depend on the previous contents, and the live disk object and a fresh open agree on it. A name that does not fit is refused before anything is erased.",
 ["inputs","configurations"],"All names of lengths 0 to 20 over chosen bytes and all single-byte values, all ids over single bytes, all formats and a set of previous contents including GEOS disks.",
 "Tests format blank in-memory images and check only that files can be written afterwards.",
 [D+"mod.rs",D+"header.rs",D+"bam.rs",D+"format.rs"],
 [("formatting",D+"mod.rs write_format"),("header rendering",D+"header.rs write"),("system blocks",D+"format.rs system_locations")],
 state="whole image",observe="image bytes against an independent formatter",hook=False)
p("C15","Relative files deliver every record exactly",
 "For every well-formed relative file, the number of records is the data length divided by the record length and each record is exactly the corresponding slice of the data, including records that straddle two blocks and files with several side sectors; the occupied blocks are the data and side-sector blocks. An index beyond the end is an error, as is a file whose side sectors or length are inconsistent.",
 ["inputs","configurations"],"All record lengths 1 to 254 with every block-boundary alignment and one to six side sectors, on every format.",
 "There are no tests for relative files at all.",
 [D+"file.rs"],
 [("side sector parsing",D+"file.rs RelativeFile::new"),("record positions",D+"file.rs record_position")],
 state="side sectors and data chain",observe="record count and record bytes",hook=False)
p("C16","GEOS files deliver records and conversion streams exactly",
 "For every well-formed GEOS file, record n is exactly the n-th entry of its index (empty for an unavailable record), and a sequential file reads as its data chain. The conversion stream is, for any sequence of read sizes, the same finite byte string: directory entry block with signature, info block, converted index block and records padded to block multiples except the last.",
 ["inputs","schedules"],"All index shapes in the bound (available, empty and absent records, lengths around block multiples, full index) and all read-size sequences in the bound.",
 "There are no tests for GEOS files; stream errors appear only for particular read sizes.",
 [D+"geos/file.rs",D+"geos/reader.rs",D+"geos/mod.rs"],
 [("index parsing",D+"geos/file.rs GEOSFile::new"),("conversion state machine",D+"geos/reader.rs GEOSReader")],
 state="index block, record chains, stream state",observe="records; stream bytes for each read pattern",hook=False)
p("C17","PETSCII conversion is total, stable and reversible where defined",
 "Every PETSCII byte converts to exactly one Unicode character as in the published chart, and every Unicode string converts without failure to one PETSCII byte per character, using the substitute character only for characters PETSCII lacks; a character that several bytes render converts to the lowest of them. Converting a byte to Unicode and back to PETSCII gives a byte with the same Unicode rendering, and padded fields keep exactly the bytes before the padding. A two-byte identifier made from text or bytes is its first two bytes, zero where there is none.",
 ["inputs"],"All 256 bytes, all 65536 identifiers, all Unicode scalar values, and all padded fields over a small alphabet in the bound.",
 "Tests spot-check 17 of 256 bytes and a couple of ASCII strings.",
 ["src/petscii.rs"],
 [("chart","src/petscii.rs PETSCII_TO_CHAR_MAP"),("lossy conversion","src/petscii.rs from_str_lossy"),("padding","src/petscii.rs from_padded_bytes, write_bytes_with_padding")],
 observe="conversion results",hook=False)
p("C18","GEOS info blocks and icons are decoded and re-encoded without loss",
 "Decoding a GEOS info block yields every field from its documented position, and encoding it again over the original block reproduces the block exactly; changing one field changes only that field's bytes. The icon rendering shows every one of its 24 by 21 pixels at its place.",
 ["inputs"],"All 256 values of each byte of an info block, every single pixel and every 2x2 pixel combination at each cell.",
 "There are no tests of info blocks or sprites.",
 [D+"geos/mod.rs","src/sprite.rs"],
 [("info block codec",D+"geos/mod.rs GEOSInfo"),("icon rendering","src/sprite.rs to_unicode")],
 observe="decoded fields, encoded bytes, rendered text",hook=False)
p("C19","Streaming does not depend on how it is cut into calls",
 "However a given byte string is cut into write calls, with flushes, writer re-creation or image reopening in between, the file ends up the same; however a file is cut into read calls, the concatenation is the same and ends with end-of-file that stays end-of-file. Every call reports exactly the number of bytes it transferred, and an error never hides bytes already transferred.",
 ["schedules","inputs"],"All cut points of contents around block boundaries into up to the bounded number of calls of chosen sizes, for writers and readers of all stream kinds.",
 "Tests write and read each file in one call.",
 [D+"chain.rs",D+"geos/reader.rs"],
 [("buffered tail block",D+"chain.rs ChainWriter write/flush"),("partial block hand-out",D+"chain.rs ChainReader read")],
 state="stream position and buffered block",observe="returned counts and bytes; final image",hook=False)
p("C20","The command-line tool does to the image what its command says",
 "Every sequence of command-line invocations (create, format, write, append, read, rename, delete, directory, validate, dump, allocation-map show and edit, GEOS read) has exactly the effect and output of the corresponding disk operations on the named image. A command that fails says so with a non-zero exit status and an error message, without crashing and without altering the image (a write or append that breaks off while transferring data keeps what was stored before); inspection commands never alter the image and work on images that cannot be written to. Command lines with missing, superfluous or impossible arguments are refused in the same way, and a read that fails leaves other files alone.",
 ["programs","histories"],"All command sequences up to the bound over a small alphabet of names, contents and image types, including failing commands.",
 "There are no tests of the command-line program.",
 ["src/bin/cdisk.rs"],
 [("command dispatch and exit status","src/bin/cdisk.rs main"),("commands","src/bin/cdisk.rs cmd_*")],
 state="image file, output files",observe="exit status, stdout, image bytes, extracted files",hook=False)
p("C21","Operations that fail leave no trace",
 "When an operation fails (unknown file, name in use, name too long, not writable, wrong file structure, bad location or buffer size, damaged chain of the file concerned, no free block for a new file), the image bytes and everything the library subsequently reports (directory, contents, free blocks, allocation choices) are exactly as if it had not been attempted. A delete that fails has freed nothing.",
 ["inputs","fault_sequences"],"All failing operations of the bounded alphabet at every state of the bounded histories, on every format and file structure, including damaged files.",
 "Tests check the error value at most, not that a failed call left neither the image nor the in-memory map altered.",
 [D+"mod.rs",D+"chain.rs",D+"bam.rs",D+"file.rs",D+"geos/file.rs",D+"directory.rs"],
 [("check before change",D+"mod.rs create_file, rename, write_format"),("collect before release",D+"chain.rs remove_file; file.rs and geos/file.rs delete")],
 state="image bytes and in-memory allocation map",observe="state before and after a failing call",hook=False)
p("C22","Header edits change exactly the header fields edited",
 "Reading a disk header gives the name, id, version and format bytes and GEOS identification stored at the documented places. Changing some of the name, id, version and format bytes and flushing the header changes exactly the corresponding bytes and the padding bytes, leaves the allocation map, GEOS border data and all files untouched, and is what the next opener reads.",
 ["inputs","histories"],"All values of each header field byte on all formats, all subsets of edited fields, combined with file operations in any order in the bound.",
 "Tests only read eight fixed headers and never write one back.",
 [D+"header.rs",D+"d64.rs",D+"d71.rs",D+"d81.rs",D+"mod.rs"],
 [("header codec",D+"header.rs read/write"),("offset tables",D+"d64.rs, d71.rs, d81.rs HEADER_FORMAT")],
 state="header block shared with the allocation map on two formats",observe="image bytes before and after",hook=False)
p("C23","Deleting a file releases exactly that file's blocks",
 "Deleting a file of any structure marks free exactly the blocks it occupied (data, side sectors, info block, index block and all records) and marks its directory slot as scratched, changing no other byte of the image outside the allocation map; the name is then not found and the slot and blocks are reusable. The order in which files are deleted does not matter.",
 ["histories","configurations"],"All subsets and orders of deleting files of all structures and sizes from mixed images on every format.",
 "Tests delete plain files only and look at the result only through the library's validator.",
 [D+"chain.rs",D+"file.rs",D+"geos/file.rs",D+"bam.rs"],
 [("chain release",D+"chain.rs remove_file"),("delete per structure",D+"file.rs and geos/file.rs delete")],
 state="allocation map, directory slot",observe="raw image diff",hook=False)
p("C24","Dumps and listings show the actual bytes",
 "A hex dump of a disk or of a file shows every byte of every block or record exactly once, at its offset, in order, with its printable form, and the error table when there is one. Directory lines and allocation map displays show the stored names, sizes, types, flags and free/used state of every block; verbose listings add the fields particular to the file structure (side sector and record length, or GEOS structure, type and date) and the details of a file name its directory position and its blocks.",
 ["inputs","configurations"],"All byte values at all column positions, all record lengths modulo the row width, all flags, all formats.",
 "There are no tests of dump or display output.",
 ["src/util/mod.rs",D+"block.rs",D+"file.rs",D+"directory.rs",D+"bam.rs",D+"mod.rs"],
 [("hex dump","src/util/mod.rs hexdump"),("disk dump",D+"block.rs dump"),("entry display",D+"directory.rs Display"),("map display",D+"bam.rs Debug")],
 observe="text parsed back into bytes and compared",hook=False)
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
