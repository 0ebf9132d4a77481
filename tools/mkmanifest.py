#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
HIST = "explicit-state exploration of the real code: all operation sequences to a depth, checked against an independent format model"
T = {
 "C01": ("model_checking", HIST, "Exhaustive over all operation sequences up to the stated depth from the stated root images; trusts the reference model in mc/src (raw.rs, world.rs)."),
 "C02": ("model_checking", HIST, "Exhaustive up to the stated depth; the oracle recomputes block usage from the raw image independently of the library."),
 "C03": ("model_checking", HIST, "Exhaustive up to the stated depth, in memory and on image files; live observations against a fresh open of the bytes."),
 "C04": ("model_checking", HIST, "Exhaustive up to the stated depth from full and nearly full disks; every single free block of four formats."),
 "C05": ("model_checking", "exhaustive enumeration of interleavings of handle scripts on the real code", "All interleavings of the listed scripts; single-threaded handles as the library is not Sync; two writers of one file and use of deleted files are outside the property."),
 "C06": ("fault_enumeration", "exhaustive crash-point enumeration: every store into the mapped image is trapped, every block-write prefix is reopened and checked", "All crash points between block writes of every operation in the listed histories; process crash (ordered stores), not power loss with reordering."),
 "C07": ("model_checking", "exhaustive enumeration of operations and operation sequences on read-only and writable images", "All listed public calls and all sequences to the depth; compares every byte and everything observable."),
 "C08": ("fault_enumeration", "exhaustive single- and double-fault enumeration over every metadata byte, full operation battery on each", "All single-byte faults over the stated values plus the stated pairs; each image runs the whole battery under panic, time and allocation guards."),
 "C09": ("model_checking", "exhaustive enumeration of damaged allocation maps and structures, differential against an independent validator", "All single and stated double inconsistencies on the root images; trusts the independent validator."),
 "C10": ("model_checking", "exhaustive enumeration of all 256x256 locations and all image sizes/extensions", "Complete for addressing; opening by size over all boundary sizes."),
 "C11": ("model_checking", "exhaustive enumeration of allocation states against an independent allocator model, replayed on the real code", "All previous blocks and all stated map families; trusts the model written from DISK.TXT."),
 "C12": ("model_checking", "exhaustive enumeration of directory-entry bytes, slots and edits on the real code", "All attribute bytes, all single-byte variations of an entry in every slot; trusts the raw model."),
 "C13": ("model_checking", HIST, "Exhaustive up to the stated depth; every pair of over 700 byte-string names."),
 "C14": ("model_checking", "exhaustive enumeration of format calls over previous contents, names and ids", "All formats, previous contents and names of every length; compares the stated fields only."),
 "C15": ("model_checking", "exhaustive enumeration of relative-file shapes on the real code", "All record lengths x stated data sizes; trusts the builder in raw.rs."),
 "C16": ("model_checking", "exhaustive enumeration of GEOS file shapes and read-size sequences on the real code", "All stated shapes and read cuts; expected stream computed independently."),
 "C17": ("model_checking", "exhaustive enumeration of all bytes, all Unicode scalar values and short strings", "Complete for single bytes and single characters."),
 "C18": ("model_checking", "exhaustive enumeration of info-block bytes and icon pixels", "Every byte position x every value, every pixel; trusts the documented layout."),
 "C19": ("model_checking", "exhaustive enumeration of call cuts on the real code", "All cuts of the stated lengths into calls with all stated separators."),
 "C20": ("model_checking", "exhaustive enumeration of command sequences run through the real binary, differential against the model", "All command sequences to the depth on scratch images; output compared with the library's own rendering and with the model."),
 "C21": ("model_checking", HIST, "Exhaustive up to the stated depth plus every single-byte damage of chains; compares every byte and everything observable."),
 "C22": ("model_checking", "exhaustive enumeration of header bytes and edits on the real code", "All values of every header field byte and all subsets of field edits."),
 "C23": ("model_checking", HIST, "Exhaustive up to the stated depth; all 720 deletion orders; byte-exact expected images."),
 "C24": ("model_checking", "exhaustive enumeration of dumped contents, dumps parsed back independently", "Every byte value at every column, all sizes up to a block, all formats."),
}
impl = set(open(V + "/tools/implemented.txt").read().split())
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface and trap stores into the mapped image file", "source_commits": []},
 "checks": [],
 "not_applicable": [],
 "notes": "All checks run the real crate built from /repo's working tree; see DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in impl:
        lv, te, note = T[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": te, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
