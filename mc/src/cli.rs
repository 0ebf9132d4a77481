//! C20: the command-line tool. The tool keeps nothing between invocations, so the image file is the
//! whole state: breadth-first search over image contents with every command from every state.
use crate::engine::*;
use crate::glue::*;
use crate::raw::*;
use crate::roots;
use cbm::disk::directory::FileType;
use cbm::disk::file::{File, FileOps, Scheme as LScheme};
use cbm::disk::{self, DiskError};
use std::collections::{HashSet, VecDeque};
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};

const SOURCES: &[(&str, usize)] = &[("s0", 0), ("s100", 100), ("s254", 254), ("s700", 700), ("s9000", 9000)];
fn source(n: &str) -> Option<Vec<u8>> {
    SOURCES.iter().chain(LARGE).find(|s| s.0 == n).map(|s| content(7000 + s.1 as u32, s.1))
}
/// only there for the commands that name them
const LARGE: &[(&str, usize)] = &[("s51308", 202 * 254), ("s51309", 202 * 254 + 1), ("s65536", 65536), ("s65537", 65537), ("s140000", 140000), ("s320000", 320000), ("s700000", 700000)];
const STDIN: usize = 333;

/// Sequences of commands beyond the alphabet, run from start to end: large transfers and unusual names.
fn scripts() -> Vec<(&'static str, &'static str, Vec<Vec<&'static str>>)> {
    fn w(s: &'static str) -> Vec<Vec<&'static str>> {
        s.split(';').map(|l| l.split_whitespace().collect()).collect()
    }
    vec![
        ("empty", "fresh@d64", w("write s0 e; read e out; read e -; read e; dump e; dir -vv; append s0 e; read e out; append s254 e; read e out; append s0 e; read e out; rename e f; read f s100; write s0 g; append - g; read g -; delete f; delete g; validate")),
        ("stdin", "fresh@d71", w("write -t prg - p; write --type usr - u; write -t seq - s; write - q; write -t prg -; write -; read p out; read u -; read s; dir; append - p; append - u; read p -; append -; dir -v; validate")),
        ("dash", "fresh@d81", w("write s100 -; append s254 -; read - out; read - -; read -; dump -; rename - x; read x out; rename x -; dir; delete -; delete -; write - -; append - -; read - out; geosread - out; validate")),
        ("same", "geos@d64", w("rename old old; rename OLD old; rename old OLD; rename vlir vlir; rename rel rel; rename nosuchfile nosuchfile; write s100 old; write s100 OLD; write s100 vlir; write s100 rel; dir; validate")),
        ("types", "fresh@d64", w("write -t PRG s100 a; write -t Prg s100 a; write -t p s100 a; write -t usr s100 b; write -t prg s100 b; append s100 b; dir; write s254 -t prg c; write s254 d -t usr; dir; validate")),
        ("names", "fresh@d64", w("write s100 abcdefghijklmnop; write s254 ABCDEFGHIJKLMNOP; read abcdefghijklmnop out; append s100 abcdefghijklmnop; write s100 abcdefghijklmno; rename abcdefghijklmno abcdefghijklmnopq; rename abcdefghijklmno abcdefghijklmnoq; read abcdefghijklmnoq; write s100 a*; write s100 a?; write s100 a,p,w; write s100 0:x; write s100 @:x; write s100 $; write s100 dir/file; read a* out; read a? out; read $ out; read 0:x out; append s254 @:x; read @:x; append s100 a*; rename a? a!; delete a*; delete $; dir; read dir/file out; read dir/file; validate")),
        ("large64", "fresh@d64", w("write s51308 a; read a out; read a -; write s65537 b; read b out; dump b; dir; append s51309 a; read a out; write -t prg s140000 c; read c out; dir; delete b; append s65536 a; append s65536 a; read a out; validate; dir -vv")),
        ("large71", "fresh@d71", w("write s140000 a; write s65537 b; append s65536 b; read b out; read a -; dump a; append s65537 a; dir; read a out; append s65536 a; validate; delete a; write s320000 a; read a out; write s140000 c; append s140000 c; read c out; dir; validate")),
        ("large81", "fresh@d81", w("write s700000 a; read a out; dump a; dir; append s51308 a; append s65537 a; read a -; validate; delete a; write s320000 a; write -t usr s320000 b; append s65537 b; read b out; write s700000 c; read c out; append s100 c; dir -v; delete b; append s140000 c; read c out; validate")),
    ]
}
fn script(pl: &Place, what: &str, cov: &mut Cov) -> R {
    let (_, root, list) = scripts().into_iter().find(|s| s.0 == what).unwrap();
    let g = Geo::by_name(root.split_once('@').unwrap().1);
    let name = format!("disk.{}", g.ext());
    let mut img = roots::root(root).d;
    for (i, a) in list.iter().enumerate() {
        let desc = || format!("{}: {}", root, list[..=i].iter().map(|a| a.join(" ")).collect::<Vec<_>>().join("; "));
        cov.tick(desc);
        let next = step(pl, &name, Some(&img), a, cov).map_err(|e| format!("{}: {}", desc(), e))?.ok_or("the image is gone")?;
        if pl.expect(&name, Some(&img), a).0.ok && next != img && !a.contains(&"-t") {
            independent(g, &img, &next, a).map_err(|e| format!("{}: {}", desc(), e))?;
        }
        cov.state(fp(&[&next]));
        img = next;
    }
    Ok(())
}

/// Every command line explored (without the image name).
fn commands(g: &str) -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&'static str>> = vec![
        vec!["format", "test disk", "q7"],
        vec!["format", "sixteen chars ok", "x"],
        vec!["format", "seventeen chars..", "q7"],
        vec!["format", "", "q7"],
        vec!["format", " a b ", " "],
        vec!["write", "s100", "x "],
        vec!["write", "s0", ""],
        vec!["write", "--", "-s", "e"],
        vec!["rename", "x ", " x"],
        vec!["delete", "x "],
        vec!["write", "s100", "a"],
        vec!["write", "-t", "prg", "s700", "b"],
        vec!["write", "--type", "usr", "s100"],
        vec!["write", "-", "d"],
        vec!["write", "-t", "seq", "s9000", "big file"],
        vec!["write", "nosuchfile", "e"],
        vec!["write", "-t", "rel", "s100", "e"],
        vec!["write", "s100", "a name that is too long"],
        vec!["write"],
        vec!["append", "s254", "a"],
        vec!["append", "s700", "old"],
        vec!["append", "-", "b"],
        vec!["append", "s0", "a"],
        vec!["append", "s100", "rel"],
        vec!["append", "s100", "vlir"],
        vec!["append", "s100"],
        vec!["append", "nosuchfile", "a"],
        vec!["read", "a", "out"],
        vec!["read", "b"],
        vec!["read", "old", "-"],
        vec!["read", "rel", "out"],
        vec!["read", "vlir", "-"],
        vec!["read", "gseq", "-"],
        vec!["read", "old", "nosuchdir/out"],
        vec!["read", "old", "s9000"],
        vec!["read", "a", "s254"],
        vec!["geosread", "bord", "s9000"],
        vec!["write", "s100", "A-b \u{a3}\u{e9}"],
        vec!["read", "a-B \u{a3}\u{e9}", "out"],
        vec!["rename", "old", "\u{3c0} x?*"],
        vec!["geosread", "vlir", "out"],
        vec!["geosread", "gseq", "-"],
        vec!["geosread", "bord"],
        vec!["geosread", "old", "out"],
        vec!["geosread", "rel", "out"],
        vec!["geosread", "nosuchfile", "out"],
        vec!["rename", "a", "c"],
        vec!["rename", "old", "a"],
        vec!["rename", "vlir", "v2"],
        vec!["rename", "c", "a name that is too long"],
        vec!["rename", "nosuchfile", "x"],
        vec!["delete", "a"],
        vec!["delete", "old"],
        vec!["delete", "rel"],
        vec!["delete", "vlir"],
        vec!["delete", "bord"],
        vec!["delete", "nosuchfile"],
        vec!["dir"],
        vec!["dir", "-v"],
        vec!["dir", "-v", "-v"],
        vec!["dir", "-vvv"],
        vec!["dir", "-vvvv"],
        vec!["dump"],
        vec!["dump", "old"],
        vec!["dump", "vlir"],
        vec!["dump", "rel"],
        vec!["dump", "nosuchfile"],
        vec!["validate"],
        vec!["create"],
        vec!["bam", "show"],
        vec!["bam", "allocate", "1", "0"],
        vec!["bam", "free", "1", "0"],
        vec!["bam", "allocate", "1", "all"],
        vec!["bam", "free", "2", "all"],
        vec!["bam", "allocate", "all", "18"],
        vec!["bam", "free", "35", "16"],
        vec!["bam", "allocate", "1", "21"],
        vec!["bam", "allocate", "1", "39"],
        vec!["bam", "allocate", "0", "0"],
        vec!["bam", "allocate", "1", "40"],
        vec!["bam", "free", "x", "0"],
        vec!["bam", "free", "81", "0"],
        vec!["bam", "allocate", "-1", "0"],
    ];
    match g {
        "d81" => v.extend([vec!["bam", "allocate", "80", "39"], vec!["bam", "free", "80", "39"], vec!["bam", "allocate", "all", "39"]]),
        "d71" => v.extend([vec!["bam", "allocate", "70", "16"], vec!["bam", "free", "66", "all"], vec!["bam", "allocate", "71", "0"], vec!["bam", "allocate", "53", "18"]]),
        _ => v.extend([vec!["bam", "allocate", "36", "0"], vec!["bam", "free", "40", "all"]]),
    }
    v
}
/// Explored as last commands only: they turn everything upside down.
fn coarse() -> Vec<Vec<&'static str>> {
    vec![vec!["bam", "free", "all", "all"], vec!["bam", "allocate", "all", "all"], vec!["bam", "free", "all", "0"]]
}

#[derive(Debug, PartialEq)]
struct Out {
    ok: bool,
    stdout: Vec<u8>,
    /// files appearing in the working directory
    files: Vec<(String, Vec<u8>)>,
}

fn pt(s: &str) -> cbm::Petscii {
    s.into()
}

/// What the corresponding disk operations do (on a copy of the image).
fn reference(img: &Path, a: &[&str]) -> Out {
    let mut o: Vec<u8> = vec![];
    let mut files = vec![];
    let r = refer(img, a, &mut o, &mut files);
    Out { ok: r.is_ok(), stdout: o, files }
}
fn input(n: &str) -> std::io::Result<Vec<u8>> {
    if n == "-" {
        return Ok(content(555, STDIN));
    }
    source(n).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::NotFound, "no such file"))
}
fn deliver(data: Vec<u8>, to: &str, o: &mut Vec<u8>, files: &mut Vec<(String, Vec<u8>)>) -> std::io::Result<()> {
    match to {
        "-" => o.extend(data),
        t if t.contains('/') => return Err(std::io::Error::new(std::io::ErrorKind::NotFound, "no such file")),
        _ => files.push((to.to_string(), data)),
    }
    Ok(())
}
/// Command lines that ask for nothing definite: all of them are refused.
fn misuse() -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&'static str>> = vec![
        vec![], vec!["nosuchcommand"], vec!["bam"], vec!["bam", "nosuch"], vec!["bam", "allocate"], vec!["bam", "allocate", "1"], vec!["bam", "free"], vec!["bam", "free", "1"],
        vec!["read"], vec!["write"], vec!["append"], vec!["geosread"], vec!["format"], vec!["format", "x"], vec!["rename"], vec!["rename", "old"], vec!["delete"],
        vec!["write", "-t"], vec!["write", "-t", "del", "s100", "n"], vec!["write", "-t", "", "s100", "n"], vec!["write", "-x", "s100", "n"],
        vec!["read", "old", "out", "more"], vec!["write", "s100", "n", "more"], vec!["append", "s100", "old", "more"], vec!["geosread", "gseq", "out", "more"],
        vec!["format", "x", "y", "z"], vec!["rename", "old", "n", "more"], vec!["delete", "old", "rel"], vec!["dump", "old", "rel"], vec!["validate", "old"], vec!["create", "old"], vec!["dir", "old"],
    ];
    for w in ["allocate", "free"] {
        for (t, s) in [("all", "40"), ("all", "255"), ("all", "256"), ("all", "-1"), ("all", ""), ("all", "ALL"), ("all", "1.0"), ("all", "0x1"), ("81", "all"), ("0", "all"), ("255", "all"), ("256", "all"), ("", "all"), ("al", "all"), ("36", "all"), ("1", "21"), ("35", "17")] {
            v.push(vec!["bam", w, t, s]);
        }
    }
    v
}
fn bad_use() -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::InvalidInput, "usage")
}
fn refer(img: &Path, a: &[&str], o: &mut Vec<u8>, files: &mut Vec<(String, Vec<u8>)>) -> std::io::Result<()> {
    let mut pos: Vec<&str> = vec![];
    let mut ty = "seq";
    let mut i = 1;
    let mut verbose = 0;
    while i < a.len() {
        match a[i] {
            "-t" | "--type" => {
                ty = a[i + 1];
                i += 1;
            }
            "--" => {}
            x if a[0] == "dir" => verbose += x.len() - 1,
            x => pos.push(x),
        }
        i += 1;
    }
    let need = match a[0] {
        "write" | "append" | "read" | "geosread" | "delete" => 1,
        "rename" | "format" => 2,
        _ => 0,
    };
    if pos.len() < need {
        return Err(bad_use());
    }
    match a[0] {
        "create" => {
            if img.exists() {
                return Err(std::io::Error::new(std::io::ErrorKind::AlreadyExists, "exists"));
            }
            let n = match img.extension().and_then(|e| e.to_str()) {
                Some("d64") => G64.size(),
                Some("d71") => G71.size(),
                Some("d81") => G81.size(),
                _ => {
                    o.extend(b"Unknown file extension.  Assuming D64...\n");
                    G64.size()
                }
            };
            std::fs::write(img, vec![0; n])
        }
        "format" => {
            let id = pt(pos[1]);
            disk::open(img, true)?.write_format(&pt(pos[0]), &id.as_bytes().into())
        }
        "write" | "append" => {
            let t = match ty {
                "seq" => FileType::SEQ,
                "prg" => FileType::PRG,
                "usr" => FileType::USR,
                _ => return Err(bad_use()),
            };
            let name = pt(pos.get(1).unwrap_or(&pos[0]));
            let data = input(pos[0])?;
            let mut d = disk::open(img, true)?;
            let f = if a[0] == "write" { d.create_file(&name, t, LScheme::Linear)? } else { d.open_file(&name)? };
            let mut w = f.writer()?;
            w.write_all(&data)?;
            w.flush()
        }
        "read" => {
            let d = disk::open(img, false)?;
            let mut r = d.open_file(&pt(pos[0]))?.reader()?;
            let mut v = vec![];
            r.read_to_end(&mut v)?;
            deliver(v, pos.get(1).unwrap_or(&pos[0]), o, files)
        }
        "geosread" => {
            let d = disk::open(img, false)?;
            let mut v = vec![];
            match d.open_file(&pt(pos[0]))? {
                File::GEOSVLIR(f) | File::GEOSSequential(f) => f.reader()?.read_to_end(&mut v)?,
                _ => return Err(bad_use()),
            };
            deliver(v, pos.get(1).unwrap_or(&pos[0]), o, files)
        }
        "rename" => disk::open(img, true)?.rename(&pt(pos[0]), &pt(pos[1])),
        "delete" => disk::open(img, true)?.open_file(&pt(pos[0]))?.delete(),
        "dir" => {
            let d = disk::open(img, false)?;
            writeln!(o, "{}", d)?;
            for e in d.iter() {
                let e = e?;
                if verbose == 0 {
                    writeln!(o, "{}", e)?;
                } else {
                    writeln!(o, "{:#}", e)?;
                }
                if verbose > 1 {
                    d.open_file(&e.filename)?.details(o, verbose - 2)?;
                    writeln!(o)?;
                }
            }
            writeln!(o, "{} blocks free.", d.blocks_free()?)
        }
        "dump" => {
            let mut d = disk::open(img, false)?;
            match pos.first() {
                None => d.dump(o),
                Some(n) => d.open_file(&pt(n))?.dump(o),
            }
        }
        "validate" => {
            let d = disk::open(img, false)?;
            let l = d.validate()?;
            for e in &l {
                writeln!(o, "{}", e)?;
            }
            if l.is_empty() {
                writeln!(o, "Disk validates successfully.")
            } else {
                Err(bad_use())
            }
        }
        "bam" => {
            let num = |s: &str, lo: u8, hi: u8| -> std::io::Result<Option<u8>> {
                match s {
                    "all" => Ok(None),
                    s => match s.parse::<u8>() {
                        Ok(n) if n >= lo && n <= hi => Ok(Some(n)),
                        _ => Err(bad_use()),
                    },
                }
            };
            if pos[0] == "show" {
                let d = disk::open(img, false)?;
                let b = d.bam()?;
                write!(o, "{:?}", b.borrow())?;
                return Ok(());
            }
            let (t, s) = (num(pos[1], 1, 80)?, num(pos[2], 0, 39)?);
            {
                // an unreadable disk cannot be edited
                let d = disk::open(img, false)?;
                let _ = d.bam()?;
            }
            // the allocation map is edited in the raw image
            let bytes = std::fs::read(img)?;
            let g = *ALL_GEOS.iter().find(|g| g.size() == bytes.len()).ok_or_else(bad_use)?;
            let mut r = Raw { g, d: bytes };
            let (lo, hi) = match t {
                Some(t) if t > g.dos_tracks() => return Err(DiskError::InvalidLocation.into()),
                Some(t) => (t, t),
                None => (1, g.dos_tracks()),
            };
            for t in lo..=hi {
                match s {
                    Some(s) if s < g.spt(t) => r.set_free(t, s, pos[0] == "free"),
                    Some(_) if lo < hi => {}
                    Some(_) => return Err(DiskError::InvalidLocation.into()),
                    None => {
                        for s in 0..g.spt(t) {
                            r.set_free(t, s, pos[0] == "free");
                        }
                    }
                }
            }
            std::fs::write(img, &r.d)
        }
        _ => panic!("command {}", a[0]),
    }
}

struct Place {
    s: Scratch,
    cli: String,
}
impl Place {
    fn new() -> Place {
        let cli = std::env::var("MC_CLI").unwrap_or_else(|_| {
            eprintln!("MC_CLI is not set");
            std::process::exit(2)
        });
        let s = Scratch::new("c20");
        std::fs::create_dir_all(s.path("ref")).unwrap();
        Place { s, cli }
    }
    /// Run one command; `image` None: there is no image file.
    fn run(&self, name: &str, image: Option<&[u8]>, a: &[&str], uid: Option<u32>) -> Result<(Out, String, Option<Vec<u8>>), String> {
        let w = self.s.path("work");
        let _ = std::fs::remove_dir_all(&w);
        std::fs::create_dir_all(&w).unwrap();
        let img = w.join(name);
        if let Some(b) = image {
            std::fs::write(&img, b).unwrap();
        }
        for (n, _) in SOURCES.iter().chain(LARGE.iter().filter(|s| a.contains(&s.0))) {
            std::fs::write(w.join(n), source(n).unwrap()).unwrap();
        }
        let mut c = Command::new(&self.cli);
        c.arg(name).args(a).current_dir(&w).env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if let Some(u) = uid {
            use std::os::unix::fs::PermissionsExt;
            let mode = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
            mode(&img, 0o444);
            for (n, _) in SOURCES {
                mode(&w.join(n), 0o666);
            }
            mode(&w, 0o777);
            mode(&self.s.0, 0o755);
            c.uid(u).gid(u);
        }
        // a tool that writes or computes without end must not take the sandbox with it
        unsafe {
            c.pre_exec(|| {
                for (what, max) in [(libc::RLIMIT_FSIZE, 64u64 << 20), (libc::RLIMIT_AS, 2 << 30)] {
                    let r = libc::rlimit { rlim_cur: max, rlim_max: max };
                    libc::setrlimit(what, &r);
                }
                Ok(())
            });
        }
        let mut ch = c.spawn().map_err(|e| format!("harness: cannot run the tool: {}", e))?;
        let mut si = ch.stdin.take().unwrap();
        if a.contains(&"-") && (a[0] == "write" || a[0] == "append") {
            let _ = si.write_all(&content(555, STDIN));
        }
        drop(si);
        // never wait for ever
        let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        let t1 = std::thread::spawn(move || { let mut v = vec![]; let _ = (&mut so).take(64 << 20).read_to_end(&mut v); v });
        let t2 = std::thread::spawn(move || { let mut v = vec![]; let _ = (&mut se).take(64 << 20).read_to_end(&mut v); v });
        let start = std::time::Instant::now();
        let st = loop {
            match ch.try_wait().map_err(|e| e.to_string())? {
                Some(s) => break s,
                None if start.elapsed().as_secs() > 20 => {
                    let _ = ch.kill();
                    return Err("does not end within 20 s".into());
                }
                None => std::thread::sleep(std::time::Duration::from_micros(200)),
            }
        };
        let (stdout, stderr) = (t1.join().unwrap(), String::from_utf8_lossy(&t2.join().unwrap()).to_string());
        if st.code().is_none() || st.code() == Some(101) || stderr.contains("panicked at") {
            return Err(format!("crashes ({}): {}", st, stderr.trim()));
        }
        let mut files = vec![];
        for e in std::fs::read_dir(&w).unwrap() {
            let n = e.unwrap().file_name().to_string_lossy().to_string();
            if n != name {
                let b = std::fs::read(w.join(&n)).unwrap_or_default();
                match source(&n) {
                    Some(x) if x == b => {}
                    _ => files.push((n, b)),
                }
            }
        }
        files.sort();
        Ok((Out { ok: st.code() == Some(0), stdout, files }, stderr, std::fs::read(&img).ok()))
    }
    fn expect(&self, name: &str, image: Option<&[u8]>, a: &[&str]) -> (Out, Option<Vec<u8>>) {
        let img = self.s.path("ref").join(name);
        let _ = std::fs::remove_file(&img);
        if let Some(b) = image {
            std::fs::write(&img, b).unwrap();
        }
        let o = reference(&img, a);
        (o, std::fs::read(&img).ok())
    }
}
fn inspecting(a: &[&str]) -> bool {
    matches!(a[0], "read" | "geosread" | "dir" | "dump" | "validate") || a[0] == "bam" && a[1] == "show"
}
/// Run one command in the tool and by the library; returns the next image.
fn step(pl: &Place, name: &str, image: Option<&[u8]>, a: &[&str], cov: &mut Cov) -> Result<Option<Vec<u8>>, String> {
    cov.step();
    let (got, stderr, after) = pl.run(name, image, a, None)?;
    let (want, wafter) = pl.expect(name, image, a);
    cov.outcome(&format!("{} {}", a[0], if got.ok { "ok" } else { "fails" }));
    if got.ok != want.ok {
        return Err(format!("{} (the disk operation {}): {}", if got.ok { "reports success" } else { "fails" }, if want.ok { "succeeds" } else { "fails" }, stderr.trim()));
    }
    if !got.ok && stderr.trim().is_empty() {
        return Err("fails without an error message".into());
    }
    if after != wafter {
        let x = match (&after, &wafter) {
            (Some(x), Some(y)) if x.len() == y.len() => {
                let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap();
                format!("first difference in block {} byte {:#x}", i / 256, i % 256)
            }
            (x, y) => format!("{:?} bytes instead of {:?}", x.as_ref().map(|v| v.len()), y.as_ref().map(|v| v.len())),
        };
        return Err(format!("the image differs from what the disk operation leaves: {}", x));
    }
    if (inspecting(a) || !got.ok && !matches!(a[0], "write" | "append")) && after.as_deref() != image {
        return Err("the image changed".into());
    }
    // a file that cannot be opened delivers nothing, and nothing is overwritten for it
    if !got.ok && matches!(a[0], "read" | "geosread") && !got.files.is_empty() {
        let n = a[1];
        let src = pl.s.path("ref").join(name);
        let opens = disk::open(&src, false).and_then(|d| d.open_file(&pt(n))).and_then(|f| match f {
            File::GEOSVLIR(g) | File::GEOSSequential(g) if a[0] == "geosread" => g.reader().map(|_| ()),
            f if a[0] == "read" => f.reader().map(|_| ()),
            _ => Err(bad_use()),
        });
        if opens.is_err() {
            return Err(format!("fails, but writes to {:?}", got.files[0].0));
        }
    }
    // what is delivered before a failure is not judged, except for the reports of validate
    if got.ok || a[0] == "validate" {
        let (mut got, mut want) = (got, want);
        if a[0] == "validate" {
            // reports come in no particular order
            for o in [&mut got, &mut want] {
                let mut l: Vec<&[u8]> = o.stdout.split(|b| *b == b'\n').collect();
                l.sort();
                o.stdout = l.join(&b'\n');
            }
        }
        if got.stdout != want.stdout {
            let i = got.stdout.iter().zip(&want.stdout).position(|(p, q)| p != q).unwrap_or(got.stdout.len().min(want.stdout.len()));
            let at = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 40).min(v.len())]).to_string();
            return Err(format!("output differs at byte {}: {:?} instead of {:?}", i, at(&got.stdout), at(&want.stdout)));
        }
        if got.files != want.files {
            return Err(format!("files written: {:?} instead of {:?}", got.files.iter().map(|f| (&f.0, f.1.len())).collect::<Vec<_>>(), want.files.iter().map(|f| (&f.0, f.1.len())).collect::<Vec<_>>()));
        }
    }
    Ok(after)
}
fn independent(g: Geo, before: &[u8], after: &[u8], a: &[&str]) -> R {
    // spot checks that do not go through the library at all
    let (b, r) = (Raw { g, d: before.to_vec() }, Raw { g, d: after.to_vec() });
    let name = |s: &str| s.to_uppercase().into_bytes();
    if a[0] != "format" && !b.problems().is_empty() {
        return Ok(()); // used blocks were marked free by hand: anything may be overwritten
    }
    if a.iter().any(|x| x.bytes().any(|c| !c.is_ascii() || c.is_ascii_uppercase())) {
        return Ok(()); // (upper-casing is the whole conversion for plain lower-case ASCII only)
    }
    match a[0] {
        "write" if a.last() != Some(&"rel") => {
            let n = a[a.len() - 1];
            let src = a.iter().find(|x| x.starts_with('s') && source(x).is_some() || **x == "-").ok_or("harness")?;
            let e = r.find(&name(n)).ok_or_else(|| format!("the image has no file {:?}", n))?;
            if r.chain_data(e.start()).ok() != input(src).ok() {
                return Err(format!("file {:?} does not hold its data", n));
            }
            let want = if a.contains(&"prg") { 2 } else if a.contains(&"usr") { 3 } else { 1 };
            if e.ftype() != want {
                return Err(format!("file {:?} has type {}", n, e.ftype()));
            }
        }
        "append" if a.len() == 3 => {
            let e = r.find(&name(a[2])).ok_or("the file is gone")?;
            let old = b.chain_data(b.find(&name(a[2])).ok_or("harness")?.start()).map_err(|_| "harness")?;
            if r.chain_data(e.start()).ok() != Some([old, input(a[1]).unwrap()].concat()) {
                return Err(format!("file {:?} does not hold its data", a[2]));
            }
        }
        "rename" => {
            if r.find(&name(a[1])).is_some() || r.find(&name(a[2])).is_none() {
                return Err("the file is not renamed".into());
            }
        }
        "delete" => {
            if r.find(&name(a[1])).is_some() {
                return Err("the file is still there".into());
            }
        }
        "format" => {
            if !r.entries().map(|e| e.is_empty()).unwrap_or(false) || !r.problems().is_empty() || strip(&r.sec(g.header())[g.name_off()..g.name_off() + 16]) != name(a[1]) {
                return Err("the image is not a freshly formatted disk of that name".into());
            }
        }
        _ => {}
    }
    Ok(())
}
fn c20_roots(t: Tier) -> Vec<(&'static str, usize)> {
    t.pick(
        vec![("geos@d64", 2), ("geos@d71", 2), ("geos@d81", 2), ("free2@d64", 2), ("none@d64", 3), ("none@d81", 2), ("none@d71", 2), ("dir8@d64", 2), ("mixed@d64x40", 2), ("blank@d81", 2)],
        vec![("geos@d64", 3), ("geos@d71", 2), ("geos@d81", 2), ("free2@d64", 3), ("none@d64", 3), ("none@d81", 3), ("none@d71", 3), ("dir8@d64", 2), ("mixed@d64x40", 2), ("blank@d81", 2), ("full@d64", 2), ("mixed@d64e", 2), ("dirlast8@d64", 2), ("recycled@d71", 2)],
    )
}
fn c20_cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (r, depth) in c20_roots(t) {
        let n = commands(r.split_once('@').unwrap().1).len();
        for i in 0..n {
            v.push(format!("seq/{}/{}/{}", r, depth, i));
        }
        v.push(format!("coarse/{}/0/0", r));
    }
    for (x, _, _) in scripts() {
        v.push(format!("script/{}/0/0", x));
    }
    for x in ["missing", "short", "odd", "misuse", "directory", "unknown-extension", "damaged", "protected"] {
        v.push(format!("odd/{}/0/0", x));
    }
    v
}
fn c20_bound(t: Tier) -> String {
    format!("breadth-first over image contents: {} command lines from every image reached within n commands from {:?} (none: no image file yet); {} fixed sequences of large transfers (up to 700,000 bytes) and unusual names; images that are missing, of wrong size, directories, damaged or write-protected; command lines with missing, surplus or impossible arguments", commands("d64").len(), c20_roots(t), scripts().len())
}
fn c20(case: &str, _t: Tier, cov: &mut Cov) -> R {
    let p: Vec<&str> = case.split('/').collect();
    let pl = Place::new();
    if p[0] == "script" {
        return script(&pl, p[1], cov);
    }
    if p[0] == "odd" {
        return odd(&pl, p[1], cov);
    }
    let (kindname, gname) = p[1].split_once('@').unwrap();
    let g = Geo::by_name(gname);
    let name = format!("disk.{}", g.ext());
    let root: Option<Vec<u8>> = match kindname {
        "none" => None,
        "blank" => Some(vec![0; g.size()]),
        _ => Some(roots::root(p[1]).d),
    };
    let cmds = commands(gname);
    if p[0] == "coarse" {
        for a in coarse() {
            cov.tick(|| format!("{}: {:?}", p[1], a));
            let x = step(&pl, &name, root.as_deref(), &a, cov).map_err(|e| format!("{}: {:?}: {}", p[1], a, e))?;
            for b in [vec!["validate"], vec!["bam", "show"], vec!["dir"], vec!["write", "s700", "n"]] {
                cov.tick(|| format!("{}: {:?}, {:?}", p[1], a, b));
                step(&pl, &name, x.as_deref(), &b, cov).map_err(|e| format!("{}: {:?}, {:?}: {}", p[1], a, b, e))?;
            }
        }
        return Ok(());
    }
    let depth: usize = p[2].parse().unwrap();
    let first: usize = p[3].parse().unwrap();
    // breadth-first; the first command is fixed by the case
    let mut seen: HashSet<u64> = HashSet::new();
    let key = |x: &Option<Vec<u8>>| x.as_ref().map(|b| fp(&[b])).unwrap_or(0);
    seen.insert(key(&root));
    let mut queue: VecDeque<(Option<Vec<u8>>, Vec<usize>)> = VecDeque::new();
    queue.push_back((root.clone(), vec![]));
    while let Some((img, path)) = queue.pop_front() {
        let from = if path.is_empty() { first..first + 1 } else { 0..cmds.len() };
        for i in from {
            let a = &cmds[i];
            let desc = || format!("{}: {}", p[1], path.iter().chain([&i]).map(|i| cmds[*i].join(" ")).collect::<Vec<_>>().join("; "));
            cov.tick(desc);
            let next = step(&pl, &name, img.as_deref(), a, cov).map_err(|e| format!("{}: {}", desc(), e))?;
            if let (Some(b), Some(n)) = (&img, &next) {
                if b != n && b.len() == g.size() {
                    // partial writes (disk full) are judged by the reference only
                    let (o, _) = pl.expect(&name, Some(b), a);
                    if o.ok {
                        independent(g, b, n, a).map_err(|e| format!("{}: {}", desc(), e))?;
                    }
                }
            }
            let h = key(&next);
            cov.state(h);
            if seen.insert(h) && path.len() + 1 < depth {
                let mut q = path.clone();
                q.push(i);
                queue.push_back((next, q));
            }
        }
    }
    Ok(())
}
fn odd(pl: &Place, what: &str, cov: &mut Cov) -> R {
    let mut cmds = commands("d64");
    cmds.extend(coarse());
    let base = roots::root("geos@d64");
    match what {
        "missing" | "short" | "odd" => {
            for (name, img) in [("x.d64", None), ("x.d64", Some(vec![])), ("x.d64", Some(vec![1u8; 100])), ("x.d64", Some(vec![0; G64.size() + 1])), ("x.d81", Some(vec![0; G64.size()])), ("x", Some(base.d.clone()))] {
                let group = match &img {
                    None => "missing",
                    Some(b) if b.len() < 1000 => "short",
                    _ => "odd",
                };
                if group != what {
                    continue;
                }
                for a in &cmds {
                    cov.tick(|| format!("{} image of {:?} bytes: {}", name, img.as_ref().map(|b| b.len()), a.join(" ")));
                    step(pl, name, img.as_deref(), a, cov).map_err(|e| format!("image {} of {:?} bytes: {}: {}", name, img.as_ref().map(|b| b.len()), a.join(" "), e))?;
                    cov.state(fp(&[name.as_bytes(), a.join(" ").as_bytes()]));
                }
            }
        }
        "misuse" => {
            for a in misuse() {
                let desc = || format!("cdisk image {}", a.join(" "));
                cov.tick(desc);
                cov.step();
                let (o, err, after) = pl.run("x.d64", Some(&base.d), &a, None).map_err(|e| format!("{}: {}", desc(), e))?;
                if o.ok || err.trim().is_empty() && o.stdout.is_empty() {
                    return Err(format!("{}: not refused", desc()));
                }
                if after.as_deref() != Some(&base.d[..]) || !o.files.is_empty() {
                    return Err(format!("{}: refused, but the image or other files changed", desc()));
                }
                cov.state(fp(&[a.join(" ").as_bytes()]));
            }
        }
        "directory" => {
            for a in &cmds {
                cov.tick(|| format!("image is a directory: {}", a.join(" ")));
                cov.step();
                let (o, err, _) = pl.run(".", None, a, None).map_err(|e| format!("image is a directory: {}: {}", a.join(" "), e))?;
                if o.ok || err.trim().is_empty() {
                    return Err(format!("image is a directory: {}: no error", a.join(" ")));
                }
            }
        }
        "unknown-extension" => {
            for n in ["x.img", "x", "x.D64", "x.D71", "x.d81", "x.d71", "x.d64.bak", "x.d81.bak", "x.d71.img", "xd81", "d81", "d71", "d81.x", "d71x.img", "x.d811", "x.dd81", "my.disk.d81", "x.d81.d71", "d81 d71 d64"] {
                cov.tick(|| format!("create {}", n));
                cov.step();
                let (o, err, img) = pl.run(n, None, &["create"], None)?;
                let want = match n.rsplit_once('.').map(|x| x.1.to_lowercase()).as_deref() {
                    Some("d71") => G71.size(),
                    Some("d81") => G81.size(),
                    _ => G64.size(),
                };
                if !o.ok || img.as_ref().map(|b| b.len()) != Some(want) || img.unwrap().iter().any(|x| *x != 0) {
                    return Err(format!("create {}: not a blank image of {} bytes: {}", n, want, err));
                }
                if !o.stdout.is_empty() && matches!(n, "x.d81" | "x.d71") {
                    return Err(format!("create {}: complains about the extension", n));
                }
            }
        }
        "damaged" => {
            // every link and pointer byte of the image set to a few values: the tool reports what the library does
            for s in ["links", "dir", "side", "index"] {
                for (i, o) in crate::damage::structure(&base, s).into_iter().enumerate() {
                    if s == "dir" && ![0, 1, 2, 3, 4, 5, 21, 22, 23, 24, 30, 31].contains(&(o % 32)) || s != "links" && o % 256 > 20 && o % 32 > 4 {
                        continue;
                    }
                    for v in [0u8, 99] {
                        let mut x = base.clone();
                        if x.d[o] == v {
                            continue;
                        }
                        x.d[o] = v;
                        for a in [vec!["validate"], vec!["dir", "-vv"], vec!["read", "old", "-"], vec!["geosread", "vlir", "-"], vec!["delete", "rel"], vec!["write", "s700", "n"], vec!["append", "s700", "old"]] {
                            if (i + a[0].len()) % 2 == 0 && v == 99 {
                                continue;
                            }
                            let desc = || format!("byte {:#x} of the image set to {}: {}", o, v, a.join(" "));
                            cov.tick(desc);
                            step(pl, "x.d64", Some(&x.d), &a, cov).map_err(|e| format!("{}: {}", desc(), e))?;
                        }
                        cov.state(fp(&[&x.d]));
                    }
                }
            }
        }
        _ => {
            // a user who may read but not write the image
            for a in &cmds {
                let desc = || format!("write-protected image: {}", a.join(" "));
                cov.tick(desc);
                cov.step();
                let (got, err, after) = match pl.run("x.d64", Some(&base.d), a, Some(65534)) {
                    Err(e) if e.starts_with("harness") => {
                        cov.outcome("another user cannot be used here");
                        return Ok(());
                    }
                    x => x.map_err(|e| format!("{}: {}", desc(), e))?,
                };
                if after.as_deref() != Some(&base.d[..]) {
                    return Err(format!("{}: the image changed", desc()));
                }
                let (want, wafter) = pl.expect("x.d64", Some(&base.d), a);
                let ok = want.ok && wafter.as_deref() == Some(&base.d[..]) && inspecting(a);
                if inspecting(a) && (got.ok != ok || got.ok && got.stdout != want.stdout) {
                    return Err(format!("{}: {} instead of {}: {}", desc(), got.ok, ok, err));
                }
                if !inspecting(a) && wafter.as_deref() != Some(&base.d[..]) && (got.ok || err.trim().is_empty()) {
                    return Err(format!("{}: no error is reported", desc()));
                }
                cov.state(fp(&[a.join(" ").as_bytes()]));
            }
        }
    }
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20", level: "model_checking",
    rule: "explicit-state search whose states are image files and whose transitions are runs of the real command-line program; exit status, standard output, files written and resulting image are compared with the corresponding library calls in this process and with the independent format model",
    bound: c20_bound, cases: c20_cases, run: c20,
};
pub static PROPS: &[&Prop] = &[&C20];
