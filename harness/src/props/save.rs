//! C17: a save replaces the target whole or not at all, and never alters the source.
use super::infoset::no_drift;
use super::parts::cycle_doc;
use crate::book::Book;
use crate::docs::{self, DocSpec};
use crate::hist::*;
use crate::pkg::*;
use crate::runner::*;
use crate::synth;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    Book(History),
    Doc(DocSpec),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Copy)]
pub enum Target {
    Fresh,
    Shorter,
    Longer,
    Source,
    MissingDir,
    FileAsDir,
    Directory,
    LongName,
    Link,
    Relative,
    OddName,
    Empty,
    /// an unprivileged user, a directory without write permission
    ReadOnlyDir,
    /// an unprivileged user, an existing file without write permission
    ReadOnlyFile,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SaveCase {
    what: What,
    target: Target,
    errno: u8,
}
const ERRNO: [i32; 5] = [libc::ENOSPC, libc::EIO, libc::EACCES, libc::EDQUOT, libc::EROFS];

impl SaveCase {
    fn src_name(&self) -> &'static str {
        "src.bin"
    }
    fn has_source(&self) -> bool {
        !matches!(&self.what, What::Book(h) if matches!(h.start, Start::New))
    }
    fn source(&self) -> Option<Vec<u8>> {
        match &self.what {
            What::Doc(d) => Some(d.bytes()),
            What::Book(h) => match &h.start {
                Start::New => None,
                Start::Foreign(b) => Some(synth::bytes(&synth::build(b), &b.lay)),
                Start::File(i) => Some(fixture(*i).to_vec()),
            },
        }
    }
    fn target(&self) -> Target {
        match self.target {
            Target::Source if !self.has_source() => Target::Shorter,
            t => t,
        }
    }
    /// Path of the target relative to the work directory
    fn path(&self) -> String {
        match self.target() {
            Target::Source => self.src_name().into(),
            Target::MissingDir => "no/such/t.xlsx".into(),
            Target::FileAsDir => "other.xlsx/t.xlsx".into(),
            Target::Directory => "dir".into(),
            Target::LongName => format!("{}.xlsx", "n".repeat(300)),
            Target::OddName => "a b'ü😀%.x".into(),
            Target::ReadOnlyDir => "ro/t.xlsx".into(),
            Target::Empty => "".into(),
            _ => "t.xlsx".into(),
        }
    }
    fn setup(&self, w: &str) -> std::io::Result<()> {
        use std::os::unix::fs::PermissionsExt;
        let p = std::path::Path::new(w);
        let mode = |f: &str, m: u32| std::fs::set_permissions(p.join(f), std::fs::Permissions::from_mode(m));
        let _ = std::fs::set_permissions(p.join("ro"), std::fs::Permissions::from_mode(0o755));
        let _ = std::fs::remove_dir_all(p);
        std::fs::create_dir_all(p)?;
        mode(".", 0o755)?;
        std::fs::write(p.join("other.xlsx"), b"not to be touched")?;
        std::fs::write(p.join("t.xlsx.bak"), b"a backup of somebody")?;
        std::fs::create_dir(p.join("dir"))?;
        std::fs::write(p.join("dir/inner"), b"inner")?;
        if let Some(b) = self.source() {
            std::fs::write(p.join(self.src_name()), b)?;
            mode(self.src_name(), 0o644)?;
        }
        match self.target() {
            Target::Shorter => std::fs::write(p.join("t.xlsx"), b"old")?,
            Target::Longer | Target::Relative => std::fs::write(p.join("t.xlsx"), vec![0xA5u8; 300_000])?,
            Target::Link => {
                std::fs::write(p.join("real.xlsx"), b"behind the link")?;
                std::os::unix::fs::symlink(p.join("real.xlsx"), p.join("t.xlsx"))?
            }
            Target::ReadOnlyDir => {
                std::fs::create_dir(p.join("ro"))?;
                std::fs::write(p.join("ro/t.xlsx"), b"old")?;
                mode("ro", 0o555)?;
            }
            Target::ReadOnlyFile => {
                std::fs::write(p.join("t.xlsx"), b"old")?;
                mode("t.xlsx", 0o444)?;
                mode(".", 0o777)?;
            }
            _ => {}
        }
        Ok(())
    }
}
/// All files below a directory; a link counts with what it leads to
fn snapshot(dir: &str) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &std::path::Path, rel: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let n = format!("{}{}", rel, e.file_name().to_string_lossy());
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    m.insert(format!("{}/", n), vec![]);
                    go(&e.path(), &format!("{}/", n), m);
                } else {
                    m.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    go(std::path::Path::new(dir), "", &mut m);
    m
}

/// The helper process: opens, edits, saves
pub fn child(a: &[String]) -> i32 {
    let case: SaveCase = match std::fs::read(&a[0]).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(c) => c,
        None => return 90,
    };
    let w = &a[1];
    if std::env::set_current_dir(w).is_err() {
        return 91;
    }
    if matches!(case.target(), Target::ReadOnlyDir | Target::ReadOnlyFile) {
        unsafe {
            if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                return 92;
            }
        }
    }
    let abs = |n: &str| format!("{}/{}", w, n);
    let to = match case.target() {
        Target::Relative => case.path(),
        Target::Empty => String::new(),
        _ => abs(&case.path()),
    };
    let src = Some(abs(case.src_name())).filter(|_| case.has_source());
    quiet_panics();
    let r = guarded(|| match &case.what {
        What::Doc(d) => match cycle_doc(d.pptx, src.as_ref().unwrap(), &to) {
            Ok(()) => 0,
            Err(e) if e.starts_with("open") => 4,
            Err(_) => 3,
        },
        What::Book(h) => {
            let mut m = match &src {
                None => Model::new(),
                Some(s) => match Book::read(s).and_then(Model::load) {
                    Ok(m) => m,
                    Err(_) => return 93,
                },
            };
            let mut s = match Session::open(src.as_deref()) {
                Ok(s) => s,
                Err(_) => return 4,
            };
            for op in h.sessions.iter().flatten() {
                if s.step(&mut m, op).is_err() {
                    return 5;
                }
            }
            match s.save(&to) {
                Ok(()) => 0,
                Err(_) => 3,
            }
        }
    });
    r.unwrap_or(101)
}

struct Run {
    code: Option<i32>,
    signal: Option<i32>,
    ops: u32,
}
fn go(c: &SaveCase, ctx: &Ctx, mode: u32, nth: u32) -> Result<Run, String> {
    let h = |e: std::io::Error| format!("HARNESS: {}", e);
    let exe = std::env::current_exe().map_err(h)?;
    let shim = std::env::var("VH_SHIM").map_err(|_| "HARNESS: VH_SHIM is not set".to_string())?;
    let w = ctx.file("w");
    let count = ctx.file("count");
    let _ = std::fs::remove_file(&count);
    let case = ctx.file("case.json");
    std::fs::write(&case, serde_json::to_vec(c).unwrap()).map_err(h)?;
    let st = Command::new(exe)
        .args(["child", "save", &case, &w])
        .env("LD_PRELOAD", shim)
        .env("VH_DIR", &w)
        .env("VH_MODE", mode.to_string())
        .env("VH_NTH", nth.to_string())
        .env("VH_COUNT", &count)
        .env("VH_ERR", ERRNO[c.errno as usize % 5].to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(h)?;
    let ops = std::fs::read(&count).ok().filter(|b| b.len() >= 4).map_or(0, |b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]));
    Ok(Run { code: st.code(), signal: st.signal(), ops })
}

pub struct C17;
impl C17 {
    /// State of the directory after a run
    fn judge(c: &SaveCase, before: &BTreeMap<String, Vec<u8>>, after: &BTreeMap<String, Vec<u8>>, run: &Run, good: Option<&Pkg>) -> Result<&'static str, String> {
        let t = c.path();
        match (run.code, run.signal) {
            (Some(0 | 3 | 77), _) => {}
            (Some(4), _) => return Err("open refused".into()),
            (Some(5), _) => return Err("an edit was refused".into()),
            (Some(101), _) => return Err("saving panics".into()),
            (Some(92), _) => return Ok("skipped"),
            (x, s) => return Err(format!("HARNESS: the helper process ended with {:?} (signal {:?})", x, s)),
        }
        let code = run.code.unwrap();
        let complete = |b: &[u8]| -> Result<(), String> {
            let p = Pkg::from_bytes(b)?;
            match good {
                Some(g) => no_drift(g, &p, false, false),
                None => validate(&p, kind(c)),
            }
        };
        for (n, b) in before {
            if *n == t || (n == "real.xlsx" && c.target() == Target::Link) {
                continue;
            }
            match after.get(n) {
                None => return Err(format!("{} is gone", n)),
                Some(x) if x != b => return Err(format!("{} changed", if n == c.src_name() { "the source file" } else { n })),
                _ => {}
            }
        }
        if code != 77 {
            for n in after.keys() {
                if !before.contains_key(n) && *n != t {
                    return Err(format!("a file {} was left behind", n.chars().filter(|c| !c.is_ascii_hexdigit()).collect::<String>()));
                }
            }
        }
        let (was, is) = (before.get(&t), after.get(&t));
        match code {
            0 => {
                let b = is.ok_or("there is no file at the target")?;
                complete(b).map_err(|e| format!("the save reports success, the target is not complete: {}", e))?;
                Ok("saved")
            }
            3 => {
                if was != is {
                    return Err(format!("the save failed and the target changed from {:?} to {:?} bytes", was.map(|x| x.len()), is.map(|x| x.len())));
                }
                Ok("refused")
            }
            _ => {
                if was != is {
                    match is {
                        None => return Err("the process ended during the save and the target is gone".into()),
                        Some(b) => complete(b).map_err(|e| format!("the process ended during the save and the target is neither old nor complete: {}", e))?,
                    }
                }
                Ok("interrupted")
            }
        }
    }
}
fn kind(c: &SaveCase) -> Kind {
    match &c.what {
        What::Doc(d) => d.kind(),
        _ => Kind::Xlsx,
    }
}
impl Prop for C17 {
    type Case = SaveCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn quick(&self) -> u32 {
        45
    }
    fn patience(&self) -> u64 {
        250
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "one session on a new or synthetic workbook, document or presentation, saved to one of 14 kinds of targets (fresh, over a shorter or longer file, the source, a link, relative and odd names, missing and wrong directories, over-long and empty names, read-only directory and file as an unprivileged user), in a process of its own whose file operations are counted; then once more for every operation (create, write, rename, sync, ...) and each of five faults at it (error, half-written with errors after it, errors from there on, end of the process before and behind it); source, target and all files beside it are compared; non-trivial: at least 10 faults were injected"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["file operations go through the C library (intercepted with LD_PRELOAD); a process that is ended may leave its temporary file behind".into()]
    }
    fn strategy(&self) -> BoxedStrategy<SaveCase> {
        use Target::*;
        let w = Weights { foreign: 60, sessions: 1, ops: 3, delete: 1, handle: 0, mix: synth::Mix { sheets: (1, 3), extras: 0, parts: (0, 3), ..synth::PLAIN }, ..BASE };
        (
            prop_oneof![3 => history(w).prop_map(What::Book), 1 => docs::doc().prop_map(What::Doc)],
            proptest::sample::select(vec![Fresh, Fresh, Shorter, Longer, Longer, Source, Source, Source, MissingDir, FileAsDir, Directory, LongName, Link, Relative, OddName, Empty, ReadOnlyDir, ReadOnlyFile]),
            any::<u8>(),
        )
            .prop_map(|(what, target, errno)| SaveCase { what, target, errno })
            .boxed()
    }
    fn check(&self, c: &SaveCase, ctx: &Ctx) -> Verdict {
        let w = ctx.file("w");
        let io = |e: std::io::Error| format!("HARNESS: {}", e);
        let mut s = Seen::default();
        s.label(&format!("target: {:?}", c.target()));
        c.setup(&w).map_err(io)?;
        let before = snapshot(&w);
        let run = go(c, ctx, 0, 0)?;
        let after = snapshot(&w);
        let how = Self::judge(c, &before, &after, &run, None)?;
        s.label(how);
        let must_refuse = matches!(c.target(), Target::MissingDir | Target::FileAsDir | Target::Directory | Target::LongName | Target::Empty);
        if must_refuse && how == "saved" {
            return Err(format!("saving to {:?} reports success", c.target()));
        }
        let may_refuse = matches!(c.target(), Target::ReadOnlyDir | Target::ReadOnlyFile);
        if !must_refuse && !may_refuse && how != "saved" {
            return Err(format!("saving to {:?} is refused", c.target()));
        }
        let mut injected = 0;
        if how == "saved" && !may_refuse {
            let good = Pkg::from_bytes(&after[&c.path()])?;
            validate(&good, kind(c))?;
            for n in 1..=run.ops.min(12) {
                for mode in [1, 2, 5, 3, 4] {
                    c.setup(&w).map_err(io)?;
                    let before = snapshot(&w);
                    let run = go(c, ctx, mode, n)?;
                    let after = snapshot(&w);
                    let e = |m: String| {
                        let f = ["", "an error", "a half-written buffer", "the end of the process before", "the end of the process behind", "errors from"][mode as usize];
                        format!("target {:?}, {} at file operation {}: {}", c.target(), f, n, m)
                    };
                    let how = Self::judge(c, &before, &after, &run, Some(&good)).map_err(e)?;
                    s.label(&format!("fault {}: {}", mode, how));
                    injected += 1;
                }
            }
        }
        let _ = c.setup(&w);
        let _ = std::fs::remove_dir_all(&w);
        s.nontrivial = injected >= 10;
        Ok(s)
    }
}
