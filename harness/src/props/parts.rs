//! C03, C04, C27: parts and packages.
use crate::book::*;
use crate::docs::{self, DocSpec};
use crate::hist::*;
use crate::pkg::*;
use crate::runner::*;
use crate::synth;
use crate::xml;
use draviavemal_openxml_office::{document_2007::Word, presentation_2007::PowerPoint};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum PkgCase {
    Book(History),
    Doc(DocSpec, u8),
}

pub const CORE_REL: &str = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties";

pub fn cycle_doc(pptx: bool, src: &str, out: &str) -> Result<(), String> {
    if pptx {
        let d = PowerPoint::new(Some(src.into()), PowerPoint::default()).map_err(|e| format!("open refused: {:?}", e))?;
        d.save_as(out).map_err(|e| format!("save refused: {:?}", e))
    } else {
        let d = Word::new(Some(src.into()), Word::default()).map_err(|e| format!("open refused: {:?}", e))?;
        d.save_as(out).map_err(|e| format!("save refused: {:?}", e))
    }
}
pub fn core_part(p: &Pkg) -> Result<Option<String>, String> {
    Ok(p.rels_of("")?.iter().find(|r| r.typ == CORE_REL).map(|r| p.to("", &r.target)))
}
fn rels_key(p: &Pkg, v: &[Rel], source: &str) -> BTreeSet<(String, String, String, bool)> {
    v.iter().map(|r| (r.id.clone(), r.typ.clone(), if r.external { r.target.clone() } else { p.to(source, &r.target) }, r.external)).collect()
}

/// What may differ between the source and the saved package
pub struct Pass {
    /// rewritten, must still be there
    pub rewritten: BTreeSet<String>,
    /// may be gone, with their relationship parts
    pub gone: BTreeSet<String>,
    /// gone or rewritten
    pub may_go: BTreeSet<String>,
}
/// Every part that the session has no reason to rewrite is byte-identical
pub fn passthrough(a: &Pkg, b: &Pkg, pass: &Pass) -> Result<(), String> {
    for (n, bytes) in &a.parts {
        if pass.gone.contains(n) {
            continue;
        }
        let got = match b.parts.get(n) {
            None if pass.may_go.contains(n) => continue,
            None => return Err(format!("part {} is gone", n)),
            Some(g) => g,
        };
        if a.ctype(n) != b.ctype(n) {
            return Err(format!("part {} had content type {:?} and has {:?}", n, a.ctype(n), b.ctype(n)));
        }
        if pass.rewritten.contains(n) || pass.may_go.contains(n) {
            continue;
        }
        if bytes != got {
            let i = bytes.iter().zip(got).take_while(|(x, y)| x == y).count();
            return Err(format!("part {} changed: {} bytes became {}, first difference at {}", n, bytes.len(), got.len(), i));
        }
    }
    Ok(())
}
/// Parts that the library creates where they are missing
const OWN: [&str; 6] = ["worksheet+xml", "sharedStrings+xml", "styles+xml", "theme+xml", "calcChain+xml", "core-properties+xml"];

pub fn book_pass(m: &Model, start: &Book) -> Result<Pass, String> {
    let p = &start.pkg;
    let mut pass = Pass { rewritten: BTreeSet::new(), gone: BTreeSet::new(), may_go: BTreeSet::new() };
    let both = |s: &mut BTreeSet<String>, n: &str| {
        s.insert(n.to_string());
        s.insert(p.real(&rels_path(n)));
    };
    pass.rewritten.insert(p.real("_rels/.rels"));
    both(&mut pass.rewritten, &start.wb_part);
    if let Some(c) = core_part(p)? {
        pass.rewritten.insert(c);
    }
    for r in p.rels_of(&start.wb_part)? {
        let t = p.to(&start.wb_part, &r.target);
        match r.typ.strip_prefix(OD) {
            Some("theme") | Some("styles") => {
                pass.rewritten.insert(t);
            }
            Some("sharedStrings") | Some("calcChain") => {
                pass.may_go.insert(t);
            }
            _ => {}
        }
    }
    for s in &m.sheets {
        if let (Some(o), true) = (&s.orig, s.opened) {
            both(&mut pass.rewritten, &o.part);
        }
    }
    for s in &m.deleted {
        if let Some(o) = &s.orig {
            both(&mut pass.gone, &o.part);
        }
    }
    Ok(pass)
}
/// Parts in the saved file that the source does not have
pub fn book_new_parts(a: &Pkg, b: &Pkg) -> Result<(), String> {
    for n in b.parts.keys() {
        if a.parts.contains_key(n) {
            continue;
        }
        let probe = match rels_source(n) {
            Some(s) if n.ends_with(".rels") => s,
            _ => n.clone(),
        };
        let t = b.ctype(&probe).unwrap_or("");
        if !OWN.iter().any(|x| t.ends_with(x)) && !t.ends_with("main+xml") {
            return Err(format!("part {} ({}) appeared", n, t));
        }
    }
    Ok(())
}

pub fn canon_rels(p: &Pkg, source: &str) -> Result<BTreeSet<(String, String, String, bool)>, String> {
    Ok(rels_key(p, &p.rels_of(source)?, source))
}

/// docx / pptx: source against saved
pub fn doc_same(a: &Pkg, b: &Pkg) -> Result<(), String> {
    let core = core_part(a)?;
    let mut pass = Pass { rewritten: BTreeSet::new(), gone: BTreeSet::new(), may_go: BTreeSet::new() };
    pass.rewritten.insert(a.real("_rels/.rels"));
    if let Some(c) = &core {
        pass.rewritten.insert(c.clone());
    }
    passthrough(a, b, &pass)?;
    let (ra, rb) = (canon_rels(a, "")?, canon_rels(b, "")?);
    for r in &ra {
        if !rb.contains(r) {
            return Err(format!("root relationship {:?} became {:?}", r, rb.iter().find(|x| x.0 == r.0)));
        }
    }
    for r in &rb {
        if !ra.contains(r) && !(core.is_none() && r.1 == CORE_REL) {
            return Err(format!("root relationship {:?} appeared", r));
        }
    }
    let ncore = core_part(b)?;
    for n in b.parts.keys() {
        if !a.parts.contains_key(n) && !(core.is_none() && Some(n) == ncore.as_ref()) {
            return Err(format!("part {} appeared", n));
        }
    }
    if let Some(c) = &core {
        core_same(&a.xml(c)?, &b.xml(c)?)?;
    }
    Ok(())
}
/// Core properties equal apart from the two timestamps
pub fn core_same(a: &xml::El, b: &xml::El) -> Result<(), String> {
    let strip = |e: &xml::El| {
        let mut e = e.canon();
        e.kids.retain(|k| !matches!(k, xml::Node::El(x) if x.local == "created" || x.local == "modified"));
        e
    };
    match xml::diff(&strip(a), &strip(b)) {
        None => Ok(()),
        Some(d) => Err(format!("core properties: {}", d)),
    }
}
pub fn doc_rounds(spec: &DocSpec, rounds: usize, ctx: &Ctx) -> Result<(), String> {
    let src = ctx.file("src.bin");
    let bytes = spec.bytes();
    std::fs::write(&src, &bytes).map_err(|e| format!("HARNESS: {}", e))?;
    let a = Pkg::read(&src).map_err(|e| format!("HARNESS: {}", e))?;
    validate(&a, spec.kind()).map_err(|e| format!("HARNESS: {}", e))?;
    let mut prev = a;
    let mut from = src.clone();
    for i in 0..rounds {
        let out = ctx.file(&format!("d{}", i));
        let e = |m: String| format!("round {}: {}", i, m);
        cycle_doc(spec.pptx, &from, &out).map_err(e)?;
        let b = Pkg::read(&out).map_err(e)?;
        validate(&b, spec.kind()).map_err(e)?;
        doc_same(&prev, &b).map_err(e)?;
        prev = b;
        from = out;
    }
    if std::fs::read(&src).ok() != Some(bytes) {
        return Err("the source file changed".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

pub struct C03;
impl Prop for C03 {
    type Case = PkgCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn quick(&self) -> u32 {
        740
    }
    fn rule(&self) -> &'static str {
        "histories on synthetic workbooks with up to 6 further parts (random bytes, names, directories, extensions, content types, related or not), drawings, tables, comments and macros, and on synthetic documents and presentations; every part the sessions have no reason to rewrite must be byte-identical with the same content type after each save; non-trivial: at least 3 parts had to stay byte-identical"
    }
    fn strategy(&self) -> BoxedStrategy<PkgCase> {
        let w = Weights { foreign: 100, sessions: 2, ops: 4, mix: synth::Mix { sheets: (1, 5), extras: 2, parts: (0, 6), ..synth::PLAIN }, sheet: 4, add: 2, delete: 1, rename: 1, window: 1, style: 1, handle: 0, edits: 2, ..BASE };
        prop_oneof![
            4 => history(w).prop_map(PkgCase::Book),
            1 => (docs::doc(), Just(2u8)).prop_map(|(d, n)| PkgCase::Doc(d, n)),
        ]
        .boxed()
    }
    fn check(&self, case: &PkgCase, ctx: &Ctx) -> Verdict {
        let mut s = Seen::default();
        match case {
            PkgCase::Doc(d, n) => {
                doc_rounds(d, *n as usize, ctx)?;
                s.label(if d.pptx { "presentation" } else { "document" });
                s.nontrivial = d.extra.len() >= 2;
            }
            PkgCase::Book(h) => {
                let m = run(h, ctx, 0, |m, b, _, _| {
                    let st = m.start.as_ref().unwrap();
                    passthrough(&st.pkg, &b.pkg, &book_pass(m, st)?)?;
                    book_new_parts(&st.pkg, &b.pkg)
                })?;
                super::hp::labels(h, &m, &mut s);
                let st = m.start.as_ref().unwrap();
                let p = book_pass(&m, st)?;
                let n = st.pkg.parts.keys().filter(|n| !p.rewritten.contains(*n) && !p.gone.contains(*n) && !p.may_go.contains(*n)).count();
                s.nontrivial = n >= 3;
            }
        }
        Ok(s)
    }
}

// ------------------------------------------------------------------ C04

pub struct C04;
impl Prop for C04 {
    type Case = PkgCase;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn quick(&self) -> u32 {
        760
    }
    fn rule(&self) -> &'static str {
        "histories with every kind of operation on new and synthetic workbooks, and open-save rounds of synthetic documents and presentations; each saved file is checked by an own package reader (unique entries, well-formed parts, one content type per part, relationship ids and targets, main part, sheet list, leftovers of deleted sheets) and opened again; non-trivial: at least 3 operations took effect, or a document with at least 2 further parts"
    }
    fn strategy(&self) -> BoxedStrategy<PkgCase> {
        let w = Weights { foreign: 60, sessions: 3, ops: 8, mix: synth::Mix { sheets: (1, 4), extras: 2, parts: (0, 4), ..synth::PLAIN }, sheet: 4, add: 4, delete: 4, rename: 2, window: 2, style: 2, handle: 2, bad: 1, edits: 2, ..BASE };
        prop_oneof![
            6 => history(w).prop_map(PkgCase::Book),
            1 => (docs::doc(), 1u8..3).prop_map(|(d, n)| PkgCase::Doc(d, n)),
        ]
        .boxed()
    }
    fn check(&self, case: &PkgCase, ctx: &Ctx) -> Verdict {
        let mut s = Seen::default();
        match case {
            PkgCase::Doc(d, n) => {
                doc_rounds(d, *n as usize, ctx)?;
                s.label(if d.pptx { "presentation" } else { "document" });
                s.nontrivial = d.extra.len() >= 2;
            }
            PkgCase::Book(h) => {
                let m = run(h, ctx, OPC, |m, b, _, _| {
                    // nothing of a deleted sheet: its part, its relationships
                    for d in &m.deleted {
                        if let Some(o) = &d.orig {
                            let reused = b.sheets.iter().any(|x| x.part == o.part);
                            if !reused && (b.pkg.parts.contains_key(&o.part) || b.pkg.parts.contains_key(&rels_path(&o.part))) {
                                return Err(format!("part {} of deleted sheet {:?} is still there", o.part, d.name));
                            }
                        }
                    }
                    // sheets stay on their parts
                    for x in &m.sheets {
                        if let Some(o) = &x.orig {
                            let r = b.sheet_ref(&x.name)?;
                            if r.part != o.part {
                                return Err(format!("sheet {:?} moved from {} to {}", x.name, o.part, r.part));
                            }
                        }
                    }
                    Ok(())
                })?;
                super::hp::labels(h, &m, &mut s);
                s.nontrivial = m.ops.values().sum::<u32>() >= 3;
                // and the last file can be opened by the library again
                let last = ctx.file(&format!("s{}.xlsx", h.sessions.len() - 1));
                let ses = Session::open(Some(&last))?;
                if ses.list()? != m.names() {
                    return Err(format!("re-opened list {:?}, expected {:?}", ses.list()?, m.names()));
                }
            }
        }
        Ok(s)
    }
}

// ------------------------------------------------------------------ C27

pub struct C27;
impl Prop for C27 {
    type Case = DocSpec;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn quick(&self) -> u32 {
        1000
    }
    fn rule(&self) -> &'static str {
        "synthetic documents and presentations (main part in several places, macro types, headers, slides, hyperlinks, thumbnails, up to 6 further parts of random bytes) and files saved by Office, opened and saved three times; every part, content type and relationship is compared after each round; non-trivial: at least 2 further parts"
    }
    fn strategy(&self) -> BoxedStrategy<DocSpec> {
        docs::doc()
    }
    fn check(&self, d: &DocSpec, ctx: &Ctx) -> Verdict {
        doc_rounds(d, 3, ctx)?;
        let mut s = Seen { nontrivial: d.extra.len() >= 2, labels: vec![] };
        s.label(if d.pptx { "presentation" } else { "document" });
        s.label(if d.fixture { "saved by Office" } else { "synthetic" });
        if d.core.is_none() {
            s.label("without core properties");
        }
        Ok(s)
    }
}
