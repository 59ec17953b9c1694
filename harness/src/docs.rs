//! Synthetic word-processing documents and presentations.
use crate::gen;
use crate::pkg::*;
use crate::synth::{self, CoreSpec, ExtraPart, Layout};
use crate::xml::esc_at;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DocSpec {
    pub pptx: bool,
    pub lay: Layout,
    pub core: Option<CoreSpec>,
    pub extra: Vec<ExtraPart>,
    pub text: String,
    pub variant: u8,
    /// a file saved by Office instead of the description
    pub fixture: bool,
}

pub fn doc() -> BoxedStrategy<DocSpec> {
    (any::<bool>(), synth::layout(), prop::option::weighted(0.8, synth::core_spec()), vec(synth::extra_part(), 0..7), gen::text(), any::<u8>(), prop::bool::weighted(0.02))
        .prop_map(|(pptx, lay, core, extra, text, variant, fixture)| DocSpec { pptx, lay, core, extra, text, variant, fixture })
        .boxed()
}

impl DocSpec {
    pub fn kind(&self) -> Kind {
        if self.pptx {
            Kind::Pptx
        } else {
            Kind::Docx
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        if self.fixture {
            return if self.pptx { include_bytes!("../fixtures/a.pptx").to_vec() } else { include_bytes!("../fixtures/a.docx").to_vec() };
        }
        let l = &self.lay;
        let mut m = synth::Made::default();
        let v = self.variant;
        let macros = v & 7 == 7;
        let (main, ct, body) = if self.pptx {
            (
                ["ppt/presentation.xml", "ppt/pres.xml", "main.xml"][l.wb_path as usize % 3],
                if macros { "application/vnd.ms-powerpoint.presentation.macroEnabled.main+xml" } else { "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml" },
                format!("<p:presentation xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\" xmlns:r=\"{}\"><p:sldIdLst><p:sldId id=\"256\" r:id=\"rId1\"/></p:sldIdLst><p:x v=\"{}\"/></p:presentation>", NS_R, esc_at(&self.text)),
            )
        } else {
            (
                ["word/document.xml", "word/doc2.xml", "document.xml"][l.wb_path as usize % 3],
                if macros { "application/vnd.ms-word.document.macroEnabled.main+xml" } else { "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml" },
                format!("<w:document xmlns:w=\"http://schemas.openxmlformats.org/wordprocessingml/2006/main\"><w:body><w:p><w:r><w:t xml:space=\"preserve\">{}</w:t></w:r>mixed <w:r/> text</w:p></w:body></w:document>", crate::xml::esc(&self.text)),
            )
        };
        let dir = main.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
        let mut ov: Vec<(String, String)> = vec![(main.into(), ct.into())];
        let mut root = synth::Rels::new(l.rid);
        root.add(&format!("{}officeDocument", OD), synth::rel("", l.abs_root, main), false);
        m.parts.insert(main.into(), synth::head(l, body));
        if let Some(c) = &self.core {
            synth::add_core(&mut m, &mut root, &mut ov, c, l);
        }
        if l.app {
            synth::add_app(&mut m, &mut root, &mut ov, l);
        }
        let mut mr = synth::Rels::new(l.rid);
        for i in 0..v % 4 {
            let (p, t, ty) = if self.pptx {
                (format!("ppt/slides/slide{}.xml", i + 1), "application/vnd.openxmlformats-officedocument.presentationml.slide+xml", "slide")
            } else {
                (format!("word/{}{}.xml", ["header", "footer", "styles"][i as usize % 3], i + 1), "application/vnd.openxmlformats-officedocument.wordprocessingml.header+xml", "header")
            };
            mr.add(&format!("{}{}", OD, ty), synth::rel(&dir, l.abs_wb, &p), false);
            ov.push((p.clone(), t.into()));
            m.parts.insert(p, synth::head(l, format!("<x xmlns=\"urn:x\"><a>{}</a>&#13; <b/>t<![CDATA[<]]></x>", i)));
        }
        if v & 16 != 0 {
            mr.add(&format!("{}hyperlink", OD), "http://example.com/?a=1&b=ü".into(), true);
        }
        if v & 32 != 0 {
            root.add("http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail", synth::rel("", l.abs_root, "docProps/thumbnail.jpeg"), false);
            ov.push(("docProps/thumbnail.jpeg".into(), "image/jpeg".into()));
            m.parts.insert("docProps/thumbnail.jpeg".into(), vec![255, 216, 0, 1, 2, v]);
        }
        let mut used_ext: BTreeMap<String, String> = BTreeMap::new();
        synth::add_extra(&mut m, &self.extra, &mut root, &mut mr, &dir, &mut ov, &mut used_ext, l);
        if !mr.v.is_empty() {
            m.parts.insert(rels_path(main), synth::head(l, mr.xml()));
        }
        m.parts.insert("_rels/.rels".into(), synth::head(l, root.xml()));
        synth::content_types(&mut m, ov, used_ext, l);
        synth::respell(&mut m, l);
        synth::bytes(&m, l)
    }
}
