//! Word and PowerPoint files.
use super::book::{esc, RNS};
use super::cells::TEXT;
use super::common::need;
use super::pack::{core_of, is_time, text_of};
use crate::obs::{self, Parts};
use crate::{pkg, sym};
use draviavemal_openxml_office::document_2007::{Word, WordPropertiesModel};
use draviavemal_openxml_office::presentation_2007::{PowerPoint, PowerPointPropertiesModel};

fn through(slides: bool, from: Option<String>, mem: bool, to: &str) -> bool {
    if slides {
        match PowerPoint::new(from, PowerPointPropertiesModel { is_in_memory: mem }) {
            Ok(x) => x.save_as(to).is_ok(),
            Err(_) => false,
        }
    } else {
        match Word::new(from, WordPropertiesModel { is_in_memory: mem }) {
            Ok(x) => x.save_as(to).is_ok(),
            Err(_) => false,
        }
    }
}
fn read(p: &str) -> Parts {
    need(pkg::read(p).ok_or(()), "the saved file is a readable package")
}
/// a new file is a consistent package with document properties, and opens again
pub fn fresh() {
    let slides = sym::bool();
    let mem = sym::bool();
    let p = pkg::path("o.bin");
    sym::check(through(slides, None, mem, &p), "a new file can be saved");
    let a = read(&p);
    obs::consistent(&a);
    let c = core_of(&a);
    sym::check(is_time(&text_of(&c, "dcterms:created")), "a new file says when it was created");
    sym::check(is_time(&text_of(&c, "dcterms:modified")), "a file says when it was changed last");
    let q = pkg::path("p.bin");
    sym::check(through(slides, Some(p), mem, &q), "a saved file opens again");
    let b = read(&q);
    obs::consistent(&b);
    sym::check(a.len() == b.len(), "opening and saving adds and loses no part");
    sym::check(text_of(&core_of(&b), "dcterms:created") == text_of(&c, "dcterms:created"), "the time of creation is kept");
    sym::reached();
}
/// everything in an opened file is kept, its time of change is updated
pub fn opened() {
    let slides = sym::bool();
    let mem = sym::bool();
    let blob = sym::bytes(3);
    let n = sym::choose(sym::bound(2, 4));
    let t = sym::text(n, TEXT);
    let x = esc(&t);
    let (dir, main, kind) = if slides { ("ppt", "ppt/presentation.xml", "presentationml.presentation") } else { ("word", "word/document.xml", "wordprocessingml.document") };
    let ty = format!("application/vnd.openxmlformats-officedocument.{kind}.main+xml");
    let with_core = sym::bool();
    let mut parts: Parts = vec![
        (
            "[Content_Types].xml".to_string(),
            format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/><Default Extension=\"png\" ContentType=\"image/png\"/><Override PartName=\"/{main}\" ContentType=\"{ty}\"/>{}</Types>", if with_core { "<Override PartName=\"/docProps/core.xml\" ContentType=\"application/vnd.openxmlformats-package.core-properties+xml\"/>" } else { "" }).into_bytes(),
        ),
        (
            "_rels/.rels".to_string(),
            format!("<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{RNS}/officeDocument\" Target=\"{main}\"/>{}</Relationships>", if with_core { "<Relationship Id=\"rId7\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties\" Target=\"docProps/core.xml\"/>" } else { "" }).into_bytes(),
        ),
        (main.to_string(), format!("<doc>some <b>{x}</b> text<!-- c --></doc>").into_bytes()),
        (format!("{dir}/_rels/{}.rels", &main[dir.len() + 1..]), format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{RNS}/image\" Target=\"media/i.png\"/></Relationships>").into_bytes()),
        (format!("{dir}/media/i.png"), blob),
    ];
    if with_core {
        parts.push(("docProps/core.xml".to_string(), format!("<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"><dc:title>{x}</dc:title><dcterms:created xsi:type=\"dcterms:W3CDTF\">2001-02-03T04:05:06Z</dcterms:created><dcterms:modified xsi:type=\"dcterms:W3CDTF\">2002-02-03T04:05:06Z</dcterms:modified></cp:coreProperties>").into_bytes()));
    }
    // parts under names of all kinds
    let name = ["", "media/i.small.png", "media/I2.PNG", "media/data", "media/a b.png", "v1.2/i", "media/i.jpeg", "media/i.v2.gif"][sym::choose(8)];
    if !name.is_empty() {
        parts.push((format!("{dir}/{name}"), b"1".to_vec()));
        if name.ends_with("gif") {
            for x in parts.iter_mut() {
                if x.0 == "[Content_Types].xml" {
                    x.1 = String::from_utf8(x.1.clone()).unwrap().replacen("<Default", "<Default Extension=\"gif\" ContentType=\"image/gif\"/><Default", 1).into_bytes();
                }
            }
        }
        if name.ends_with("data") || name.ends_with("i") || name.ends_with("jpeg") {
            for x in parts.iter_mut() {
                if x.0 == "[Content_Types].xml" {
                    x.1 = String::from_utf8(x.1.clone()).unwrap().replace("</Types", &format!("<Override PartName=\"/{dir}/{name}\" ContentType=\"image/x-y\"/></Types")).into_bytes();
                }
            }
        }
    }
    let p = pkg::path("a.bin");
    pkg::write(&p, &parts);
    let q = pkg::path("b.bin");
    sym::check(through(slides, Some(p), mem, &q), "a valid file opens and saves");
    let b = read(&q);
    for (n, x) in &parts {
        if n == "[Content_Types].xml" || n == "_rels/.rels" || n == "docProps/core.xml" {
            continue;
        }
        sym::check(obs::part(&b, n) == Some(&x[..]), "every part of an opened file keeps every byte");
    }
    obs::consistent(&b);
    for r in obs::rels(&parts, "") {
        let k = obs::rels(&b, "").into_iter().any(|o| o.id == r.id && o.ty == r.ty && o.target == r.target);
        sym::check(k, "relationships of an opened package are kept");
    }
    if let Some(ts) = obs::doc(&b, "[Content_Types].xml") {
        sym::check(obs::content_type(&ts, main) == Some(ty), "parts of an opened package keep their content type");
        sym::check(obs::content_type(&ts, &format!("{dir}/media/i.png")).as_deref() == Some("image/png"), "parts of an opened package keep their content type");
    }
    super::pack::types_kept(&parts, &b, &[]);
    let c = core_of(&b);
    let m = text_of(&c, "dcterms:modified");
    sym::check(is_time(&m) && m != "2002-02-03T04:05:06Z", "the time of the last change is updated");
    if with_core {
        super::common::same(&text_of(&c, "dc:title"), &t, "document properties of an opened file are kept");
        super::common::same(&text_of(&c, "dcterms:created"), "2001-02-03T04:05:06Z", "the time of creation is kept");
    }
    sym::reached();
}
/// files that are no package are refused, a save that fails leaves the target as it was
pub fn failing() {
    let slides = sym::bool();
    let k = sym::choose(3);
    let q = pkg::path("b.bin");
    let old = sym::bytes(3);
    pkg::write_raw(&q, &old);
    if k == 0 {
        let p = pkg::path("a.bin");
        pkg::write_raw(&p, &sym::bytes(3));
        sym::check(!through(slides, Some(p), true, &q), "a file that is no package is refused");
    } else if k == 1 {
        sym::check(!through(slides, Some(pkg::path("none.bin")), true, &q), "a file that does not exist is refused");
    } else {
        pkg::disk_limit(Some(0));
        let r = through(slides, None, true, &q);
        pkg::disk_limit(None);
        sym::check(!r, "a save that could not write is an error");
    }
    sym::check(pkg::read_raw(&q).as_deref() == Some(&old[..]), "a save that fails leaves the target as it was");
    sym::reached();
}
