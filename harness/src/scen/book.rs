//! Hand-written packages to open.
use crate::obs::Parts;

pub const MAIN: &str = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
pub const RNS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";

/// content of a package as another producer writes it; every part may be replaced
pub struct Make {
    pub content_types: String,
    pub root_rels: String,
    pub workbook: String,
    pub workbook_rels: String,
    pub sheet1: String,
    pub sst: Option<String>,
    pub styles: Option<String>,
    pub core: Option<String>,
    pub calc: Option<String>,
    pub theme: bool,
    pub extra: Vec<(String, Vec<u8>)>,
    pub extra_types: String,
    pub extra_wb_rels: String,
    pub extra_root_rels: String,
}
pub fn make() -> Make {
    Make {
        content_types: String::new(),
        root_rels: String::new(),
        workbook: format!(
            "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<workbook xmlns=\"{MAIN}\" xmlns:r=\"{RNS}\"><sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/></sheets></workbook>"
        ),
        workbook_rels: String::new(),
        sheet1: sheet("<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c></row></sheetData>"),
        sst: None,
        styles: None,
        core: None,
        calc: None,
        theme: true,
        extra: Vec::new(),
        extra_types: String::new(),
        extra_wb_rels: String::new(),
        extra_root_rels: String::new(),
    }
}
/// a worksheet part with this content
pub fn sheet(body: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<worksheet xmlns=\"{MAIN}\" xmlns:r=\"{RNS}\">{body}</worksheet>")
}
pub fn workbook(body: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<workbook xmlns=\"{MAIN}\" xmlns:r=\"{RNS}\">{body}</workbook>")
}
pub fn sst(body: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<sst xmlns=\"{MAIN}\">{body}</sst>")
}
/// a string table with the counts other programs write
pub fn sst_counted(n: usize, body: &str) -> String {
    sst(body).replacen("<sst ", &format!("<sst count=\"{n}\" uniqueCount=\"{n}\" "), 1)
}
pub fn styles(body: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<styleSheet xmlns=\"{MAIN}\">{body}</styleSheet>")
}
impl Make {
    pub fn parts(self) -> Parts {
        const S: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.";
        let mut v: Parts = Vec::new();
        let mut ct = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/>");
        ct.push_str(&format!("<Override PartName=\"/xl/workbook.xml\" ContentType=\"{S}sheet.main+xml\"/><Override PartName=\"/xl/worksheets/sheet1.xml\" ContentType=\"{S}worksheet+xml\"/>"));
        let mut wr = format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{RNS}/worksheet\" Target=\"worksheets/sheet1.xml\"/>");
        let mut rr = format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{RNS}/officeDocument\" Target=\"xl/workbook.xml\"/>");
        if let Some(x) = self.sst {
            ct.push_str(&format!("<Override PartName=\"/xl/sharedStrings.xml\" ContentType=\"{S}sharedStrings+xml\"/>"));
            wr.push_str(&format!("<Relationship Id=\"rId71\" Type=\"{RNS}/sharedStrings\" Target=\"sharedStrings.xml\"/>"));
            v.push(("xl/sharedStrings.xml".to_string(), x.into_bytes()));
        }
        if let Some(x) = self.styles {
            ct.push_str(&format!("<Override PartName=\"/xl/styles.xml\" ContentType=\"{S}styles+xml\"/>"));
            wr.push_str(&format!("<Relationship Id=\"rId72\" Type=\"{RNS}/styles\" Target=\"styles.xml\"/>"));
            v.push(("xl/styles.xml".to_string(), x.into_bytes()));
        }
        if let Some(x) = self.calc {
            ct.push_str(&format!("<Override PartName=\"/xl/calcChain.xml\" ContentType=\"{S}calcChain+xml\"/>"));
            wr.push_str(&format!("<Relationship Id=\"rId73\" Type=\"{RNS}/calcChain\" Target=\"calcChain.xml\"/>"));
            v.push(("xl/calcChain.xml".to_string(), x.into_bytes()));
        }
        if self.theme {
            ct.push_str("<Override PartName=\"/xl/theme/theme1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>");
            wr.push_str(&format!("<Relationship Id=\"rId74\" Type=\"{RNS}/theme\" Target=\"theme/theme1.xml\"/>"));
            v.push(("xl/theme/theme1.xml".to_string(), b"<?xml version=\"1.0\"?><a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"Mine\"><a:themeElements/></a:theme>".to_vec()));
        }
        if let Some(x) = self.core {
            ct.push_str("<Override PartName=\"/docProps/core.xml\" ContentType=\"application/vnd.openxmlformats-package.core-properties+xml\"/>");
            rr.push_str("<Relationship Id=\"rId2\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties\" Target=\"docProps/core.xml\"/>");
            v.push(("docProps/core.xml".to_string(), x.into_bytes()));
        }
        ct.push_str(&self.extra_types);
        ct.push_str("</Types>");
        wr.push_str(&self.extra_wb_rels);
        wr.push_str("</Relationships>");
        rr.push_str(&self.extra_root_rels);
        rr.push_str("</Relationships>");
        if !self.content_types.is_empty() {
            ct = self.content_types;
        }
        if !self.workbook_rels.is_empty() {
            wr = self.workbook_rels;
        }
        if !self.root_rels.is_empty() {
            rr = self.root_rels;
        }
        v.push(("[Content_Types].xml".to_string(), ct.into_bytes()));
        v.push(("_rels/.rels".to_string(), rr.into_bytes()));
        v.push(("xl/workbook.xml".to_string(), self.workbook.into_bytes()));
        v.push(("xl/_rels/workbook.xml.rels".to_string(), wr.into_bytes()));
        v.push(("xl/worksheets/sheet1.xml".to_string(), self.sheet1.into_bytes()));
        v.extend(self.extra);
        v
    }
}
/// escape for use in a hand-written part
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\n' => o.push_str("&#10;"),
            '\r' => o.push_str("&#13;"),
            '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
    o
}
