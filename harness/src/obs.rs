//! What a reader of the saved package sees, decoded independently of the library.
use crate::xml::{self, Node};
use crate::{pkg, sym};

pub type Parts = Vec<(String, Vec<u8>)>;

pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String,
    pub external: bool,
}
pub struct Sheet {
    pub name: String,
    pub state: String,
    pub sheet_id: String,
    pub path: String,
    pub root: Node,
}
pub struct Book {
    pub parts: Parts,
    pub wb_path: String,
    pub wb: Node,
    pub sheets: Vec<Sheet>,
    pub sst: Vec<String>,
    pub styles: Option<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Number,
    Bool,
    Text,
    Error,
    Date,
    Empty,
    Other,
}

pub const REL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";

pub fn part<'a>(parts: &'a Parts, name: &str) -> Option<&'a [u8]> {
    for (n, b) in parts {
        if n == name {
            return Some(b);
        }
    }
    // names of parts do not differ by case alone
    for (n, b) in parts {
        if n.eq_ignore_ascii_case(name) {
            return Some(b);
        }
    }
    None
}
pub fn doc(parts: &Parts, name: &str) -> Option<Node> {
    xml::parse(part(parts, name)?)
}
pub fn rels_path(source: &str) -> String {
    match source.rfind('/') {
        Some(i) => format!("{}/_rels/{}.rels", &source[..i], &source[i + 1..]),
        None => format!("_rels/{}.rels", source),
    }
}
/// package path of a relationship target
pub fn resolve(source: &str, target: &str) -> String {
    if let Some(t) = target.strip_prefix('/') {
        return t.to_string();
    }
    let mut dir: Vec<&str> = source.split('/').collect();
    dir.pop();
    for s in target.split('/') {
        if s == ".." {
            dir.pop();
        } else if s != "." {
            dir.push(s);
        }
    }
    dir.join("/")
}
pub fn rels(parts: &Parts, source: &str) -> Vec<Rel> {
    let mut v = Vec::new();
    if let Some(d) = doc(parts, &rels_path(source)) {
        for r in &d.kids {
            let target = r.attr("Target").unwrap_or("");
            let external = r.attr("TargetMode") == Some("External");
            v.push(Rel {
                id: r.attr("Id").unwrap_or("").to_string(),
                ty: r.attr("Type").unwrap_or("").to_string(),
                target: if external { target.to_string() } else { resolve(source, target) },
                external,
            });
        }
    }
    v
}
fn all_text(n: &Node, out: &mut String) {
    // the text of a string item: t and r/t, not phonetic runs
    for k in &n.kids {
        if k.name == "t" {
            out.push_str(&k.text);
        } else if k.name == "r" {
            all_text(k, out);
        }
    }
}
pub fn item_text(n: &Node) -> String {
    let mut s = String::new();
    all_text(n, &mut s);
    s
}

/// the workbook in a saved package; Err says what made it unreadable
pub fn book(path: &str) -> Result<Book, &'static str> {
    let parts = pkg::read(path).ok_or("the saved file is a readable package")?;
    book_of(parts)
}
pub fn book_of(parts: Parts) -> Result<Book, &'static str> {
    let mut wb_path = String::new();
    for r in rels(&parts, "") {
        if r.ty == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
            wb_path = r.target;
        }
    }
    if wb_path.is_empty() {
        return Err("the package names its workbook");
    }
    let wb = doc(&parts, &wb_path).ok_or("the workbook part is well formed")?;
    let wrels = rels(&parts, &wb_path);
    let mut sheets = Vec::new();
    if let Some(list) = wb.kid("sheets") {
        for s in &list.kids {
            let rid = s.attr("r:id").ok_or("every listed sheet names its part")?;
            let mut sp = String::new();
            for r in &wrels {
                if r.id == rid {
                    sp = r.target.clone();
                }
            }
            let root = doc(&parts, &sp).ok_or("every listed sheet has a readable part")?;
            sheets.push(Sheet {
                name: s.attr("name").ok_or("every listed sheet has a name")?.to_string(),
                state: s.attr("state").unwrap_or("visible").to_string(),
                sheet_id: s.attr("sheetId").ok_or("every listed sheet has an id")?.to_string(),
                path: sp,
                root,
            });
        }
    }
    let mut sst = Vec::new();
    let mut styles = None;
    for r in &wrels {
        if r.ty.ends_with("/sharedStrings") {
            let d = doc(&parts, &r.target).ok_or("the string table is readable")?;
            for si in &d.kids {
                if si.name == "si" {
                    sst.push(item_text(si));
                }
            }
        }
        if r.ty.ends_with("/styles") {
            styles = Some(doc(&parts, &r.target).ok_or("the style part is readable")?);
        }
    }
    Ok(Book { parts, wb_path, wb, sheets, sst, styles })
}
/// book, with the reason reported as a violation
pub fn must(path: &str) -> Option<Book> {
    match book(path) {
        Ok(b) => Some(b),
        Err(e) => {
            sym::check(false, e);
            None
        }
    }
}
impl Book {
    pub fn sheet(&self, name: &str) -> Option<&Sheet> {
        for s in &self.sheets {
            if s.name == name {
                return Some(s);
            }
        }
        None
    }
    pub fn cell<'a>(&'a self, sheet: &'a Sheet, r: &str) -> Option<&'a Node> {
        let data = sheet.root.kid("sheetData")?;
        for row in &data.kids {
            for c in &row.kids {
                if c.attr("r") == Some(r) {
                    return Some(c);
                }
            }
        }
        None
    }
    /// what the cell holds
    pub fn value(&self, c: &Node) -> (Kind, String) {
        let v = c.kid("v").map(|n| n.text.clone());
        match c.attr("t") {
            None | Some("n") => match v {
                None => (Kind::Empty, String::new()),
                Some(t) if t.is_empty() => (Kind::Empty, t),
                Some(t) => (Kind::Number, t),
            },
            Some("b") => (Kind::Bool, v.unwrap_or_default()),
            Some("e") => (Kind::Error, v.unwrap_or_default()),
            Some("str") => (Kind::Text, v.unwrap_or_default()),
            Some("inlineStr") => match c.kid("is") {
                Some(i) => (Kind::Text, item_text(i)),
                None => (Kind::Other, String::new()),
            },
            Some("s") => {
                let i = v.and_then(|t| t.parse::<usize>().ok());
                match i.and_then(|i| self.sst.get(i)) {
                    Some(t) => (Kind::Text, t.clone()),
                    None => (Kind::Other, "no such string".to_string()),
                }
            }
            Some("d") => (Kind::Date, v.unwrap_or_default()),
            Some(t) => (Kind::Other, t.to_string()),
        }
    }
    pub fn at(&self, sheet: &str, r: &str) -> (Kind, String) {
        match self.sheet(sheet) {
            None => (Kind::Other, "no sheet".to_string()),
            Some(s) => match self.cell(s, r) {
                None => (Kind::Empty, String::new()),
                Some(c) => self.value(c),
            },
        }
    }
    pub fn row<'a>(&'a self, sheet: &'a Sheet, r: &str) -> Option<&'a Node> {
        for row in &sheet.root.kid("sheetData")?.kids {
            if row.attr("r") == Some(r) {
                return Some(row);
            }
        }
        None
    }
    pub fn cells(&self, sheet: &Sheet) -> usize {
        let mut n = 0;
        if let Some(d) = sheet.root.kid("sheetData") {
            for r in &d.kids {
                n += r.all("c").len();
            }
        }
        n
    }
}
/// 1-based column of a reference such as "AB12"; 0 when there is none
pub fn col_of(r: &str) -> u32 {
    let mut n = 0u32;
    for b in r.bytes() {
        if b.is_ascii_uppercase() {
            n = n * 26 + (b - b'A') as u32 + 1;
        } else {
            break;
        }
    }
    n
}
pub fn row_of(r: &str) -> u32 {
    let i = r.bytes().take_while(|b| b.is_ascii_uppercase()).count();
    r[i..].parse::<u32>().unwrap_or(0)
}
/// whether column letters come before others
fn before(a: &str, b: &str) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
fn letters_of(r: &str) -> &str {
    &r[..r.bytes().take_while(|b| b.is_ascii_uppercase()).count()]
}
/// rows and cells appear once, in ascending order, and every cell is in its row
pub fn ordered(sheet: &Sheet) -> bool {
    let d = match sheet.root.kid("sheetData") {
        Some(d) => d,
        None => return false,
    };
    let mut last = 0;
    for row in &d.kids {
        let r = match row.attr("r") {
            Some(r) => row_of(r),
            None => return false,
        };
        if r <= last {
            return false;
        }
        last = r;
        let mut lc = "";
        for c in &row.kids {
            let cr = match c.attr("r") {
                Some(x) => x,
                None => return false,
            };
            if row_of(cr) != r || !before(lc, letters_of(cr)) {
                return false;
            }
            lc = letters_of(cr);
        }
    }
    true
}

/// content type of a part as a reader resolves it
pub fn content_type(types: &Node, name: &str) -> Option<String> {
    let pn = format!("/{}", name);
    for k in &types.kids {
        if k.name == "Override" && k.attr("PartName").map(|n| n.eq_ignore_ascii_case(&pn)) == Some(true) {
            return k.attr("ContentType").map(|s| s.to_string());
        }
    }
    let file = name.rsplit('/').next().unwrap_or(name);
    let ext = match file.rfind('.') {
        Some(i) => file[i + 1..].to_ascii_lowercase(),
        None => return None,
    };
    for k in &types.kids {
        if k.name == "Default" && k.attr("Extension").map(|e| e.to_ascii_lowercase()) == Some(ext.clone()) {
            return k.attr("ContentType").map(|s| s.to_string());
        }
    }
    None
}

/// Open packaging rules every saved package has to satisfy.
pub fn consistent(parts: &Parts) {
    let types = match doc(parts, "[Content_Types].xml") {
        Some(t) => t,
        None => {
            sym::check(false, "content types part is present and well formed");
            return;
        }
    };
    for i in 0..types.kids.len() {
        let k = &types.kids[i];
        if k.name == "Default" {
            let e = k.attr("Extension").unwrap_or("");
            sym::check(!e.is_empty() && k.attr("ContentType").unwrap_or("") != "", "default content type names an extension and a type");
            for j in 0..i {
                sym::check(types.kids[j].name != "Default" || types.kids[j].attr("Extension") != Some(e), "one default content type per extension");
            }
        } else {
            sym::check(k.name == "Override", "content types holds defaults and overrides only");
            let pn = k.attr("PartName").unwrap_or("");
            sym::check(pn.starts_with('/') && part(parts, &pn[1..]).is_some(), "content type override names an existing part");
            sym::check(k.attr("ContentType").unwrap_or("") != "", "override names a type");
            for j in 0..i {
                sym::check(types.kids[j].name != "Override" || types.kids[j].attr("PartName") != Some(pn), "one override per part");
            }
        }
    }
    for i in 0..parts.len() {
        let n = &parts[i].0;
        for j in 0..i {
            sym::check(parts[j].0.to_ascii_lowercase() != n.to_ascii_lowercase(), "part names are unique");
        }
        if n == "[Content_Types].xml" {
            continue;
        }
        if n.ends_with('/') {
            continue;
        }
        let ct = content_type(&types, n);
        sym::check(ct.is_some(), "every part has a content type");
        let ct = ct.unwrap_or_default();
        if ct.ends_with("+xml") || ct.ends_with("/xml") {
            sym::check(xml::parse(&parts[i].1).is_some(), "every XML part is well formed");
        }
        if n.ends_with(".rels") {
            sym::check(ct == "application/vnd.openxmlformats-package.relationships+xml", "relationship parts are typed as such");
            if let Some(i) = n.rfind("_rels/") {
                let src = format!("{}{}", &n[..i], &n[i + 6..n.len() - 5]);
                sym::check(src.is_empty() || part(parts, &src).is_some(), "relationship part belongs to an existing part");
                let rs = rels(parts, &src);
                for a in 0..rs.len() {
                    sym::check(!rs[a].id.is_empty() && !rs[a].ty.is_empty() && !rs[a].target.is_empty(), "relationship is complete");
                    if !rs[a].external {
                        sym::check(part(parts, &rs[a].target).is_some(), "relationship target exists");
                    }
                    for b in 0..a {
                        sym::check(rs[a].id != rs[b].id, "relationship ids are unique");
                    }
                }
            }
        }
    }
}
/// consistency of the workbook beyond the packaging rules
/// The lists of a part hold what lists of that name hold.
pub fn members_named(n: &Node) {
    let may: &[&str] = match n.name.as_str() {
        "numFmts" => &["numFmt"],
        "fonts" => &["font"],
        "fills" => &["fill"],
        "borders" => &["border"],
        "cellXfs" | "cellStyleXfs" => &["xf"],
        "cellStyles" => &["cellStyle"],
        "fill" => &["patternFill", "gradientFill"],
        "patternFill" => &["fgColor", "bgColor"],
        "cols" => &["col"],
        "sheetData" => &["row"],
        "row" => &["c", "extLst"],
        "c" => &["f", "v", "is", "extLst"],
        "sst" => &["si", "extLst"],
        "sheets" => &["sheet"],
        "bookViews" => &["workbookView"],
        "sheetViews" => &["sheetView", "extLst"],
        "hyperlinks" => &["hyperlink"],
        "mergeCells" => &["mergeCell"],
        "calcChain" => &["c", "extLst"],
        "Relationships" => &["Relationship"],
        "Types" => &["Default", "Override"],
        _ => &[],
    };
    for k in &n.kids {
        if !may.is_empty() {
            sym::check(may.contains(&k.name.as_str()), "the members of a list bear its members' name");
        }
        members_named(k);
    }
    let must: &[&str] = match n.name.as_str() {
        "col" => &["min", "max"],
        "sheetView" => &["workbookViewId"],
        "hyperlink" | "mergeCell" => &["ref"],
        "sheet" => &["name", "sheetId"],
        "Relationship" => &["Id", "Type", "Target"],
        "Default" => &["Extension", "ContentType"],
        "Override" => &["PartName", "ContentType"],
        "numFmt" => &["numFmtId", "formatCode"],
        "cellStyle" => &["xfId"],
        _ => &[],
    };
    for a in must {
        sym::check(n.attr(a).is_some(), "what a package describes has the attributes it must have");
    }
}

pub fn workbook_consistent(b: &Book) {
    if let Some(s) = &b.styles {
        members_named(s);
    }
    members_named(&b.wb);
    for s in &b.sheets {
        members_named(&s.root);
    }
    for p in [rels_path(""), rels_path(&b.wb_path)] {
        if let Some(d) = doc(&b.parts, &p) {
            members_named(&d);
        }
    }
    if let Some(d) = doc(&b.parts, "[Content_Types].xml") {
        members_named(&d);
    }
    let types = doc(&b.parts, "[Content_Types].xml");
    let wrels = rels(&b.parts, &b.wb_path);
    for i in 0..b.sheets.len() {
        let s = &b.sheets[i];
        sym::check(s.root.name == "worksheet", "sheet part holds a worksheet");
        if let Some(t) = &types {
            sym::check(
                content_type(t, &s.path).as_deref() == Some("application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"),
                "sheet part is typed as a worksheet",
            );
        }
        for j in 0..i {
            let o = &b.sheets[j];
            sym::check(o.sheet_id != s.sheet_id, "sheet ids are unique");
            sym::check(o.path != s.path, "sheets do not share a part");
            sym::check(o.name.to_lowercase() != s.name.to_lowercase(), "sheet names are unique");
        }
    }
    for v in b.wb.kid("bookViews").map(|v| &v.kids[..]).unwrap_or(&[]) {
        for a in ["activeTab", "firstSheet"] {
            if let Some(t) = v.attr(a) {
                sym::check(t.parse::<usize>().map(|t| t < b.sheets.len()).unwrap_or(false), "the tabs shown are tabs of the workbook");
            }
        }
    }
    let mut n = 0;
    for r in &wrels {
        if r.ty.ends_with("/worksheet") {
            n += 1;
        }
    }
    sym::check(n == b.sheets.len(), "no worksheet part is left without a listed sheet");
    if let Some(t) = &types {
        sym::check(
            content_type(t, &b.wb_path).as_deref() == Some("application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"),
            "workbook part is typed as a workbook",
        );
        for r in &wrels {
            let want = if r.ty.ends_with("/styles") {
                "application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml"
            } else if r.ty.ends_with("/sharedStrings") {
                "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"
            } else if r.ty.ends_with("/theme") {
                "application/vnd.openxmlformats-officedocument.theme+xml"
            } else {
                continue;
            };
            sym::check(content_type(t, &r.target).as_deref() == Some(want), "workbook's parts are typed by their relationship");
        }
    }
}
