//! Whole packages: what is kept, what is consistent, what happens when something is wrong.
use super::book::{esc, make, sheet, sst, styles, workbook, Make, MAIN, RNS};
use super::cells::TEXT;
use super::common::*;
use super::sheet::TWO_STYLES;
use crate::obs::{self, Book, Kind, Parts};
use crate::xml::{self, Node};
use crate::{pkg, sym};

const S: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.";

/// something to do with an opened workbook that has the sheets Data and Other
fn edit(y: &mut Excel, k: usize) {
    match k {
        0 => {}
        1 => {
            let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
            need(ws.set_row_value_ref_mut("D4", vec![cell("new", CellDataType::ShareString)]), "write a cell");
        }
        2 => {
            let mut ws = need(y.add_sheet_mut(Some("New".to_string())), "add a sheet");
            need(ws.set_row_value_ref_mut("A1", vec![num("1")]), "write a cell");
        }
        3 => {
            let mut st = StyleSetting::default();
            st.is_bold = true;
            need(y.get_style_id_mut(st), "a style is registered");
        }
        4 => need(y.rename_sheet_name_mut("Other".to_string(), "Renamed".to_string()), "rename a sheet"),
        5 => {
            let ws = need(y.get_worksheet_mut("Other".to_string()), "a valid sheet opens");
            need(ws.delete_sheet_mut(), "delete a sheet");
        }
        6 => need(y.hide_sheet_mut("Other".to_string()), "hide a sheet"),
        7 => {
            let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
            let mut c = ColumnProperties::default();
            c.width = Some(20.0);
            need(ws.set_column_index_properties_mut(&5, Some(c)), "set a column");
            let mut r = RowProperties::default();
            r.height = Some(33.0);
            need(ws.set_row_index_properties_mut(&7, r), "set a row");
        }
        _ => need(y.hide_sheet_tabs_mut(true), "hide the tabs"),
    }
}
const EDITS: usize = 9;

/// a package with the sheets Data and Other, and parts the library knows nothing of
fn rich(data: String, blob: &[u8]) -> Make {
    let mut m = make();
    m.theme = false; // it brings its own
    m.workbook = workbook("<sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/><sheet name=\"Other\" sheetId=\"5\" r:id=\"rId50\"/></sheets>");
    m.sheet1 = data;
    m.styles = Some(styles(TWO_STYLES));
    m.sst = Some(sst("<si><t>zero</t></si>"));
    let mut add = |n: &str, b: Vec<u8>| m.extra.push((n.to_string(), b));
    add("xl/worksheets/other.xml", sheet("<sheetData/>").into_bytes());
    add("xl/theme/theme1.xml", b"<?xml version=\"1.0\"?><a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"Mine\"><a:themeElements/></a:theme>".to_vec());
    add("xl/media/image1.png", blob.to_vec());
    add("xl/drawings/drawing1.xml", b"<xdr:wsDr xmlns:xdr=\"http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing\"/>".to_vec());
    add("xl/drawings/_rels/drawing1.xml.rels", format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{RNS}/image\" Target=\"../media/image1.png\"/></Relationships>").into_bytes());
    add("xl/worksheets/_rels/sheet1.xml.rels", format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId9\" Type=\"{RNS}/drawing\" Target=\"../drawings/drawing1.xml\"/><Relationship Id=\"rId3\" Type=\"{RNS}/hyperlink\" Target=\"http://example.org/?a=1&amp;b=2\" TargetMode=\"External\"/><Relationship Id=\"rId4\" Type=\"{RNS}/printerSettings\" Target=\"/xl/printerSettings/p1.bin\"/><Relationship Id=\"rId44\" Type=\"{RNS}/oleObject\" Target=\"file:///a.doc\" TargetMode=\"External\"/></Relationships>").into_bytes());
    add("xl/printerSettings/p1.bin", blob.to_vec());
    add("xl/vbaProject.bin", blob.to_vec());
    add("docProps/app.xml", b"<Properties xmlns=\"http://schemas.openxmlformats.org/officeDocument/2006/extended-properties\"><Application>Other</Application></Properties>".to_vec());
    add("customXml/item1.xml", b"<root a='1'>text <b/> more<!-- c --></root>".to_vec());
    add("xl/embeddings/", Vec::new());
    add("xl/embeddings/object", blob.to_vec());
    add("copy/xl/drawings/drawing1.xml", b"<a.b:c-d_1 xmlns:a.b=\"urn:x\"/>".to_vec());
    add("copy/xl/media/image1.png", b"other".to_vec());
    add("xl/media/Second.Image.PNG", blob.to_vec());
    m.extra_types = format!("<Default Extension=\"png\" ContentType=\"image/png\"/><Default Extension=\"bin\" ContentType=\"application/vnd.ms-office.vbaProject\"/><Override PartName=\"/xl/worksheets/other.xml\" ContentType=\"{S}worksheet+xml\"/><Override PartName=\"/xl/theme/theme1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/><Override PartName=\"/xl/drawings/drawing1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.drawing+xml\"/><Override PartName=\"/xl/printerSettings/p1.bin\" ContentType=\"{S}printerSettings\"/><Override PartName=\"/docProps/app.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.extended-properties+xml\"/><Override PartName=\"/xl/embeddings/object\" ContentType=\"application/vnd.openxmlformats-officedocument.oleObject\"/><Override PartName=\"/copy/xl/drawings/drawing1.xml\" ContentType=\"application/x-copy+xml\"/><Override PartName=\"/copy/xl/media/image1.png\" ContentType=\"image/x-copy\"/>");
    m.extra_wb_rels = format!("<Relationship Id=\"rId50\" Type=\"{RNS}/worksheet\" Target=\"worksheets/other.xml\"/><Relationship Id=\"rId6\" Type=\"{RNS}/theme\" Target=\"theme/theme1.xml\"/><Relationship Id=\"rId7\" Type=\"http://schemas.microsoft.com/office/2006/relationships/vbaProject\" Target=\"vbaProject.bin\"/><Relationship Id=\"rId8\" Type=\"{RNS}/customXml\" Target=\"../customXml/item1.xml\"/><Relationship Id=\"rId10\" Type=\"{RNS}/externalLink\" Target=\"file:///C:/a%20b.xlsx\" TargetMode=\"External\"/><Relationship Id=\"rId11\" Type=\"{RNS}/oleObject\" Target=\"embeddings/object\"/><Relationship Id=\"rId12\" Type=\"urn:x\" Target=\"../copy/xl/drawings/drawing1.xml\"/>");
    m.extra_root_rels = format!("<Relationship Id=\"rId3\" Type=\"{RNS}/extended-properties\" Target=\"docProps/app.xml\"/>");
    m
}
/// parts that no operation is about keep every byte, type and relationship
pub fn untouched() {
    let blob = sym::bytes(sym::bound(3, 6));
    let e = sym::choose(EDITS);
    let f = sym::choose(EDITS);
    sym::assume(f == 0 || (f > e && !(e == 4 && f > 4) && !(e == 5 && f == 6)));
    let p = pkg::path("a.xlsx");
    let before = rich(sheet("<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c></row></sheetData><drawing r:id=\"rId9\"/>"), &blob).parts();
    pkg::write(&p, &before);
    let mut y = open(&p, "a valid workbook opens");
    edit(&mut y, e);
    if f > 0 {
        edit(&mut y, f);
    }
    let b = save(y, "b.xlsx");
    for n in ["xl/media/image1.png", "xl/printerSettings/p1.bin", "xl/vbaProject.bin", "docProps/app.xml", "customXml/item1.xml", "xl/drawings/drawing1.xml", "xl/theme/theme1.xml", "xl/embeddings/object", "copy/xl/drawings/drawing1.xml", "copy/xl/media/image1.png", "xl/media/Second.Image.PNG"] {
        if n == "xl/theme/theme1.xml" {
            sym::check(obs::doc(&b.parts, n) == obs::doc(&before, n), "the theme of an opened workbook is kept");
        } else {
            sym::check(obs::part(&b.parts, n) == obs::part(&before, n), "parts the library does not know keep every byte");
        }
    }
    rels_kept(&before, &b.parts, "xl/drawings/drawing1.xml", &[]);
    rels_kept(&before, &b.parts, "xl/worksheets/sheet1.xml", &[]);
    rels_kept(&before, &b.parts, "", &[]);
    rels_kept(&before, &b.parts, "xl/workbook.xml", if e == 5 || f == 5 { &["rId50"] } else { &[] });
    types_kept(&before, &b.parts, if e == 5 || f == 5 { &["xl/worksheets/other.xml"] } else { &[] });
    obs::consistent(&b.parts);
    obs::workbook_consistent(&b);
    sym::reached();
}
pub fn rels_kept(a: &Parts, b: &Parts, source: &str, but: &[&str]) {
    let now = obs::rels(b, source);
    for r in obs::rels(a, source) {
        if but.contains(&r.id.as_str()) {
            continue;
        }
        let n = now.iter().find(|n| n.id == r.id);
        sym::check(n.map(|n| n.ty == r.ty && n.target == r.target && n.external == r.external).unwrap_or(false), "relationships of an opened package are kept");
    }
}
pub fn types_kept(a: &Parts, b: &Parts, but: &[&str]) {
    let (ta, tb) = match (obs::doc(a, "[Content_Types].xml"), obs::doc(b, "[Content_Types].xml")) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            sym::check(false, "content types part is present and well formed");
            return;
        }
    };
    for (n, _) in a {
        if n != "[Content_Types].xml" && !but.contains(&n.as_str()) {
            sym::check(obs::content_type(&ta, n) == obs::content_type(&tb, n), "parts of an opened package keep their content type");
        }
    }
}
pub const SHEET_ORDER: [&str; 38] = [
    "sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr", "sheetProtection", "protectedRanges", "scenarios", "autoFilter", "sortState", "dataConsolidate", "customSheetViews", "mergeCells", "phoneticPr",
    "conditionalFormatting", "dataValidations", "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter", "rowBreaks", "colBreaks", "customProperties", "cellWatches", "ignoredErrors", "smartTags", "drawing", "legacyDrawing",
    "legacyDrawingHF", "drawingHF", "picture", "oleObjects", "controls", "webPublishItems", "tableParts",
];
const BOOK_ORDER: [&str; 17] = [
    "fileVersion", "fileSharing", "workbookPr", "workbookProtection", "bookViews", "sheets", "functionGroups", "externalReferences", "definedNames", "calcPr", "oleSize", "customWorkbookViews", "pivotCaches", "smartTagPr", "smartTagTypes", "webPublishing",
    "fileRecoveryPr",
];
/// the elements of a part stand in the order its schema demands
pub fn in_order(n: &Node, order: &[&str]) {
    let mut last = 0;
    for k in &n.kids {
        let i = match order.iter().position(|o| *o == k.name) {
            Some(i) => i + 1,
            // an element of another namespace may stand between any two
            None if k.name.contains(':') || k.name == "AlternateContent" => continue,
            None => order.len() + 1,
        };
        sym::check(i >= last, "elements stand in the order the format demands");
        last = i;
    }
}
/// everything else a sheet holds survives an edit
pub fn sheet_content() {
    let n = sym::choose(sym::bound(2, 3));
    let t = sym::text(n, TEXT);
    let x = esc(&t);
    let views = "<sheetViews><sheetView tabSelected=\"1\" zoomScale=\"85\" workbookViewId=\"0\"><pane ySplit=\"1\" topLeftCell=\"A2\" activePane=\"bottomLeft\" state=\"frozen\"/><selection pane=\"bottomLeft\" activeCell=\"B3\" sqref=\"B3\"/></sheetView></sheetViews>";
    let head = format!("<sheetPr codeName=\"{x}\" filterMode=\"1\"><tabColor rgb=\"FFFF0000\"/><outlinePr summaryBelow=\"0\"/></sheetPr><dimension ref=\"A1:B2\"/>{views}<sheetFormatPr baseColWidth=\"8\" defaultRowHeight=\"15\" outlineLevelRow=\"1\"/><cols><col min=\"1\" max=\"2\" width=\"9.5\" customWidth=\"1\"/></cols>");
    let data = "<sheetData><row r=\"1\" spans=\"1:2\"><c r=\"A1\"><v>1</v></c><c r=\"B1\"><v>2</v></c></row></sheetData>";
    let tail = format!(
        "<sheetProtection sheet=\"1\" objects=\"1\"/><autoFilter ref=\"A1:B2\"><filterColumn colId=\"0\"><filters><filter val=\"{x}\"/></filters></filterColumn></autoFilter><mergeCells count=\"1\"><mergeCell ref=\"A2:B2\"/></mergeCells><phoneticPr fontId=\"1\"/>\
<conditionalFormatting sqref=\"A1\"><cfRule type=\"expression\" dxfId=\"0\" priority=\"1\"><formula>A1=\"{x}\"</formula></cfRule></conditionalFormatting><conditionalFormatting sqref=\"B1\"><cfRule type=\"cellIs\" priority=\"2\" operator=\"lessThan\"><formula>5</formula></cfRule></conditionalFormatting>\
<dataValidations count=\"1\"><dataValidation type=\"list\" allowBlank=\"1\" sqref=\"B1\"><formula1>\"a,b\"</formula1></dataValidation></dataValidations><hyperlinks><hyperlink ref=\"A1\" r:id=\"rId3\" tooltip=\"{x}\"/></hyperlinks>\
<printOptions horizontalCentered=\"1\"/><pageMargins left=\"0.7\" right=\"0.7\" top=\"0.75\" bottom=\"0.75\" header=\"0.3\" footer=\"0.3\"/><pageSetup orientation=\"landscape\" r:id=\"rId4\"/><headerFooter differentFirst=\"1\"><oddHeader>&amp;L{x}</oddHeader><oddFooter xml:space=\"preserve\"> &amp;P </oddFooter></headerFooter>\
<rowBreaks count=\"1\" manualBreakCount=\"1\"><brk id=\"1\" max=\"16383\" man=\"1\"/></rowBreaks><ignoredErrors><ignoredError sqref=\"A1\" numberStoredAsText=\"1\"/></ignoredErrors><drawing r:id=\"rId9\"/><legacyDrawing r:id=\"rId5\"/><legacyDrawingHF r:id=\"rId6\"/><mc:AlternateContent><mc:Choice Requires=\"x14\"><controls><mc:AlternateContent/></controls></mc:Choice></mc:AlternateContent><tableParts count=\"0\"/>\
<extLst><ext uri=\"{{78C0D931}}\" xmlns:x14=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\"><x14:sparklineGroups xmlns:xm=\"http://schemas.microsoft.com/office/excel/2006/main\"><x14:sparklineGroup><x14:sparklines><x14:sparkline><xm:f>Data!A1</xm:f></x14:sparkline></x14:sparklines></x14:sparklineGroup></x14:sparklineGroups></ext></extLst>"
    );
    let src = format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<worksheet xmlns=\"{MAIN}\" xmlns:r=\"{RNS}\" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" mc:Ignorable=\"x14ac\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\">{head}{data}{tail}</worksheet>");
    let before = rich(src, b"x").parts();
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &before);
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    let e = sym::choose(EDITS);
    edit(&mut y, e);
    let b = save(y, "b.xlsx");
    let (a, z) = (&first.sheets[0].root, &b.sheets[0].root);
    for k in &a.kids {
        if k.name == "dimension" || k.name == "cols" || k.name == "sheetData" {
            continue;
        }
        let now = z.all(&k.name);
        let was = a.all(&k.name);
        sym::check(now.len() == was.len(), "no element of an opened sheet is lost or doubled");
        for i in 0..now.len().min(was.len()) {
            same_node(now[i], was[i], "what else an opened sheet holds is kept");
        }
    }
    for k in &a.attrs {
        match z.attr(&k.0) {
            Some(v) => same(v, &k.1, "attributes of an opened sheet are kept"),
            None => sym::check(false, "attributes of an opened sheet are kept"),
        }
    }
    for k in &z.kids {
        sym::check(a.kid(&k.name).is_some(), "an opened sheet gains nothing it was not given");
    }
    sym::check(b.at("Data", "B1") == (Kind::Number, "2".to_string()), "cells of an opened sheet are kept");
    if e == 7 {
        let cols: Vec<_> = z.kid("cols").map(|c| c.kids.iter().map(|c| (c.attr("min").unwrap_or("").to_string(), c.attr("width").unwrap_or("").to_string())).collect()).unwrap_or_default();
        sym::check(cols == [("1".to_string(), "9.5".to_string()), ("5".to_string(), "20".to_string())], "columns of an opened sheet are kept beside new ones");
    } else {
        same_node_opt(z.kid("cols"), a.kid("cols"), "columns of an opened sheet are kept");
    }
    in_order(z, &SHEET_ORDER);
    sym::reached();
}
/// everything else a workbook part holds survives an edit
pub fn book_content() {
    let n = sym::choose(sym::bound(2, 3));
    let t = sym::text(n, TEXT);
    let x = esc(&t);
    let mut m = rich(sheet("<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c></row></sheetData>"), b"x");
    m.workbook = workbook(&format!(
        "<fileVersion appName=\"xl\" lastEdited=\"7\" rupBuild=\"{x}\"/><workbookPr date1904=\"1\" codeName=\"{x}\" defaultThemeVersion=\"166925\"/><workbookProtection lockStructure=\"1\" workbookPassword=\"CC1A\"/>\
<bookViews><workbookView xWindow=\"10\" yWindow=\"20\" windowWidth=\"300\" windowHeight=\"200\" tabRatio=\"700\" firstSheet=\"1\"/></bookViews><sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/><sheet name=\"Other\" sheetId=\"5\" state=\"veryHidden\" r:id=\"rId50\"/></sheets>\
<externalReferences><externalReference r:id=\"rId10\"/></externalReferences><definedNames><definedName name=\"n\" comment=\"{x}\">Data!$A$1</definedName><definedName name=\"_xlnm.Print_Area\" localSheetId=\"0\" hidden=\"1\">Data!$A$1:$B$2</definedName></definedNames><calcPr calcId=\"191029\" fullCalcOnLoad=\"1\"/>\
<pivotCaches><pivotCache cacheId=\"3\" r:id=\"rId8\"/></pivotCaches><extLst><ext uri=\"u\" xmlns:x15=\"http://schemas.microsoft.com/office/spreadsheetml/2010/11/main\"><x15:workbookPr chartTrackingRefBase=\"1\"/></ext></extLst>"
    ));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    let e = sym::choose(EDITS);
    edit(&mut y, e);
    let b = save(y, "b.xlsx");
    for k in &first.wb.kids {
        if k.name == "sheets" || k.name == "bookViews" {
            continue;
        }
        sym::check(b.wb.all(&k.name).len() == 1, "what else an opened workbook holds is kept");
        same_node_opt(b.wb.kid(&k.name), Some(k), "what else an opened workbook holds is kept");
    }
    let v = b.wb.kid("bookViews").and_then(|v| v.kids.first());
    for (k, w) in [("xWindow", "10"), ("yWindow", "20"), ("windowWidth", "300"), ("windowHeight", "200"), ("tabRatio", "700")] {
        sym::check(v.and_then(|v| v.attr(k)) == Some(w), "the window of an opened workbook is kept");
    }
    in_order(&b.wb, &BOOK_ORDER);
    sym::reached();
}
/// a new workbook with everything in it is a consistent package
pub fn fresh() {
    let mut x = new();
    let e = sym::choose(2);
    if e == 0 {
        need(x.add_sheet_mut(None), "add a sheet");
    }
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        if sym::bool() {
            let mut f = num("2");
            f.formula = Some("A1+1".to_string());
            need(ws.set_row_value_ref_mut("A1", vec![cell("t", CellDataType::ShareString), f, cell("i", CellDataType::InlineString)]), "write cells");
        }
        if sym::bool() {
            let mut c = ColumnProperties::default();
            c.width = Some(20.0);
            need(ws.set_column_index_properties_mut(&5, Some(c)), "set a column");
        }
    }
    if sym::bool() {
        let mut st = StyleSetting::default();
        st.is_bold = true;
        need(x.get_style_id_mut(st), "a style is registered");
    }
    if sym::bool() {
        need(x.set_active_sheet_mut("Data".to_string()), "activate a sheet");
    }
    if sym::bool() {
        need(x.hide_sheet_tabs_mut(true), "hide the tabs");
    }
    let b = save(x, "o.xlsx");
    check_package(&b);
    // and it opens again
    let y = open(&pkg::path("o.xlsx"), "a saved workbook opens again");
    let c = save(y, "p.xlsx");
    check_package(&c);
    unchanged(&b, &c);
    sym::reached();
}
fn check_package(b: &Book) {
    obs::consistent(&b.parts);
    obs::workbook_consistent(b);
    in_order(&b.wb, &BOOK_ORDER);
    for s in &b.sheets {
        in_order(&s.root, &SHEET_ORDER);
    }
    sym::check(!b.sheets.is_empty(), "a workbook has a sheet");
}
/// the same parts with the same content, but for the time of the last change
fn unchanged(a: &Book, b: &Book) {
    sym::check(a.parts.len() == b.parts.len(), "opening and saving adds and loses no part");
    for (n, bytes) in &a.parts {
        let now = obs::part(&b.parts, n);
        sym::check(now.is_some(), "opening and saving adds and loses no part");
        let now = now.unwrap_or(b"");
        let (x, y) = (xml::parse(bytes), xml::parse(now));
        if let (Some(mut x), Some(mut y)) = (x, y) {
            if x.name == "cp:coreProperties" {
                for n in [&mut x, &mut y] {
                    for k in n.kids.iter_mut() {
                        if k.name == "dcterms:modified" {
                            k.text.clear();
                        }
                    }
                }
            }
            sym::check(same_parts(&x, &y), "opening and saving changes nothing");
        } else {
            sym::check(bytes.as_slice() == now, "opening and saving changes nothing");
        }
    }
}
fn same_parts(x: &Node, y: &Node) -> bool {
    if x.name == "Relationships" || x.name == "Types" {
        // lists without order
        x.kids.len() == y.kids.len() && x.kids.iter().all(|k| y.kids.contains(k))
    } else {
        x == y
    }
}
/// opening and saving without a change in between changes nothing
pub fn idle() {
    let k = sym::choose(4);
    let mut m = rich(sheet("<dimension ref=\"A1:B2\"/><sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c></row><row r=\"2\" ht=\"20\" customHeight=\"1\"><c r=\"B2\" s=\"1\"><f>A1</f><v>5</v></c></row></sheetData><drawing r:id=\"rId9\"/>"), b"blob");
    m.core = Some(CORE.replace("TITLE", "t"));
    if k == 1 {
        m.calc = Some(format!("<?xml version=\"1.0\"?><calcChain xmlns=\"{MAIN}\"><c r=\"B2\" i=\"1\"/></calcChain>"));
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    if k >= 2 {
        // also when a sheet is only looked at
        need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
    }
    if k == 3 {
        need(y.list_sheet_names(), "sheets are listed");
        sym::check(y.get_worksheet_mut("None".to_string()).is_err(), "an unknown sheet is refused");
    }
    let b = save(y, "b.xlsx");
    kept_content(&first, &b);
    let z = open(&pkg::path("b.xlsx"), "a saved workbook opens again");
    let c = save(z, "c.xlsx");
    unchanged(&b, &c);
    sym::reached();
}
/// nothing a reader of the first file sees is missing in the second
fn kept_content(a: &Book, b: &Book) {
    for (n, bytes) in &a.parts {
        let now = obs::part(&b.parts, n);
        sym::check(now.is_some(), "opening and saving adds and loses no part");
        if n == "[Content_Types].xml" || n.ends_with(".rels") || n == "docProps/core.xml" || n == "xl/workbook.xml" || n == "xl/sharedStrings.xml" || n == "xl/styles.xml" {
            continue;
        }
        match (xml::parse(bytes), now.and_then(xml::parse)) {
            (Some(x), Some(mut y)) => {
                if n.starts_with("xl/worksheets/") && x.kid("sheetViews").is_none() {
                    // a view with every setting at its default says nothing
                    y.kids.retain(|k| !(k.name == "sheetViews" && k.kids.len() == 1 && k.kids[0].kids.is_empty() && k.kids[0].attrs.len() == 1 && k.kids[0].attr("workbookViewId") == Some("0")));
                }
                sym::check(x == y, "opening and saving changes no part")
            }
            _ => sym::check(Some(bytes.as_slice()) == now, "opening and saving changes no part"),
        }
    }
    sym::check(a.sst == b.sst, "opening and saving keeps every shared string");
    sym::check(a.wb.kid("sheets") == b.wb.kid("sheets"), "opening and saving keeps the list of sheets");
    for k in ["numFmts", "fonts", "fills", "borders", "cellXfs", "cellStyleXfs", "cellStyles"] {
        let (x, y) = (a.styles.as_ref().and_then(|s| s.kid(k)), b.styles.as_ref().and_then(|s| s.kid(k)));
        if let Some(x) = x {
            sym::check(y.map(|y| x.kids == y.kids).unwrap_or(false), "opening and saving keeps every style");
        }
    }
    types_kept(&a.parts, &b.parts, &[]);
    for s in ["", "xl/workbook.xml", "xl/worksheets/sheet1.xml", "xl/drawings/drawing1.xml"] {
        rels_kept(&a.parts, &b.parts, s, &[]);
    }
}
/// where the parts of a package lie is up to whoever wrote it
pub fn layout() {
    let wb_dir = ["xl/", "", "office/my_rels/book/"][sym::choose(3)];
    let sheet_path = ["worksheets/sheet1.xml", "Sheet_A.XML", "../pages/p.xml"][sym::choose(3)];
    let style = sym::choose(4);
    let id = if sym::bound(0, 1) == 1 { sym::text(2, "aR1_") } else { ["rId1", "x", "R0cad"][sym::choose(3)].to_string() };
    let wb = format!("{wb_dir}{}", if wb_dir == "xl/" { "book.xml" } else { "book_rels.xml" });
    let sp = obs::resolve(&wb, sheet_path);
    sym::assume(!sp.starts_with("..") && !(wb_dir.is_empty() && sheet_path.starts_with("..")));
    let target = |source: &str, path: &str, rel: &str| match style {
        0 => rel.to_string(),
        1 => format!("/{}", path),
        // names of parts do not differ by case alone
        3 => rel.to_ascii_uppercase(),
        _ => {
            let _ = source;
            format!("./{}", rel)
        }
    };
    let parts: Parts = vec![
        ("xl/".to_string(), Vec::new()),
        (sp.clone(), sheet("<sheetData><row r=\"2\"><c r=\"B2\"><v>7</v></c></row></sheetData><extLst><ext uri=\"u\" xmlns:a.b-1=\"urn:x\"><a.b-1:c.d-e_1 \u{e9}=\"1\" _g.h=\"2\"/></ext></extLst>").into_bytes()),
        (obs::rels_path(&wb), format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Target=\"{}\" Id=\"{id}\" Type=\"{RNS}/worksheet\"/></Relationships>", target(&wb, &sp, sheet_path)).into_bytes()),
        (wb.clone(), workbook(&format!("<sheets><sheet name=\"Data\" sheetId=\"3\" r:id=\"{id}\"/></sheets>")).into_bytes()),
        ("_rels/.rels".to_string(), format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"{id}\" Type=\"{RNS}/officeDocument\" Target=\"{}\"/></Relationships>", target("", &wb, &wb)).into_bytes()),
        ("[Content_Types].xml".to_string(), format!("<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/><Override PartName=\"/{wb}\" ContentType=\"{S}sheet.main+xml\"/><Override PartName=\"/{sp}\" ContentType=\"{S}worksheet+xml\"/></Types>").into_bytes()),
    ];
    let mut parts = parts;
    let strings = sym::choose(3);
    if strings > 0 {
        let st = format!("{wb_dir}text/Strings.xml");
        parts.push((st.clone(), sst(["", "<si><t>zero</t></si>"][strings - 1]).into_bytes()));
        for x in parts.iter_mut() {
            if x.0 == obs::rels_path(&wb) {
                x.1 = String::from_utf8(x.1.clone()).unwrap().replace("</Rel", &format!("<Relationship Id=\"strings\" Type=\"{RNS}/sharedStrings\" Target=\"{}\"/></Rel", target(&wb, &st, "text/Strings.xml"))).into_bytes();
            } else if x.0 == "[Content_Types].xml" {
                x.1 = String::from_utf8(x.1.clone()).unwrap().replace("</Types", &format!("<Override PartName=\"/{st}\" ContentType=\"{S}sharedStrings+xml\"/></Types")).into_bytes();
            } else if x.0 == sp && strings == 2 {
                x.1 = String::from_utf8(x.1.clone()).unwrap().replace("<v>7</v></c>", "<v>7</v></c><c r=\"C2\" t=\"s\"><v>0</v></c>").into_bytes();
            }
        }
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    let mut y = open(&p, "a package opens wherever its parts lie");
    let names = need(y.list_sheet_names(), "sheets are listed");
    sym::check(names == ["Data".to_string()], "a package opens wherever its parts lie");
    let e = sym::choose(3);
    if e == 1 {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a sheet opens wherever it lies");
        need(ws.set_row_value_ref_mut("A1", vec![cell("t", CellDataType::ShareString)]), "write a cell");
    } else if e == 2 {
        let mut ws = need(y.add_sheet_mut(Some("New".to_string())), "add a sheet");
        need(ws.set_row_value_ref_mut("A1", vec![cell("t", CellDataType::ShareString)]), "write a cell");
    }
    let b = save(y, "b.xlsx");
    sym::check(b.at("Data", "B2") == (Kind::Number, "7".to_string()), "cells are kept wherever their sheet lies");
    if strings == 2 {
        sym::check(b.at("Data", "C2") == (Kind::Text, "zero".to_string()), "cells are kept wherever their text lies");
    }
    if e > 0 {
        let s = if e == 1 { "Data" } else { "New" };
        sym::check(b.at(s, "A1") == (Kind::Text, "t".to_string()), "new cells are stored wherever their sheet lies");
    }
    let names: Vec<_> = b.sheets[0].root.kid("extLst").and_then(|e| e.kids.first()).map(|e| e.kids.iter().map(|k| (k.name.clone(), k.attrs.len())).collect()).unwrap_or_default();
    sym::check(names == [("a.b-1:c.d-e_1".to_string(), 2)] || names == [("c.d-e_1".to_string(), 2)], "elements keep their names");
    sym::check(b.wb_path.eq_ignore_ascii_case(&wb), "the workbook stays where it is");
    obs::consistent(&b.parts);
    obs::workbook_consistent(&b);
    sym::reached();
}

// ------------------------------------------------------------------------------------------- calculation chain
/// the calculation chain names only cells that have a formula
pub fn calc() {
    let mut m = rich(sheet("<sheetData><row r=\"1\"><c r=\"A1\"><f>1+1</f><v>2</v></c><c r=\"B1\"><f>A1</f><v>2</v></c><c r=\"C1\"><v>3</v></c></row></sheetData>"), b"x");
    m.calc = Some(format!("<?xml version=\"1.0\"?><calcChain xmlns=\"{MAIN}\"><c r=\"B1\" i=\"1\" l=\"1\"/><c r=\"A1\" s=\"1\"/><c r=\"C3\" i=\"5\"/></calcChain>"));
    for x in m.extra.iter_mut() {
        if x.0 == "xl/worksheets/other.xml" {
            x.1 = sheet("<sheetData><row r=\"3\"><c r=\"C3\"><f>2</f><v>2</v></c></row></sheetData>").into_bytes();
        }
    }
    let mut parts = m.parts();
    let at = ["calcChain.xml", "calc/Chain.xml"][sym::choose(2)];
    for x in parts.iter_mut() {
        if x.0 == "xl/calcChain.xml" {
            x.0 = format!("xl/{at}");
        } else if x.0 == "[Content_Types].xml" || x.0 == "xl/_rels/workbook.xml.rels" {
            x.1 = String::from_utf8(x.1.clone()).unwrap().replace("calcChain.xml\"", &format!("{at}\"{}", if x.0 == "xl/_rels/workbook.xml.rels" && at.contains('/') { " TargetMode=\"Internal\"" } else { "" })).into_bytes();
        }
    }
    let at = format!("xl/{at}");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    let steps = sym::bound(1, 2);
    let mut quiet = true;
    for _ in 0..steps {
        match sym::choose(6) {
            0 => {}
            1 => {
                let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
                let at = sym::choose(3) as u16 + 1;
                let mut c = num("9");
                if sym::bool() {
                    c.formula = Some("7".to_string());
                }
                need(ws.set_row_value_index_mut(1, at, vec![c]), "write a cell");
                quiet = false;
            }
            2 => {
                if let Ok(ws) = y.get_worksheet_mut("Other".to_string()) {
                    need(ws.delete_sheet_mut(), "delete a sheet");
                }
                quiet = false;
            }
            3 => {
                need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
            }
            4 => {
                let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
                need(ws.set_row_value_ref_mut("A9", vec![num("1")]), "write a cell");
            }
            _ => {
                if let Ok(ws) = y.get_worksheet_mut("Data".to_string()) {
                    need(ws.delete_sheet_mut(), "delete a sheet");
                }
                quiet = false;
                break;
            }
        }
    }
    let q = pkg::path("b.xlsx");
    if y.save_as(&q).is_ok() {
        let b = load(&q);
        chain(&b);
        if quiet {
            let (a, z) = (obs::doc(&first.parts, &at), obs::doc(&b.parts, &at));
            sym::check(z.is_none() || a.map(|a| a.kids) == z.map(|z| z.kids), "the calculation chain is kept while no formula changes");
        }
        obs::consistent(&b.parts);
        obs::workbook_consistent(&b);
    }
    sym::reached();
}
fn chain(b: &Book) {
    for r in obs::rels(&b.parts, &b.wb_path) {
        if !r.ty.ends_with("/calcChain") {
            continue;
        }
        let d = obs::doc(&b.parts, &r.target);
        sym::check(d.is_some(), "the calculation chain is readable");
        let mut id = String::new();
        for c in d.map(|d| d.kids).unwrap_or_default() {
            if let Some(i) = c.attr("i") {
                id = i.to_string();
            }
            let at = c.attr("r").unwrap_or("");
            let s = b.sheets.iter().find(|s| s.sheet_id == id);
            sym::check(s.and_then(|s| b.cell(s, at)).and_then(|c| c.kid("f")).is_some(), "the calculation chain names only cells with a formula");
        }
    }
}

// ------------------------------------------------------------------------------------------- core properties
const CORE: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:dcmitype=\"http://purl.org/dc/dcmitype/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"><dc:title>TITLE</dc:title><dc:creator>me</dc:creator><cp:keywords>TITLE</cp:keywords><cp:lastModifiedBy>you</cp:lastModifiedBy><dcterms:created xsi:type=\"dcterms:W3CDTF\">2001-02-03T04:05:06Z</dcterms:created><dcterms:modified xsi:type=\"dcterms:W3CDTF\">2002-02-03T04:05:06Z</dcterms:modified></cp:coreProperties>";
/// whether the text is a point in time as 2024-01-02T03:04:05Z
pub fn is_time(t: &str) -> bool {
    let b = t.as_bytes();
    b.len() == 20
        && b.iter().enumerate().all(|(i, c)| match i {
            4 | 7 => *c == b'-',
            10 => *c == b'T',
            13 | 16 => *c == b':',
            19 => *c == b'Z',
            _ => c.is_ascii_digit(),
        })
}
pub fn core_of(parts: &Parts) -> Option<Node> {
    for r in obs::rels(parts, "") {
        if r.ty == "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" {
            return obs::doc(parts, &r.target);
        }
    }
    None
}
pub fn text_of(n: &Option<Node>, k: &str) -> String {
    n.as_ref().and_then(|n| n.kid(k)).map(|k| k.text.clone()).unwrap_or_default()
}
/// document properties of new and of opened workbooks
pub fn core() {
    let n = sym::choose(sym::bound(3, 5));
    let t = sym::text(n, TEXT);
    let k = sym::choose(4);
    if k == 0 {
        let x = new();
        let b = save(x, "o.xlsx");
        let c = core_of(&b.parts);
        sym::check(is_time(&text_of(&c, "dcterms:created")), "a new file says when it was created");
        sym::check(is_time(&text_of(&c, "dcterms:modified")), "a file says when it was changed last");
    } else {
        let mut m = make();
        let src = match k {
            1 => CORE.replace("TITLE", &esc(&t)),
            2 => CORE.replace("TITLE", &esc(&t)).replace("2001-02-03T04:05:06Z", ""),
            _ => CORE.replace("TITLE", &esc(&t)).replace("<dcterms:modified xsi:type=\"dcterms:W3CDTF\">2002-02-03T04:05:06Z</dcterms:modified>", ""),
        };
        m.core = Some(src);
        let p = pkg::path("a.xlsx");
        pkg::write(&p, &m.parts());
        let mut y = open(&p, "a valid workbook opens");
        if sym::bool() {
            let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
            need(ws.set_row_value_ref_mut("C3", vec![num("1")]), "write a cell");
        }
        let b = save(y, "b.xlsx");
        let c = core_of(&b.parts);
        same(&text_of(&c, "dc:title"), &t, "document properties of an opened file are kept");
        same(&text_of(&c, "cp:keywords"), &t, "document properties of an opened file are kept");
        same(&text_of(&c, "dc:creator"), "me", "document properties of an opened file are kept");
        let created = text_of(&c, "dcterms:created");
        if k == 2 {
            sym::check(is_time(&created), "a file says when it was created");
        } else {
            same(&created, "2001-02-03T04:05:06Z", "the time of creation is kept");
        }
        if k != 3 {
            let m = text_of(&c, "dcterms:modified");
            sym::check(is_time(&m) && m != "2002-02-03T04:05:06Z", "the time of the last change is updated");
        }
        if let Some(c) = &c {
            for k in ["dcterms:created", "dcterms:modified"] {
                if let Some(n) = c.kid(k) {
                    sym::check(n.attr("xsi:type") == Some("dcterms:W3CDTF"), "times are typed as such");
                }
                sym::check(c.all(k).len() <= 1, "every document property is there once");
            }
        }
    }
    sym::reached();
}

// ------------------------------------------------------------------------------------------- failing
/// a save that cannot work is an error and leaves the target as it was
pub fn failing_save() {
    let old = sym::bytes(4);
    let other = sym::bytes(2);
    let k = sym::choose(5);
    let p = pkg::path("t.xlsx");
    let mut x = new();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        need(ws.set_row_value_ref_mut("A1", vec![cell("t", CellDataType::ShareString)]), "write a cell");
    }
    // files that only look like the ones a save may use
    let beside = [pkg::path("t.xlsx.tmp"), pkg::path("t.tmp"), pkg::path("t.xlsx.bak")];
    for b in &beside {
        pkg::write_raw(b, &other);
    }
    let target = match k {
        0 | 1 | 2 => {
            // no room at all, room for a part of the package; with or without a file to replace
            if k != 2 {
                pkg::write_raw(&p, &old);
            }
            let names = pkg::list();
            pkg::disk_limit(Some(if k == 0 { 0 } else { 6 }));
            let r = x.save_as(&p);
            pkg::disk_limit(None);
            sym::check(r.is_err(), "a save that could not write is an error");
            if k != 2 {
                sym::check(pkg::read_raw(&p).as_deref() == Some(&old[..]), "a save that fails leaves the target as it was");
            }
            names
        }
        3 => {
            pkg::mkdir(&p);
            let names = pkg::list();
            sym::check(x.save_as(&p).is_err(), "a save that could not write is an error");
            names
        }
        _ => {
            let q = pkg::path("none/t.xlsx");
            let names = pkg::list();
            sym::check(x.save_as(&q).is_err(), "a save that could not write is an error");
            sym::check(pkg::read_raw(&q).is_none(), "a save that fails leaves no file");
            names
        }
    };
    sym::check(pkg::list() == target, "a save that fails leaves nothing behind");
    for b in &beside {
        sym::check(pkg::read_raw(b).as_deref() == Some(&other[..]), "a save that fails leaves other files as they were");
    }
    sym::reached();
}
/// saving over the opened file and over any other file replaces it completely
pub fn over() {
    let p = pkg::path("a.xlsx");
    let k = sym::choose(3);
    let junk = sym::bytes(3);
    let mut before = make().parts();
    before.push(("xl/media/big.png".to_string(), vec![b'x'; 4000]));
    pkg::write(&p, &before);
    let q = match k {
        0 => p.clone(),
        1 => {
            pkg::write_raw(&pkg::path("b.xlsx"), &junk);
            pkg::path("b.xlsx")
        }
        _ => {
            pkg::write(&pkg::path("b.xlsx"), &before);
            pkg::path("b.xlsx")
        }
    };
    let mut y = if k == 2 { new() } else { open(&p, "a valid workbook opens") };
    {
        let mut ws = need(y.add_sheet_mut(Some("Data".to_string())), "open a sheet");
        need(ws.set_row_value_ref_mut("C3", vec![num("1")]), "write a cell");
    }
    pkg::write_raw(&pkg::path("b.xlsx.tmp"), &junk);
    let names = pkg::list();
    need(y.save_as(&q), "saving succeeds");
    sym::check(pkg::list() == names && pkg::read_raw(&pkg::path("b.xlsx.tmp")).as_deref() == Some(&junk[..]), "saving touches the target only");
    let b = load(&q);
    sym::check(b.at("Data", "C3") == (Kind::Number, "1".to_string()), "the new content is in the saved file");
    sym::check(obs::part(&b.parts, "xl/media/big.png").is_some() == (k != 2), "saving over a file replaces it completely");
    if k != 0 {
        sym::check(pkg::read(&p).map(|a| a == before).unwrap_or(false), "the opened file stays as it was");
    }
    sym::reached();
}
/// files that are no package, or lack a part, are refused in good order
pub fn not_a_package() {
    let p = pkg::path("a.xlsx");
    let k = sym::choose(3 + 6);
    if k == 0 {
        pkg::write_raw(&p, &sym::bytes(4));
    } else if k == 1 {
        pkg::write_raw(&p, b"");
    } else if k > 2 {
        let names = ["[Content_Types].xml", "_rels/.rels", "xl/workbook.xml", "xl/_rels/workbook.xml.rels", "xl/worksheets/sheet1.xml", "xl/sharedStrings.xml"];
        let mut m = make();
        m.sst = Some(sst("<si><t>a</t></si>"));
        let empty = sym::bool();
        let mut parts: Parts = Vec::new();
        for x in m.parts() {
            if x.0 == names[k - 3] {
                if empty {
                    parts.push((x.0, Vec::new()));
                }
            } else {
                parts.push(x);
            }
        }
        pkg::write(&p, &parts);
    }
    let r = Excel::new(Some(p.clone()), ExcelPropertiesModel::default());
    if k < 3 {
        sym::check(r.is_err(), "a file that is no package is refused");
    }
    if let Ok(mut y) = r {
        let _ = y.list_sheet_names();
        if let Ok(mut ws) = y.get_worksheet_mut("Data".to_string()) {
            let _ = ws.set_row_value_ref_mut("B2", vec![cell("x", CellDataType::ShareString)]);
        }
        let _ = y.add_sheet_mut(Some("New".to_string()));
        let _ = y.save_as(&pkg::path("b.xlsx"));
    }
    sym::reached();
}
/// drive everything there is; every step may fail but none may panic
fn drive(p: &str) -> Option<String> {
    let mut y = Excel::new(Some(p.to_string()), ExcelPropertiesModel::default()).ok()?;
    let names = y.list_sheet_names().ok()?;
    for n in names {
        let mut ws = y.get_worksheet_mut(n).ok()?;
        ws.set_row_value_ref_mut("B2", vec![cell("x", CellDataType::ShareString)]).ok()?;
        let mut c = ColumnProperties::default();
        c.width = Some(20.0);
        ws.set_column_index_properties_mut(&3, Some(c)).ok()?;
        let mut r = RowProperties::default();
        r.height = Some(20.0);
        ws.set_row_index_properties_mut(&3, r).ok()?;
    }
    let mut st = StyleSetting::default();
    st.is_bold = true;
    y.get_style_id_mut(st).ok()?;
    {
        let mut ws = y.add_sheet_mut(Some("New".to_string())).ok()?;
        ws.set_row_value_ref_mut("A1", vec![num("1")]).ok()?;
    }
    let q = pkg::path("b.xlsx");
    y.save_as(&q).ok()?;
    Some(q)
}
fn driven(parts: &Parts) {
    let p = pkg::path("a.xlsx");
    pkg::write(&p, parts);
    if let Some(q) = drive(&p) {
        let r = obs::book(&q);
        sym::check(r.is_ok(), "what is saved can be read");
        if let Ok(b) = r {
            sym::check(b.sheet("New").is_some(), "the new sheet is in the saved file");
            sym::check(Excel::new(Some(q), ExcelPropertiesModel::default()).is_ok(), "what was saved opens again");
        }
    }
    sym::reached();
}
/// arbitrary values where a file has numbers and references
pub fn odd_values() {
    let n = sym::choose(sym::bound(4, 5));
    let v = match sym::choose(2) {
        0 => sym::text(n, "A1.-0 "),
        _ => ["4294967295", "4294967296", "18446744073709551616", "65535", "65536", "-1", "1e5", "NaN", "A1048577", "XFE1", "\u{661}"][sym::choose(11)].to_string(),
    };
    let mut m = make();
    m.styles = Some(styles(TWO_STYLES));
    m.sst = Some(sst("<si><t>a</t></si>"));
    let d = |b: &str| sheet(&format!("<sheetData>{b}</sheetData>"));
    match sym::choose(16) {
        0 => m.sheet1 = d(&format!("<row r=\"{v}\"><c r=\"A1\"><v>1</v></c></row>")),
        1 => m.sheet1 = d(&format!("<row r=\"1\"><c r=\"{v}\"><v>1</v></c></row>")),
        2 => m.sheet1 = d(&format!("<row r=\"1\"><c r=\"A1\" s=\"{v}\" t=\"s\"><v>{v}</v></c></row>")),
        3 => m.sheet1 = d(&format!("<row r=\"1\" ht=\"{v}\" s=\"{v}\"/><row r=\"2\" outlineLevel=\"{v}\" thickTop=\"{v}\"/>")),
        4 => m.sheet1 = sheet(&format!("<cols><col min=\"{v}\" max=\"4\" width=\"9\"/></cols><sheetData/>")),
        5 => m.sheet1 = sheet(&format!("<cols><col min=\"1\" max=\"{v}\" width=\"{v}\" style=\"{v}\"/></cols><sheetData/>")),
        6 => m.sheet1 = sheet(&format!("<dimension ref=\"{v}\"/><sheetData/>")),
        7 => m.sheet1 = d(&format!("<row r=\"{v}\"/><row><c><v>1</v></c></row>")),
        8 => m.sheet1 = d(&format!("<row r=\"1\"><c r=\"{v}\"/><c><v>1</v></c></row>")),
        9 => m.workbook = workbook(&format!("<sheets><sheet name=\"Data\" sheetId=\"{v}\" r:id=\"rId1\"/></sheets>")),
        10 => m.workbook = workbook(&format!("<bookViews><workbookView activeTab=\"{v}\" tabRatio=\"{v}\" firstSheet=\"{v}\" xWindow=\"{v}\"/></bookViews><sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\" state=\"{v}\"/></sheets>")),
        11 => m.styles = Some(styles(&TWO_STYLES.replace("numFmtId=\"14\"", &format!("numFmtId=\"{v}\"")).replace("sz val=\"11\"", &format!("sz val=\"{v}\"")))),
        12 => m.styles = Some(styles(&TWO_STYLES.replace("fontId=\"0\" fillId=\"0\"", &format!("fontId=\"{v}\" fillId=\"{v}\"")))),
        13 => m.styles = Some(styles(&format!("<numFmts count=\"1\"><numFmt numFmtId=\"{v}\" formatCode=\"0\"/></numFmts>{}", TWO_STYLES))),
        14 => m.extra_wb_rels = format!("<Relationship Id=\"{v}\" Type=\"{RNS}/other\" Target=\"{v}\"/>"),
        _ => m.extra_types = format!("<Default Extension=\"{v}\" ContentType=\"{v}\"/><Override PartName=\"{v}\" ContentType=\"{v}\"/>"),
    }
    driven(&m.parts());
}
/// parts whose elements are not what they should be
pub fn odd_shapes() {
    let mut m = make();
    m.styles = Some(styles(TWO_STYLES));
    m.sst = Some(sst("<si><t>a</t></si>"));
    m.core = Some(CORE.to_string());
    let body = ["", "<x/>", "<sheetData/>", "<sheets/>", "<sheetData><row/></sheetData>", "<sheetData><c/></sheetData>", "<sheets><sheet/></sheets>", "<si/>", "<Relationship/>", "<Default/>", "<Override/>", "<cols><col/></cols>", "<bookViews/>", "<fonts/><fills/><borders/><cellStyleXfs/><cellXfs/>", "<cellXfs><xf/></cellXfs>", "text"][sym::choose(16)];
    let mut parts = Vec::new();
    let k = sym::choose(7);
    let names = ["[Content_Types].xml", "_rels/.rels", "xl/workbook.xml", "xl/_rels/workbook.xml.rels", "xl/worksheets/sheet1.xml", "xl/sharedStrings.xml", "xl/styles.xml"];
    let roots = [
        "Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"",
        "Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"",
        "workbook",
        "Relationships",
        "worksheet",
        "sst",
        "styleSheet",
    ];
    let root = if sym::bool() { roots[k] } else { "other" };
    let tag = root.split(' ').next().unwrap_or("");
    for x in m.parts() {
        if x.0 == names[k] {
            parts.push((x.0, format!("<{root}>{body}</{tag}>").into_bytes()));
        } else {
            parts.push(x);
        }
    }
    driven(&parts);
}
/// where the tags of a part stand: (start, end, whether it closes, whether it is empty, the attributes' places)
struct Tag {
    at: usize,
    end: usize,
    close: bool,
    empty: bool,
    attrs: Vec<(usize, usize, usize)>,
}
fn tags(t: &str) -> Vec<Tag> {
    let b = t.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' || b[i + 1] == b'?' {
            i += 1;
            continue;
        }
        let at = i;
        let close = b[i + 1] == b'/';
        let mut attrs = Vec::new();
        while b[i] != b'>' {
            if b[i] == b' ' {
                let s = i;
                while b[i] != b'"' {
                    i += 1;
                }
                let v = i + 1;
                i = v;
                while b[i] != b'"' {
                    i += 1;
                }
                attrs.push((s, v, i));
            }
            i += 1;
        }
        i += 1;
        o.push(Tag { at, end: i, close, empty: b[i - 2] == b'/', attrs });
    }
    o
}
/// a valid package in which one thing is not as it should be: an attribute or an element is missing, doubled,
/// empty, or holds something else
pub fn spoiled() {
    let mut m = make();
    m.workbook = workbook("<workbookPr date1904=\"0\"/><bookViews><workbookView tabRatio=\"600\" activeTab=\"0\"/></bookViews><sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/></sheets><definedNames><definedName name=\"n\">Data!$A$1</definedName></definedNames>");
    m.styles = Some(styles(&format!("<numFmts count=\"1\"><numFmt numFmtId=\"170\" formatCode=\"0.0\"/></numFmts>{}", TWO_STYLES.replace("<sz val", "<b/><color theme=\"1\" tint=\"0.5\"/><sz val").replace("<left/>", "<left style=\"thin\"><color rgb=\"FF000000\"/></left>").replace("<patternFill patternType=\"gray125\"/>", "<patternFill patternType=\"solid\"><fgColor indexed=\"3\"/></patternFill>").replace("applyNumberFormat=\"1\"/>", "applyNumberFormat=\"1\"><alignment horizontal=\"left\" indent=\"1\"/><protection locked=\"0\"/></xf>"))));
    m.sst = Some(sst("<si><t>a</t></si><si><r><rPr><b/></rPr><t>b</t></r></si>").replace("<sst ", "<sst count=\"1\" uniqueCount=\"2\" "));
    m.core = Some(CORE.to_string());
    m.calc = Some(format!("<calcChain xmlns=\"{MAIN}\"><c r=\"B1\" i=\"1\"/></calcChain>"));
    m.sheet1 = sheet("<dimension ref=\"A1:C2\"/><sheetViews><sheetView zoomScale=\"90\" workbookViewId=\"0\"><selection activeCell=\"A1\" sqref=\"A1\"/></sheetView></sheetViews><sheetFormatPr defaultRowHeight=\"15\"/><cols><col min=\"1\" max=\"4\" width=\"9\" customWidth=\"1\" style=\"1\"/></cols><sheetData><row r=\"1\" ht=\"20\" customHeight=\"1\" s=\"1\" customFormat=\"1\" spans=\"1:3\"><c r=\"A1\" s=\"1\" t=\"s\"><v>1</v></c><c r=\"B1\"><f t=\"shared\" si=\"0\" ref=\"B1:B2\">A1</f><v>1</v></c><c r=\"C1\" t=\"inlineStr\"><is><t>i</t></is></c></row><row r=\"2\"><c r=\"B2\"><f t=\"shared\" si=\"0\"/><v>2</v></c></row></sheetData><mergeCells count=\"1\"><mergeCell ref=\"A5:B6\"/></mergeCells>");
    let names = ["[Content_Types].xml", "_rels/.rels", "xl/workbook.xml", "xl/_rels/workbook.xml.rels", "xl/worksheets/sheet1.xml", "xl/sharedStrings.xml", "xl/styles.xml", "xl/calcChain.xml", "docProps/core.xml"];
    let n = names[sym::choose(9)];
    let mut parts = m.parts();
    let text = parts.iter().find(|x| x.0 == n).map(|x| String::from_utf8_lossy(&x.1).into_owned()).unwrap_or_default();
    let all = tags(&text);
    let k = sym::choose(all.len());
    let g = &all[k];
    sym::assume(!g.close);
    let mut end = g.end;
    if !g.empty {
        let mut depth = 1;
        for h in &all[k + 1..] {
            depth = if h.close { depth - 1 } else if h.empty { depth } else { depth + 1 };
            if depth == 0 {
                end = h.end;
                break;
            }
        }
    }
    let op = sym::choose(if g.attrs.is_empty() { 4 } else { sym::bound(6, 8) });
    let new = match op {
        0 => format!("{}{}", &text[..g.at], &text[end..]),
        1 => format!("{}{}{}", &text[..end], &text[g.at..end], &text[end..]),
        2 => {
            sym::assume(!g.empty);
            format!("{}/>{}", &text[..g.end - 1], &text[end..])
        }
        3 => {
            sym::assume(!g.empty);
            format!("{}x{}", &text[..g.end], &text[g.end..])
        }
        _ => {
            let a = g.attrs[sym::choose(g.attrs.len())];
            match op {
                4 => format!("{}{}", &text[..a.0], &text[a.2 + 1..]),
                5 => format!("{}x{}", &text[..a.1], &text[a.2..]),
                6 => format!("{}{}", &text[..a.1], &text[a.2..]),
                _ => format!("{}99999999999{}", &text[..a.1], &text[a.2..]),
            }
        }
    };
    for x in parts.iter_mut() {
        if x.0 == n {
            x.1 = new.clone().into_bytes();
        }
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    if let Some(q) = drive(&p) {
        sym::check(Excel::new(Some(q), ExcelPropertiesModel::default()).is_ok(), "what was saved opens again");
    }
    sym::reached();
}
/// core properties of any shape
pub fn odd_core() {
    let mut m = make();
    m.core = Some(["<cp:coreProperties/>", "<coreProperties/>", "<cp:coreProperties><dcterms:modified/></cp:coreProperties>", "<a/>", "<cp:coreProperties>x</cp:coreProperties>", "<cp:coreProperties><dcterms:created><x/></dcterms:created></cp:coreProperties>"][sym::choose(6)].to_string());
    driven(&m.parts());
}
/// a part with anything but white space and comments beside its one element is refused
pub fn beside() {
    let mut m = make();
    m.styles = Some(styles(TWO_STYLES));
    m.sst = Some(sst("<si><t>a</t></si>"));
    m.sheet1 = sheet("<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c></row></sheetData>");
    let names = ["[Content_Types].xml", "_rels/.rels", "xl/workbook.xml", "xl/_rels/workbook.xml.rels", "xl/worksheets/sheet1.xml", "xl/sharedStrings.xml", "xl/styles.xml"];
    let k = sym::choose(7);
    let what = sym::choose(12);
    // in front of the element, behind it, or at its end
    let (at, junk) = match what {
        0 => (0, format!("x{}", sym::text(1, "ab "))),
        1 => (1, format!("{}x", sym::text(1, "ab\n"))),
        2 => (1, "<a/>".to_string()),
        3 => (1, "<a></a>".to_string()),
        4 => (1, "</a>".to_string()),
        5 => (1, "<![CDATA[x]]>".to_string()),
        6 => (1, "<a>".to_string()),
        7 => (2, "<a>".to_string()),
        8 => (2, "</a>".to_string()),
        9 => (1, " \n".to_string()),
        10 => (1, "<!-- x -->\n".to_string()),
        _ => (0, "<!-- x -->\n".to_string()),
    };
    let mut parts = Vec::new();
    for mut x in m.parts() {
        if x.0 == names[k] {
            let t = String::from_utf8(x.1.clone()).unwrap();
            let t = match at {
                0 => {
                    let i = t.find("?>").map(|i| i + 2).unwrap_or(0);
                    format!("{}{}{}", &t[..i], junk, &t[i..])
                }
                1 => format!("{}{}", t, junk),
                _ => {
                    let i = t.rfind("</").unwrap();
                    format!("{}{}{}", &t[..i], junk, &t[i..])
                }
            };
            x.1 = t.into_bytes();
        }
        parts.push(x);
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    if what < 9 {
        sym::check(drive(&p).is_none(), "a file with a part that is not well formed is refused");
    } else {
        sym::check(drive(&p).is_some(), "a file with comments beside the elements opens");
    }
    sym::reached();
}
/// a part that was cut off is refused, wherever the cut is
pub fn truncated() {
    let mut m = make();
    m.styles = Some(styles(TWO_STYLES));
    m.sst = Some(sst("<si><t>a</t></si>"));
    m.sheet1 = sheet("<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c></row><row r=\"2\"><c r=\"A2\"><v>1</v></c></row></sheetData>");
    let names = ["[Content_Types].xml", "_rels/.rels", "xl/workbook.xml", "xl/_rels/workbook.xml.rels", "xl/worksheets/sheet1.xml", "xl/sharedStrings.xml", "xl/styles.xml"];
    let k = sym::choose(7);
    let mut parts = Vec::new();
    let steps = sym::bound(24, 96);
    let at = sym::choose(steps);
    for mut x in m.parts() {
        if x.0 == names[k] {
            let n = x.1.len() * at / steps;
            x.1.truncate(n);
        }
        parts.push(x);
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    sym::check(drive(&p).is_none(), "a file with a part that was cut off is refused");
    sym::reached();
}
