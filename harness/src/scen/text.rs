//! Text on its way into a saved part and back.
use super::book::{esc, make, sheet, sst, sst_counted, styles, workbook};
use super::cells::TEXT;
use super::common::*;
use crate::obs::{self, Kind};
use crate::{pkg, sym};

/// no XML part can hold these
fn impossible(t: &str) -> bool {
    t.bytes().any(|b| b < 32 && b != 9 && b != 10 && b != 13)
}
/// text an attribute or element is made of, sharp characters first
const SHARP: &str = "<&>\"'; #ax1]\t\n\r";

/// the name of a sheet, given when it is added or renamed
pub fn sheet_name() {
    let n = sym::choose(sym::bound(2, 4)) + 1;
    let t = sym::ascii(n);
    let rename = sym::bool();
    sym::assume(t != "sheet1");
    let mut x = new();
    let ok = if rename { x.rename_sheet_name_mut("sheet1".to_string(), t.clone()).is_ok() } else { x.add_sheet_mut(Some(t.clone())).is_ok() };
    let want: Vec<String> = if !ok {
        vec!["sheet1".to_string()]
    } else if rename {
        vec![t.clone()]
    } else {
        vec!["sheet1".to_string(), t.clone()]
    };
    if impossible(&t) {
        sym::check(!ok, "a name no file can hold is refused");
    } else {
        sym::check(ok, "any other name is accepted");
    }
    let listed = need(x.list_sheet_names(), "sheet names are listed");
    names(&listed, &want, "sheets are listed under the names given");
    let p = pkg::path("o.xlsx");
    need(x.save_as(&p), "saving succeeds");
    let b = load(&p);
    names(&b.sheets.iter().map(|s| s.name.clone()).collect(), &want, "the saved file holds the names given");
    let mut y = open(&p, "a saved workbook opens again");
    let listed = need(y.list_sheet_names(), "sheet names are listed");
    names(&listed, &want, "an opened workbook lists the names it was saved with");
    if ok {
        sym::check(y.get_worksheet_mut(t).is_ok(), "a sheet opens by its name");
    }
    sym::reached();
}
fn names(got: &Vec<String>, want: &Vec<String>, what: &str) {
    sym::check(got.len() == want.len(), what);
    for (g, w) in got.iter().zip(want) {
        same(g, w, what);
    }
}
/// any ASCII text in a cell is stored as it is or refused, and a refusal stores nothing
pub fn any_ascii() {
    let n = sym::choose(sym::bound(2, 4)) + 1;
    let t = if sym::bool() { sym::ascii(n) } else { sym::text(4, "]>&") };
    let k = sym::choose(3);
    let mut c = CellProperties::default();
    if k == 2 {
        c.formula = Some(t.clone());
    } else {
        c.value = Some(t.clone());
        c.data_type = if k == 0 { CellDataType::ShareString } else { CellDataType::InlineString };
    }
    let mut x = blank();
    let ok = {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        ws.set_row_value_ref_mut("A1", vec![num("1"), c]).is_ok()
    };
    sym::check(ok == !impossible(&t), "text is refused exactly when no XML part can hold it");
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    if ok {
        let got = match b.cell(s, "B1") {
            Some(c) if k == 2 => c.kid("f").map(|f| f.text.clone()).unwrap_or_default(),
            Some(c) => b.value(c).1,
            None => String::new(),
        };
        same(&got, &t, "text reads back as written");
    } else {
        sym::check(b.cells(s) == 0 && b.sst.is_empty(), "a refused write stores nothing");
    }
    sym::reached();
}
/// texts of more than one byte per character
pub fn wide() {
    let t = ["é", "日本", "𝄞", "a\u{301}", "\u{a0}", "ÿ\u{7f}", "\u{85}\u{2028}", "\u{fffd}", "İı", "\u{feff}x", "\u{fffe}", "\u{ffff}"];
    let k = sym::choose(t.len());
    let t = format!("{}{}", t[k], sym::text(1, "<&> a"));
    let place = sym::choose(4);
    let mut x = blank();
    let mut ok = true;
    if place == 3 {
        ok = x.rename_sheet_name_mut("sheet1".to_string(), t.clone()).is_ok();
    } else {
        let mut ws = need(x.add_sheet_mut(Some("sheet1".to_string())), "open a sheet");
        let mut c = CellProperties::default();
        if place == 2 {
            c.formula = Some(t.clone());
        } else {
            c.value = Some(t.clone());
            c.data_type = if place == 0 { CellDataType::ShareString } else { CellDataType::InlineString };
        }
        ok = ws.set_row_value_ref_mut("B1", vec![c]).is_ok() && ok;
    }
    sym::check(ok == (k < 10), "text is refused exactly when no XML part can hold it");
    if ok {
        let p = pkg::path("o.xlsx");
        need(x.save_as(&p), "saving succeeds");
        let y = open(&p, "a saved workbook opens again");
        let b = save(y, "p.xlsx");
        let got = if place == 3 {
            b.sheets[0].name.clone()
        } else {
            match b.cell(&b.sheets[0], "B1") {
                Some(c) if place == 2 => c.kid("f").map(|f| f.text.clone()).unwrap_or_default(),
                Some(c) => b.value(c).1,
                None => String::new(),
            }
        };
        same(&got, &t, "text reads back as written");
    }
    sym::reached();
}
/// texts of a style
pub fn style_text() {
    let n = sym::choose(sym::bound(2, 4)) + 1;
    let t = sym::ascii(n);
    let k = sym::choose(3);
    let mut st = StyleSetting::default();
    match k {
        0 => st.font_family = t.clone(),
        1 => {
            st.number_format = NumberFormatValues::Custom;
            st.custom_number_format = Some(t.clone());
        }
        _ => st.background_color = Some(t.clone()),
    }
    let mut x = blank();
    let ok = x.get_style_id_mut(st).is_ok();
    sym::check(ok == !impossible(&t), "text is refused exactly when no XML part can hold it");
    let b = save(x, "o.xlsx");
    if ok {
        let s = b.styles.as_ref().unwrap();
        let got = match k {
            0 => s.kid("fonts").map(|f| f.kids.iter().any(|f| f.kid("name").and_then(|n| n.attr("val")) == Some(t.as_str()))),
            1 => s.kid("numFmts").map(|f| f.kids.iter().any(|f| f.attr("formatCode") == Some(t.as_str()))),
            _ => s.kid("fills").map(|f| f.kids.iter().any(|f| f.kid("patternFill").and_then(|p| p.kid("fgColor")).and_then(|c| c.attr("rgb")) == Some(t.as_str()))),
        };
        sym::check(got == Some(true), "texts of a style read back as written");
    }
    sym::reached();
}
/// the many ways of writing a character
pub fn encodings() {
    let n = sym::choose(sym::bound(2, 3));
    let t = sym::text(n, TEXT);
    let e = esc(&t);
    let (raw, want) = match sym::choose(13) {
        0 => (format!("&#x41;{e}&#66;"), format!("A{t}B")),
        1 => (format!("&amp;lt;{e}&amp;amp;"), format!("&lt;{t}&amp;")),
        2 => (format!("<![CDATA[<&>]]>{e}"), format!("<&>{t}")),
        3 => (format!("{e}<![CDATA[ ]]>{e}"), format!("{t} {t}")),
        4 => (format!("{e}<!-- <t>x</t> -->{e}"), format!("{t}{t}")),
        5 => (format!("{e}<?pi a=\"b\"?>{e}"), format!("{t}{t}")),
        6 => (format!("a\r\nb{e}\rc"), format!("a\nb{t}\nc")),
        7 => (format!("&#13;{e}&#xD;"), format!("\r{t}\r")),
        8 => (format!("&apos;&quot;{e}&gt;"), format!("'\"{t}>")),
        9 => (format!("&#x1D11E;{e}&#233;"), format!("\u{1d11e}{t}é")),
        10 => (format!("<![CDATA[]]>{e}<![CDATA[a]]b]]>"), format!("{t}a]]b")),
        11 => (format!("_x0041_{e}"), format!("_x0041_{t}")),
        _ => (e.clone(), t.clone()),
    };
    let k = sym::choose(3);
    let mut m = make();
    if k == 0 {
        m.sst = Some(sst(&format!("<si><t>zero</t></si><si><t xml:space=\"preserve\">{raw}</t></si>")));
    }
    let c = [
        "<c r=\"B2\" t=\"s\"><v>1</v></c>".to_string(),
        format!("<c r=\"B2\" t=\"inlineStr\"><is><t xml:space=\"preserve\">{raw}</t></is></c>"),
        format!("<c r=\"B2\" t=\"str\"><f>{raw}</f><v>{raw}</v></c>"),
    ];
    m.sheet1 = sheet(&format!("<sheetData><row r=\"2\">{}</row></sheetData>", c[k]));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut y = open(&p, "a valid workbook opens");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut("C3", vec![cell("more", CellDataType::ShareString)]), "write another cell");
    }
    let b = save(y, "b.xlsx");
    let (kk, v) = b.at("Data", "B2");
    sym::check(kk == Kind::Text, "text stays text");
    same(&v, &want, "text means the same however it was encoded");
    if k == 2 {
        let s = b.sheet("Data").unwrap();
        let f = b.cell(s, "B2").and_then(|c| c.kid("f")).map(|f| f.text.clone()).unwrap_or_default();
        same(&f, &want, "text means the same however it was encoded");
    }
    sym::check(b.at("Data", "C3") == (Kind::Text, "more".to_string()), "the new cell is stored");
    sym::reached();
}
/// attribute values of an opened file
pub fn attributes() {
    let n = sym::choose(sym::bound(3, 4));
    let t = sym::text(n, TEXT);
    let e = esc(&t);
    let (raw, want) = match sym::choose(6) {
        0 => (format!("&#x41;{e}&#66;"), format!("A{t}B")),
        1 => (format!("&amp;lt;{e}"), format!("&lt;{t}")),
        2 => (format!("&apos;{e}>"), format!("'{t}>")),
        3 => (format!("a\n{e}\tb"), format!("a {t} b")),
        4 => (format!("&#233;{e}日"), format!("é{t}日")),
        _ => (e.clone(), t.clone()),
    };
    let mut m = make();
    m.workbook = workbook(&format!("<sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\" note=\"{raw}\"/></sheets><definedNames><definedName name=\"n1\" comment=\"{raw}\">Data!$A$1</definedName></definedNames>"));
    m.sheet1 = sheet(&format!("<sheetData><row r=\"1\" note=\"{raw}\"><c r=\"A1\"><v>1</v></c></row></sheetData><hyperlinks><hyperlink ref=\"A1\" tooltip=\"{raw}\"/></hyperlinks>"));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut y = open(&p, "a valid workbook opens");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut("C3", vec![num("1")]), "write another cell");
    }
    let b = save(y, "b.xlsx");
    let s = &b.sheets[0];
    let what = "attribute values of an opened file are kept";
    let h = s.root.kid("hyperlinks").and_then(|h| h.kid("hyperlink")).and_then(|h| h.attr("tooltip"));
    let d = b.wb.kid("definedNames").and_then(|h| h.kid("definedName")).and_then(|h| h.attr("comment"));
    let l = b.wb.kid("sheets").and_then(|h| h.kid("sheet")).and_then(|h| h.attr("note"));
    let r = b.row(s, "1").and_then(|r| r.attr("note"));
    for g in [h, d, l, r] {
        same(g.unwrap_or("missing"), &want, what);
    }
    sym::reached();
}
/// cells of any mix of strings each show their own, and the table is counted right
pub fn shared() {
    let k = sym::bound(3, 4);
    let mut ts = Vec::new();
    let mut x = blank();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        for i in 0..k {
            let n = sym::choose(3);
            let t = sym::text(n, "ab <");
            need(ws.set_row_value_index_mut(i as u32 + 1, 1, vec![cell(&t, CellDataType::ShareString)]), "write a cell");
            ts.push(t);
        }
    }
    let b = save(x, "o.xlsx");
    for i in 0..k {
        let (kk, v) = b.at("Data", &format!("A{}", i + 1));
        sym::check(kk == Kind::Text, "text is stored as text");
        same(&v, &ts[i], "every cell shows its own string");
    }
    table(&b);
    for i in 0..b.sst.len() {
        for j in 0..i {
            sym::check(b.sst[i] != b.sst[j], "a string is stored once");
        }
    }
    sym::reached();
}
fn table(b: &obs::Book) {
    for r in obs::rels(&b.parts, &b.wb_path) {
        if r.ty.ends_with("/sharedStrings") {
            if let Some(d) = obs::doc(&b.parts, &r.target) {
                if let Some(u) = d.attr("uniqueCount") {
                    sym::check(u == b.sst.len().to_string(), "the table's count is the number of its strings");
                }
                if let Some(u) = d.attr("count") {
                    let mut refs = 0;
                    for s in &b.sheets {
                        if let Some(d) = s.root.kid("sheetData") {
                            for r in &d.kids {
                                for c in &r.kids {
                                    if c.attr("t") == Some("s") {
                                        refs += 1;
                                    }
                                }
                            }
                        }
                    }
                    sym::check(u.parse::<usize>().map(|u| u >= refs || u >= b.sst.len()).unwrap_or(false), "the table's count of references is a number");
                }
            }
        }
    }
}
/// strings added to a workbook that has some, over several sheets and several saves
pub fn shared_loaded() {
    let item = [
        "<si><t>a</t></si>",
        "<si><r><t>a</t></r><r><rPr><b/></rPr><t>b</t></r></si>",
        "<si><t>ab</t><phoneticPr fontId=\"1\"/></si>",
        "<si><t/></si>",
        "<si/>",
        "<si><t>b</t></si>",
        "<si><t>x</t><rPh sb=\"0\" eb=\"1\"><t>ph</t></rPh></si>",
    ];
    let i0 = sym::choose(item.len());
    let i1 = sym::choose(item.len());
    let mut m = make();
    m.sst = Some(sst_counted(3, &format!("{}{}<si><t>b</t></si>", item[i0], item[i1])));
    m.sheet1 = sheet("<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c><c r=\"B1\" t=\"s\"><v>1</v></c><c r=\"C1\" t=\"s\"><v>2</v></c></row></sheetData>");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    let n = sym::choose(3);
    let t = sym::text(n, "abx");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut("A2", vec![cell(&t, CellDataType::ShareString)]), "write a cell");
    }
    {
        let mut ws = need(y.add_sheet_mut(Some("More".to_string())), "add a sheet");
        need(ws.set_row_value_ref_mut("A1", vec![cell("new", CellDataType::ShareString), cell(&t, CellDataType::ShareString)]), "write a cell");
    }
    let q = pkg::path("b.xlsx");
    need(y.save_as(&q), "saving succeeds");
    let b = load(&q);
    let see = |b: &obs::Book| {
        for r in ["A1", "B1", "C1"] {
            let (k, v) = b.at("Data", r);
            let (k0, v0) = first.at("Data", r);
            sym::check(k == k0, "strings of an opened file are kept");
            same(&v, &v0, "strings of an opened file are kept");
        }
        let (k, v) = b.at("Data", "A2");
        sym::check(k == Kind::Text, "text is stored as text");
        same(&v, &t, "every cell shows its own string");
        same(&b.at("More", "B1").1, &t, "every cell shows its own string");
        same(&b.at("More", "A1").1, "new", "every cell shows its own string");
        table(b);
    };
    see(&b);
    if let (Some(a), Some(c)) = (obs::doc(&first.parts, "xl/sharedStrings.xml"), obs::doc(&b.parts, "xl/sharedStrings.xml")) {
        for i in 0..2 {
            sym::check(c.kids.len() > 2 && a.kids[i] == c.kids[i], "formatted strings of an opened file are kept as they are");
        }
    }
    let mut z = open(&q, "a saved workbook opens again");
    {
        let mut ws = need(z.get_worksheet_mut("More".to_string()), "a saved sheet opens again");
        need(ws.set_row_value_ref_mut("A7", vec![cell("third", CellDataType::ShareString)]), "write a cell");
    }
    let c = save(z, "c.xlsx");
    see(&c);
    same(&c.at("More", "A7").1, "third", "every cell shows its own string");
    sym::reached();
}
/// a part in another encoding is read right or refused
pub fn charset() {
    let mut m = make();
    let body = m.workbook.clone();
    let k = sym::choose(4);
    let mut bytes: Vec<u8> = Vec::new();
    match k {
        0 => {
            bytes.extend_from_slice(&[0xef, 0xbb, 0xbf]);
            bytes.extend_from_slice(body.as_bytes());
        }
        1 => {
            for c in body.replace("Data", "D\u{e9}").replace("UTF-8", "ISO-8859-1").chars() {
                bytes.push(c as u8);
            }
        }
        2 => {
            bytes.extend_from_slice(&[0xff, 0xfe]);
            for c in body.bytes() {
                bytes.push(c);
                bytes.push(0);
            }
        }
        _ => {
            let raw = sym::bytes(2);
            sym::assume(raw[0] >= 0x80 && raw[1] >= 0x80);
            let at = body.find("Data").unwrap();
            bytes.extend_from_slice(body[..at].as_bytes());
            bytes.extend_from_slice(&raw);
            bytes.extend_from_slice(body[at + 4..].as_bytes());
        }
    }
    m.workbook = String::new();
    let mut parts = m.parts();
    for p in parts.iter_mut() {
        if p.0 == "xl/workbook.xml" {
            p.1 = bytes.clone();
        }
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &parts);
    if let Ok(y) = Excel::new(Some(p.clone()), ExcelPropertiesModel::default()) {
        let q = pkg::path("b.xlsx");
        if y.save_as(&q).is_ok() {
            let b = load(&q);
            let n = &b.sheets[0].name;
            match k {
                0 => same(n, "Data", "sheet names survive a byte order mark"),
                1 => same(n, "D\u{e9}", "sheet names are read in the encoding of their part"),
                2 => same(n, "Data", "sheet names are read in the encoding of their part"),
                _ => {
                    let w = obs::book_of(parts).ok().map(|b| b.sheets[0].name.clone());
                    sym::check(w.as_ref() == Some(n), "bytes that are no text are refused");
                }
            }
        }
    } else {
        sym::check(k != 0, "a byte order mark is accepted");
    }
    sym::reached();
}
/// the same style, sheet and part texts survive a second save
pub fn styles_again() {
    let n = sym::choose(sym::bound(2, 3)) + 1;
    let t = sym::text(n, SHARP);
    let e = esc(&t);
    let mut m = make();
    m.styles = Some(styles(&format!("<numFmts count=\"1\"><numFmt numFmtId=\"164\" formatCode=\"{e}\"/></numFmts><fonts count=\"1\"><font><sz val=\"11\"/><name val=\"{e}\"/></font></fonts><fills count=\"2\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill></fills><borders count=\"1\"><border><left/><right/><top/><bottom/><diagonal/></border></borders><cellStyleXfs count=\"1\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs><cellXfs count=\"2\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/><xf numFmtId=\"164\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"1\"/></cellXfs>")));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut y = open(&p, "a valid workbook opens");
    let mut st = StyleSetting::default();
    st.is_bold = true;
    need(y.get_style_id_mut(st), "a style is registered");
    let b = save(y, "b.xlsx");
    let s = b.styles.as_ref().unwrap();
    let f = s.kid("numFmts").and_then(|f| f.kid("numFmt")).and_then(|f| f.attr("formatCode")).unwrap_or("missing");
    same(f, &t, "texts of an opened style part are kept");
    let f = s.kid("fonts").and_then(|f| f.kid("font")).and_then(|f| f.kid("name")).and_then(|f| f.attr("val")).unwrap_or("missing");
    same(f, &t, "texts of an opened style part are kept");
    sym::reached();
}
