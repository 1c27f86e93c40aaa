use super::book::{esc, make, sheet, sst};
use super::common::*;
use crate::obs::{self, Kind};
use crate::{pkg, sym};

/// Printable characters and XML's white space: everything a cell may hold
pub const TEXT: &str = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\t\n";

/// the decimal numbers a worksheet may hold
fn is_decimal(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let mut digits = 0;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
        digits += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
            digits += 1;
        }
    }
    if digits == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == st {
            return false;
        }
    }
    i == b.len()
}

fn check_auto(t: &str) {
    let mut x = blank();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        need(ws.set_row_value_ref_mut("B2", vec![cell(t, CellDataType::Auto)]), "write a cell");
    }
    let b = save(x, "o.xlsx");
    let (k, v) = b.at("Data", "B2");
    let finite = t.parse::<f64>().map(|f| f.is_finite()).unwrap_or(false);
    if is_decimal(t) && finite {
        sym::check(k == Kind::Number, "text that is a finite decimal number is stored as a number");
        same(&v, t, "the stored number reads back as written");
    } else if t == "true" || t == "false" {
        sym::check(k == Kind::Bool, "true and false are stored as booleans");
        same(&v, if t == "true" { "1" } else { "0" }, "the stored boolean has the value written");
    } else {
        sym::check(k == Kind::Text, "text that is neither a number nor a boolean is stored as text");
        same(&v, t, "the stored text reads back as written");
    }
    sym::reached();
}
/// automatic typing of any text
pub fn auto() {
    let n = sym::choose(sym::bound(4, 6));
    check_auto(&sym::text(n, TEXT));
}
/// automatic typing of anything that looks like a number
pub fn auto_number() {
    let n = sym::choose(sym::bound(5, 7)) + 1;
    let t = match sym::choose(3) {
        0 => sym::text(n, "019.eE+-"),
        1 => sym::text(n, "infatyINFnT"),
        _ => ["true", "false", "TRUE", "False", "NaN", "inf", "-infinity", "1e999", "-1e400", "1_000", "0x10", " 1", "1 ", "١"][sym::choose(14)].to_string(),
    };
    check_auto(&t);
}
/// values written with a declared type
pub fn typed() {
    let n = sym::choose(sym::bound(3, 5));
    let k = sym::choose(6);
    let t = if k == 0 { ["0", "-1.5", "1E+10", "007"][sym::choose(4)].to_string() } else { sym::text(n, TEXT) };
    let ty = [CellDataType::Number, CellDataType::Boolean, CellDataType::String, CellDataType::ShareString, CellDataType::InlineString, CellDataType::Error][k];
    let mut x = new();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        need(ws.set_row_value_ref_mut("C7", vec![cell(&t, ty)]), "write a cell");
    }
    let b = save(x, "o.xlsx");
    let (kk, v) = b.at("Data", "C7");
    match k {
        0 => {
            sym::check(kk == Kind::Number, "a number is stored as a number");
            same(&v, &t, "the stored number reads back as written");
        }
        1 => {
            sym::check(kk == Kind::Bool, "a boolean is stored as a boolean");
            let l = t.to_lowercase();
            let want = if l == "false" || l == "0" || l.is_empty() { "0" } else { "1" };
            same(&v, want, "the stored boolean has the value written");
        }
        5 => {
            sym::check(kk == Kind::Error, "an error value is stored as an error");
            same(&v, &t, "the stored error reads back as written");
        }
        _ => {
            sym::check(kk == Kind::Text, "text is stored as text");
            same(&v, &t, "the stored text reads back as written");
        }
    }
    sym::check(b.cells(b.sheet("Data").unwrap()) == 1, "no other cell appears");
    sym::reached();
}
/// formulas keep their text and cached value
pub fn formula() {
    let n = sym::choose(sym::bound(2, 4)) + 1;
    let f = sym::text(n, TEXT);
    let k = sym::choose(4);
    let mut c = CellProperties::default();
    c.formula = Some(f.clone());
    match k {
        0 => {}
        1 => {
            c.value = Some("12".to_string());
            c.data_type = CellDataType::Number;
        }
        2 => {
            c.value = Some(sym::text(sym::bound(1, 2), TEXT));
            c.data_type = CellDataType::String;
        }
        _ => {
            c.value = Some("true".to_string());
            c.data_type = CellDataType::Boolean;
        }
    }
    let v = c.value.clone().unwrap_or_default();
    let mut x = blank();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        need(ws.set_row_value_ref_mut("A1", vec![c]), "write a formula");
    }
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    match b.cell(s, "A1") {
        None => sym::check(false, "the formula cell is stored"),
        Some(c) => {
            match c.kid("f") {
                Some(g) => same(&g.text, &f, "the stored formula reads back as written"),
                None => sym::check(false, "the stored formula reads back as written"),
            }
            let (kk, t) = b.value(c);
            match k {
                0 => sym::check(kk == Kind::Empty, "a formula without a cached value has none"),
                1 => sym::check(kk == Kind::Number && t == v, "a formula keeps its cached number"),
                2 => same_value(&(kk, t), &(Kind::Text, v), "a formula keeps its cached text"),
                _ => sym::check(kk == Kind::Bool && t == "1", "a formula keeps its cached boolean"),
            }
        }
    }
    sym::reached();
}
/// the last write to a cell wins and no other cell changes
pub fn overwrite() {
    let mut x = blank();
    let names = ["A", "B", "C", "D", "E", "F", "G", "H"];
    let mut want: [[Option<String>; 8]; 3] = Default::default();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        let writes = sym::bound(3, 4);
        for w in 0..writes {
            let row = sym::choose(2);
            let col = sym::choose(sym::bound(2, 3));
            let len = sym::choose(sym::bound(2, 3)) + 1;
            let mut cells = Vec::new();
            for i in 0..len {
                let t = format!("v{}{}", w, i);
                want[row][col + i] = Some(t.clone());
                cells.push(cell(&t, if (w + i) % 2 == 0 { CellDataType::ShareString } else { CellDataType::InlineString }));
            }
            need(ws.set_row_value_index_mut(row as u32 + 1, col as u16 + 1, cells), "write a row");
        }
    }
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    for r in 0..3 {
        for c in 0..8 {
            let got = b.cell(s, &format!("{}{}", names[c], r + 1)).map(|c| b.value(c).1);
            sym::check(got == want[r][c], "every cell holds the last value written to it");
        }
    }
    sym::check(obs::ordered(s), "rows and cells are in ascending order");
    sym::reached();
}
/// cells of a saved workbook survive opening it, writing elsewhere and saving again
pub fn reload() {
    let touch = sym::choose(3);
    let n = if touch == 2 { sym::choose(sym::bound(2, 4)) + 1 } else { sym::bound(1, 2) };
    let t = sym::text(n, TEXT);
    let k = sym::choose(4);
    let ty = [CellDataType::ShareString, CellDataType::InlineString, CellDataType::String, CellDataType::Boolean][k];
    let mut x = blank();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        let mut f = cell("5", CellDataType::Number);
        f.formula = Some(t.clone());
        need(ws.set_row_value_ref_mut("B2", vec![cell(&t, ty), f, num("-2.5")]), "write cells");
    }
    let p = pkg::path("a.xlsx");
    need(x.save_as(&p), "saving succeeds");
    let first = load(&p);
    let mut y = open(&p, "a saved workbook opens again");
    if touch > 0 {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
        if touch == 2 {
            need(ws.set_row_value_ref_mut("B9", vec![cell("new text", CellDataType::ShareString)]), "write another cell");
        }
    }
    let b = save(y, "b.xlsx");
    for r in ["B2", "C2", "D2"] {
        same_value(&b.at("Data", r), &first.at("Data", r), "cells keep their value and kind through opening and saving again");
    }
    let f = b.sheet("Data").and_then(|s| b.cell(s, "C2")).and_then(|c| c.kid("f")).map(|f| f.text.clone());
    match f {
        Some(f) => same(&f, &t, "formulas survive opening and saving again"),
        None => sym::check(false, "formulas survive opening and saving again"),
    }
    if touch == 2 {
        sym::check(b.at("Data", "B9") == (Kind::Text, "new text".to_string()), "a cell added to an opened sheet is stored");
    }
    obs::consistent(&b.parts);
    obs::workbook_consistent(&b);
    sym::reached();
}
/// cells of a file written by another program survive an edit elsewhere in the sheet
pub fn loaded() {
    let n = sym::choose(sym::bound(2, 4));
    let t = sym::text(n, TEXT);
    let e = esc(&t);
    let k = sym::choose(9);
    let c = match k {
        0 => format!("<c r=\"B2\" t=\"s\"><v>1</v></c>"),
        1 => format!("<c r=\"B2\" t=\"inlineStr\"><is><t xml:space=\"preserve\">{e}</t></is></c>"),
        2 => format!("<c r=\"B2\" t=\"str\"><f>{e}</f><v>{e}</v></c>"),
        3 => "<c r=\"B2\"><v>1.25</v></c>".to_string(),
        4 => "<c r=\"B2\" t=\"b\"><v>1</v></c>".to_string(),
        5 => "<c r=\"B2\" t=\"e\"><v>#DIV/0!</v></c>".to_string(),
        6 => "<c r=\"B2\" t=\"n\"><v>3</v></c>".to_string(),
        7 => "<c r=\"B2\" t=\"d\"><v>2024-01-02T03:04:05</v></c>".to_string(),
        _ => "<c r=\"B2\" s=\"0\"/>".to_string(),
    };
    let mut m = make();
    m.sst = Some(sst(&format!("<si><t>zero</t></si><si><t xml:space=\"preserve\">{e}</t></si>")));
    m.sheet1 = sheet(&format!("<sheetData><row r=\"2\"><c r=\"A2\"><v>7</v></c>{c}</row></sheetData>"));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut("D2", vec![cell("zero", CellDataType::ShareString)]), "write another cell");
    }
    let b = save(y, "b.xlsx");
    let was = first.at("Data", "B2");
    let now = b.at("Data", "B2");
    same_value(&now, &was, if k == 7 { "a date cell keeps its value and kind" } else { "cells of an opened file keep their value and kind" });
    sym::check(b.at("Data", "A2") == first.at("Data", "A2"), "neighbouring cells are kept");
    sym::check(b.at("Data", "D2") == (Kind::Text, "zero".to_string()), "the new cell is stored");
    sym::reached();
}
/// constructs of cells that another program writes
pub fn loaded_rich() {
    let k = sym::choose(10);
    let d = if k == 5 { sym::text(1, "19") } else { String::new() };
    let meta = format!("<c r=\"B2\" cm=\"1{d}\" vm=\"{d}2\"><v>4</v></c>");
    let (c, r) = match k {
        0 => ("<c r=\"B2\" t=\"inlineStr\"><is><r><t>ab</t></r><r><rPr><b/></rPr><t>cd</t></r></is></c>", "B2"),
        1 => ("<c r=\"B2\"><f t=\"shared\" ref=\"B2:B3\" si=\"0\">A1*2</f><v>1</v></c>", "B2"),
        2 => ("<c r=\"B2\"><f t=\"array\" ref=\"B2:C3\">A1:A2*2</f><v>1</v></c>", "B2"),
        3 => ("<c><v>9</v></c>", "B2"),
        4 => ("<c r=\"B2\" t=\"s\"><v>0</v></c>", "B2"),
        5 => (meta.as_str(), "B2"),
        6 => ("<c r=\"B2\" ph=\"1\"><v>4</v></c>", "B2"),
        7 => ("<c r=\"B2\" ph=\"true\"><v>4</v></c>", "B2"),
        8 => ("<c r=\"B2\" ph=\"0\"><v>4</v></c>", "B2"),
        _ => ("</row><row><c/><c><v>9</v></c></row><row r=\"5\"><c><v>8</v></c></row><row><c r=\"C6\"><v>6</v></c>", "B3"),
    };
    let mut m = make();
    m.sst = Some(sst("<si><r><t>ri</t></r><r><rPr><b/></rPr><t>ch</t></r></si><si><t>x</t></si>"));
    m.sheet1 = sheet(&format!("<sheetData><row r=\"2\"><c r=\"A2\"><v>7</v></c>{c}</row></sheetData>"));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let what = ["a sheet with rich inline text is kept", "a shared formula is kept", "an array formula is kept", "a cell without an explicit reference is kept", "rich shared text is kept", "cell metadata is kept", "a cell shows its readings as before", "a cell shows its readings as before", "a cell shows its readings as before", "a row without an explicit number is kept"][k];
    let mut y = open(&p, "a valid workbook opens");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), what);
        need(ws.set_row_value_ref_mut("D2", vec![cell("x", CellDataType::ShareString)]), "write another cell");
    }
    let b = save(y, "b.xlsx");
    if k != 3 && k != 9 {
        sym::check(first.at("Data", r) == b.at("Data", r), what);
    } else {
        sym::check(b.at("Data", r) == (Kind::Number, "9".to_string()), what);
    }
    if k == 9 {
        sym::check(b.at("Data", "A5").1 == "8" && b.at("Data", "C6").1 == "6" && b.at("Data", "B3").1 == "9", what);
    }
    let c = b.sheet("Data").and_then(|s| b.cell(s, r));
    if let Some(c) = c {
        if k == 1 || k == 2 {
            let f = c.kid("f");
            sym::check(f.map(|f| f.attrs.len()) == Some(if k == 1 { 3 } else { 2 }) && f.and_then(|f| f.attr("ref")).is_some(), what);
        }
        if k == 5 {
            same(c.attr("cm").unwrap_or(""), &format!("1{d}"), what);
            same(c.attr("vm").unwrap_or(""), &format!("{d}2"), what);
        }
        sym::check(matches!(c.attr("ph"), Some("1") | Some("true")) == (k == 6 || k == 7), what);
    }
    sym::check(b.at("Data", "D2") == (Kind::Text, "x".to_string()), "the new cell is stored");
    sym::reached();
}

/// column letters of an index, by an independent method
fn letters(mut c: u32) -> String {
    let mut v = Vec::new();
    while c > 0 {
        v.push(b'A' + ((c - 1) % 26) as u8);
        c = (c - 1) / 26;
    }
    v.reverse();
    String::from_utf8(v).unwrap()
}
/// a cell written through a textual reference lands exactly there
pub fn place_ref() {
    let n = sym::choose(3) + 1;
    let l = sym::text(n, if n == 3 { ["AEFXZ", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"][sym::bound(0, 1)] } else { "ABCDEFGHIJKLMNOPQRSTUVWXYZ" });
    let row = [1u32, 9, 10, 99999, 1048576][sym::choose(5)];
    let r = format!("{}{}", l, row);
    let mut x = blank();
    let ok = {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        let cells = vec![num("1"), num("2")];
        ws.set_row_value_ref_mut(&r, cells).is_ok()
    };
    let c = obs::col_of(&r);
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    if c < 16384 {
        sym::check(ok, "every reference inside the sheet is accepted");
        let cs = s.root.kid("sheetData").map(|d| &d.kids).filter(|k| k.len() == 1).map(|k| &k[0].kids);
        match cs {
            Some(cs) if cs.len() == 2 => {
                sym::check(cs[0].attr("r") == Some(r.as_str()), "the first value lands at the given reference");
                sym::check(cs[0].kid("v").map(|v| v.text.as_str()) == Some("1"), "the first value lands at the given reference");
                let next = cs[1].attr("r").unwrap_or("");
                sym::check(obs::col_of(next) == c + 1 && obs::row_of(next) == row, "following values land in the following columns");
            }
            _ => sym::check(false, "exactly the cells written are stored"),
        }
    } else {
        sym::check(!ok, "a reference or run past the last column is refused");
        sym::check(b.cells(s) == 0, "a refused write stores nothing");
    }
    sym::reached();
}
/// a cell written through indices lands exactly there
pub fn place_index() {
    let row = sym::u32();
    let col = sym::u16();
    let mut x = blank();
    let ok = {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        ws.set_row_value_index_mut(row, col, vec![num("1")]).is_ok()
    };
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    if row >= 1 && row <= 1048576 && col >= 1 && col <= 16384 {
        sym::check(ok, "every position inside the sheet is accepted");
        let want = format!("{}{}", letters(col as u32), row);
        let d = s.root.kid("sheetData").unwrap();
        sym::check(d.kids.len() == 1 && d.kids[0].kids.len() == 1, "exactly the cells written are stored");
        sym::check(d.kids[0].attr("r") == Some(row.to_string().as_str()), "the row has the given number");
        sym::check(d.kids[0].kids[0].attr("r") == Some(want.as_str()), "the cell has the given position");
    } else {
        sym::check(!ok, "a position outside the sheet is refused");
        sym::check(b.cells(s) == 0, "a refused write stores nothing");
    }
    sym::reached();
}
/// arbitrary text used as a reference either names a cell or is refused
pub fn bad_ref() {
    let n = sym::choose(sym::bound(4, 6));
    let r = match sym::choose(4) {
        0 => sym::ascii(n),
        1 => sym::text(n, "ABZ019$:"),
        2 => ["É1", "A１", "ß2", "A1:B2", "R1C1", "Sheet1!A1", "A99999999999", "AAAAAAAA1", "ZZZZ1", "XFE1", "A0", "A1048577", "A01"][sym::choose(13)].to_string(),
        _ => format!("{}{}", sym::text(n, "AZ"), ["1", "0", ""][sym::choose(3)]),
    };
    let mut x = blank();
    let ok = {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        ws.set_row_value_ref_mut(&r, vec![num("1")]).is_ok()
    };
    // is it a reference?
    let b = r.as_bytes();
    let mut i = 0;
    let mut c = 0u32;
    while i < b.len() && b[i].is_ascii_alphabetic() && i < 4 {
        c = c * 26 + (b[i].to_ascii_uppercase() - b'A') as u32 + 1;
        i += 1;
    }
    let st = i;
    let mut row = 0u32;
    while i < b.len() && b[i].is_ascii_digit() && i < st + 8 {
        row = row * 10 + (b[i] - b'0') as u32;
        i += 1;
    }
    let valid = i == b.len() && c >= 1 && c <= 16384 && row >= 1 && row <= 1048576 && b[st] != b'0';
    let bk = save(x, "o.xlsx");
    let s = bk.sheet("Data").unwrap();
    if valid {
        sym::check(ok, "every reference inside the sheet is accepted");
        sym::check(bk.cell(s, &r.to_ascii_uppercase()).is_some(), "the value lands at the given reference");
    } else if ok {
        // leading zeros are the only other spelling of a position
        let lenient = i == b.len() && c >= 1 && c <= 16384 && row >= 1 && row <= 1048576;
        sym::check(lenient, "text that is no cell reference is refused");
    } else {
        sym::check(bk.cells(s) == 0, "a refused write stores nothing");
    }
    sym::reached();
}
/// rows and cells are stored in ascending order whatever the order of writing, and the dimension covers them
pub fn order() {
    let mut x = blank();
    let k = sym::bound(2, 3);
    let mut pos: Vec<(u32, u16)> = Vec::new();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        // all rows in one column, or all columns in one row
        let by_row = sym::bool();
        for i in 0..k {
            let (mut row, mut col) = (10, 27);
            if by_row {
                row = sym::u32();
                sym::assume(row >= 1 && row <= 1048576);
            } else {
                col = sym::u16();
                sym::assume(col >= 1 && col <= 16384);
            }
            need(ws.set_row_value_index_mut(row, col, vec![num(&i.to_string())]), "write a cell");
            pos.push((row, col));
        }
    }
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    sym::check(obs::ordered(s), "rows and cells are in ascending order");
    dimension(s);
    sym::reached();
}
pub fn dimension(s: &obs::Sheet) {
    let mut n = 0;
    let (mut r0, mut r1, mut c0, mut c1) = (u32::MAX, 0, u32::MAX, 0);
    if let Some(d) = s.root.kid("sheetData") {
        for row in &d.kids {
            for c in &row.kids {
                let r = c.attr("r").unwrap_or("");
                let (a, b) = (obs::row_of(r), obs::col_of(r));
                r0 = r0.min(a);
                r1 = r1.max(a);
                c0 = c0.min(b);
                c1 = c1.max(b);
                n += 1;
            }
        }
    }
    sym::check(s.root.all("dimension").len() <= 1, "a sheet has one dimension");
    if let Some(d) = s.root.kid("dimension") {
        let d = d.attr("ref").unwrap_or("");
        let (a, z) = match d.find(':') {
            Some(i) => (&d[..i], &d[i + 1..]),
            None => (d, d),
        };
        let (ac, ar, zc, zr) = (obs::col_of(a), obs::row_of(a), obs::col_of(z), obs::row_of(z));
        sym::check(ac >= 1 && ar >= 1 && ac <= zc && ar <= zr, "the dimension is a range");
        if n > 0 {
            sym::check(ar <= r0 && zr >= r1 && ac <= c0 && zc >= c1, "the dimension covers every cell");
        }
    }
}
/// the same for a sheet that already has rows
pub fn order_loaded() {
    let mut m = make();
    m.sheet1 = sheet("<dimension ref=\"B2:D5\"/><sheetData><row r=\"2\"><c r=\"B2\"><v>1</v></c><c r=\"D2\"><v>2</v></c></row><row r=\"4\" ht=\"30\" customHeight=\"1\"/><row r=\"5\"><c r=\"C5\"><v>3</v></c></row></sheetData>");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut y = open(&p, "a valid workbook opens");
    let row = sym::choose(7) as u32;
    let col = sym::choose(6) as u16;
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        if row > 0 && col > 0 {
            need(ws.set_row_value_index_mut(row, col, vec![num("9")]), "write a cell");
        }
    }
    let b = save(y, "b.xlsx");
    let s = b.sheet("Data").unwrap();
    sym::check(obs::ordered(s), "rows and cells are in ascending order");
    dimension(s);
    for (r, v) in [("B2", "1"), ("D2", "2"), ("C5", "3")] {
        if r != format!("{}{}", letters(col as u32), row) {
            sym::check(b.at("Data", r) == (Kind::Number, v.to_string()), "cells of an opened file keep their value and kind");
        }
    }
    if row > 0 && col > 0 {
        sym::check(b.at("Data", &format!("{}{}", letters(col as u32), row)) == (Kind::Number, "9".to_string()), "the new cell is stored");
    }
    sym::reached();
}
/// a cell of some kind (its text is fixed), with or without a formula and a style
fn some_cell(k: usize, id: &StyleId) -> CellProperties {
    let kinds = [
        ("7", CellDataType::Number),
        ("true", CellDataType::Boolean),
        ("a<b", CellDataType::String),
        ("c&d", CellDataType::ShareString),
        (" e ", CellDataType::InlineString),
        ("#REF!", CellDataType::Error),
        ("2024-02-03", CellDataType::Date),
        ("FALSE", CellDataType::Auto),
        ("1e5", CellDataType::Auto),
        ("text", CellDataType::Auto),
    ];
    let (t, ty) = kinds[k % 10].clone();
    let mut c = cell(t, ty);
    if k >= 10 {
        c.formula = Some(format!("\"{}\"&A9", k));
        c.style_id = Some(id.clone());
    }
    if k == 20 {
        c.value = None;
    }
    if k == 21 {
        c = CellProperties::default();
    }
    c
}
/// a cell written again says what it would say if it had been written once
pub fn replaced() {
    let first = sym::choose(34);
    let second = sym::choose(22);
    let via = if first < 22 { sym::choose(3) } else { 2 };
    sym::assume(sym::bound(0, 1) == 1 || first >= 22 || second % 10 == (first + via) % 10 || first % 10 == 3 || second % 10 == (first * 3 + 1) % 10);
    let bold = |x: &mut Excel| {
        let mut st = StyleSetting::default();
        st.is_bold = true;
        need(x.get_style_id_mut(st), "a style is registered")
    };
    // what it says written once
    let mut x = blank();
    let id = bold(&mut x);
    {
        let mut ws = need(x.get_worksheet_mut("sheet1".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut("B2", vec![some_cell(second, &id)]), "write a cell");
    }
    let once = save(x, "once.xlsx");
    // and written over another one
    let mut y = if first < 22 {
        blank()
    } else {
        let forms = [
            "<c r=\"B2\" t=\"array\"><f t=\"array\" ref=\"B2\">SUM(C1:C2*D1:D2)</f><v>1</v></c>",
            "<c r=\"B2\" t=\"str\"><f>A1</f><v>x</v></c>",
            "<c r=\"B2\" t=\"inlineStr\"><is><r><rPr><b/></rPr><t>rich</t></r></is></c>",
            "<c r=\"B2\" cm=\"1\" vm=\"1\" ph=\"1\"><v>3</v></c>",
            "<c r=\"B2\" s=\"0\"/>",
            "<c r=\"B2\" t=\"b\"><v>1</v></c>",
            "<c r=\"B2\" t=\"e\"><f>1/0</f><v>#DIV/0!</v></c>",
            "<c r=\"B2\" t=\"n\"><f ca=\"1\">NOW()</f><v>4</v></c>",
            "<c r=\"B2\" t=\"d\"><v>2020-01-01</v></c>",
            "<c r=\"B2\"><f t=\"dataTable\" ref=\"B2\" dt2D=\"1\" r1=\"A1\" r2=\"A2\"/><v>4</v></c>",
            "<c r=\"B2\"><v>4</v><extLst><ext uri=\"u\"/></extLst></c>",
            "<c r=\"B2\" t=\"str\"><v></v></c>",
        ];
        let mut m = make();
        m.workbook = super::book::workbook("<sheets><sheet name=\"sheet1\" sheetId=\"1\" r:id=\"rId1\"/></sheets>");
        m.sheet1 = sheet(&format!("<sheetData><row r=\"2\">{}</row></sheetData>", forms[first - 22].replace(" t=\"array\"><f", "><f")));
        let p = pkg::path("a.xlsx");
        pkg::write(&p, &m.parts());
        open(&p, "a valid workbook opens")
    };
    let id = bold(&mut y);
    if first < 22 {
        let mut ws = need(y.get_worksheet_mut("sheet1".to_string()), "a valid sheet opens");
        need(ws.set_row_value_ref_mut("B2", vec![some_cell(first, &id)]), "write a cell");
        if via == 0 {
            need(ws.set_row_value_ref_mut("B2", vec![some_cell(second, &id)]), "write a cell");
        }
    }
    if via == 2 && first < 22 {
        let p = pkg::path("b.xlsx");
        need(y.save_as(&p), "saving succeeds");
        y = open(&p, "a saved workbook opens again");
    }
    if via > 0 {
        let mut ws = need(y.get_worksheet_mut("sheet1".to_string()), "a sheet opens again");
        need(ws.set_row_value_ref_mut("B2", vec![some_cell(second, &id)]), "write a cell");
    }
    let b = save(y, "c.xlsx");
    let (g, w) = (b.sheet("sheet1").unwrap(), once.sheet("sheet1").unwrap());
    let what = "a cell written again says what it would say if written once";
    same_value(&b.at("sheet1", "B2"), &once.at("sheet1", "B2"), what);
    if let (Some(c), Some(d)) = (b.cell(g, "B2"), once.cell(w, "B2")) {
        same_node_opt(c.kid("f"), d.kid("f"), what);
        sym::check(c.attr("cm").is_none() && c.attr("vm").is_none() && c.attr("ph").is_none(), what);
        match c.kid("f") {
            Some(f) => sym::check(f.text == format!("\"{}\"&A9", second), "a cell has the formula it was given last"),
            None => sym::check(second < 10 || second == 21, "a cell has the formula it was given last"),
        }
        sym::check(second < 10 || second == 21 || super::style::id_of(Some(c)) > 0, "a cell written again has its style");
        sym::check(c.kids.iter().all(|k| d.kid(&k.name).is_some()), what);
    } else {
        sym::check(b.cell(g, "B2").is_none() == once.cell(w, "B2").is_none(), what);
    }
    sym::check(b.cells(g) == once.cells(w), "no other cell appears");
    obs::consistent(&b.parts);
    sym::reached();
}
