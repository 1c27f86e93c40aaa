//! Row and column properties.
use super::book::{make, sheet, styles};
use super::common::*;
use crate::obs;
use crate::xml::Node;
use crate::{pkg, sym};

/// value of an optional boolean attribute
fn flag(n: &Node, a: &str) -> bool {
    match n.attr(a) {
        Some(v) => v == "1" || v == "true",
        None => false,
    }
}
fn tri(k: usize) -> Option<bool> {
    match k {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    }
}
const HEIGHTS: [(f32, &str); 5] = [(15.0, "15"), (0.0, "0"), (20.25, "20.25"), (409.5, "409.5"), (0.75, "0.75")];

struct Want {
    height: Option<usize>,
    hidden: Option<bool>,
    top: Option<bool>,
    bottom: Option<bool>,
    style: Option<String>,
}
fn any_row() -> Want {
    let edges = sym::choose(sym::bound(3, 9));
    Want {
        height: [None, Some(2), Some(0), Some(1), Some(3), Some(4)][sym::choose(sym::bound(3, 6))],
        hidden: tri(sym::choose(3)),
        top: [None, Some(true), None, Some(false), Some(true), None, Some(false), Some(true), Some(false)][edges],
        bottom: [None, None, Some(true), None, Some(true), Some(false), Some(false), Some(false), Some(true)][edges],
        style: None,
    }
}
fn props(w: &Want) -> RowProperties {
    let mut p = RowProperties::default();
    p.height = w.height.map(|h| HEIGHTS[h].0);
    p.hidden = w.hidden;
    p.thick_top = w.top;
    p.thick_bottom = w.bottom;
    p
}
fn check_row(r: Option<&Node>, w: &Want) {
    let r = match r {
        Some(r) => r,
        None => return sym::check(false, "a row with properties is stored"),
    };
    match w.height {
        Some(h) => sym::check(r.attr("ht") == Some(HEIGHTS[h].1) && flag(r, "customHeight"), "a row has the height given"),
        None => sym::check(r.attr("ht").is_none() || !flag(r, "customHeight"), "a row without a height given has none"),
    }
    sym::check(flag(r, "hidden") == (w.hidden == Some(true)), "a row is hidden exactly when told so");
    sym::check(flag(r, "thickTop") == (w.top == Some(true)), "a row has a thick top exactly when told so");
    sym::check(flag(r, "thickBot") == (w.bottom == Some(true)), "a row has a thick bottom exactly when told so");
    match &w.style {
        Some(s) => sym::check(r.attr("s") == Some(s.as_str()) && flag(r, "customFormat"), "a row has the style given"),
        None => sym::check(!flag(r, "customFormat"), "a row without a style given has none"),
    }
}
/// any properties on any row, with or without cells, before or after the cells
pub fn row_new() {
    let row = sym::u32();
    let order = sym::choose(3);
    let w = any_row();
    let mut x = blank();
    let ok = {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        if order == 1 {
            let _ = ws.set_row_value_index_mut(row, 3, vec![num("5")]);
        }
        let ok = ws.set_row_index_properties_mut(&row, props(&w)).is_ok();
        if order == 2 {
            let _ = ws.set_row_value_index_mut(row, 3, vec![num("5")]);
        }
        ok
    };
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    let inside = row >= 1 && row <= 1048576;
    sym::check(ok == inside, "row properties are accepted exactly inside the sheet");
    if inside {
        let d = s.root.kid("sheetData").unwrap();
        sym::check(d.kids.len() == 1, "no other row appears");
        sym::check(d.kids[0].attr("r") == Some(row.to_string().as_str()), "the row has the given number");
        check_row(Some(&d.kids[0]), &w);
        sym::check(d.kids[0].kids.len() == (order != 0) as usize, "cells and row properties do not affect each other");
        if order != 0 {
            sym::check(d.kids[0].kids[0].kid("v").map(|v| v.text.as_str()) == Some("5"), "cells and row properties do not affect each other");
        }
    }
    sym::check(obs::ordered(s), "rows and cells are in ascending order");
    sym::reached();
}
/// a sequence of settings on few rows: the last one counts, other rows are untouched, also after opening again
pub fn row_history() {
    let mut x = blank();
    let sid = need(x.get_style_id_mut(bold()), "get a style");
    let n = sym::bound(2, 3);
    let mut want: [Option<Want>; 3] = [None, None, None];
    let mut hist = Vec::new();
    for _ in 0..n {
        let row = sym::choose(3);
        let styled = sym::bool();
        let mut w = any_row_small();
        if styled {
            w.style = Some(sid.get_id().to_string());
        }
        hist.push((row, w));
    }
    let reopen = sym::bool();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        need(ws.set_row_value_index_mut(2, 1, vec![num("1")]), "write a cell");
        for (row, w) in hist {
            let mut p = props(&w);
            if w.style.is_some() {
                p.style_id = Some(sid.clone());
            }
            need(ws.set_row_index_properties_mut(&(row as u32 + 1), p), "set row properties");
            want[row] = Some(w);
        }
    }
    let mut b = save(x, "o.xlsx");
    if reopen {
        let mut y = open(&pkg::path("o.xlsx"), "a saved workbook opens again");
        {
            let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
            need(ws.set_row_value_index_mut(2, 2, vec![num("2")]), "write a cell");
        }
        b = save(y, "p.xlsx");
        sym::check(b.at("Data", "B2").1 == "2", "a cell added to an opened sheet is stored");
    }
    let s = b.sheet("Data").unwrap();
    for i in 0..3 {
        let r = b.row(s, ["1", "2", "3"][i]);
        match &want[i] {
            Some(w) => check_row(r, w),
            None => {
                if let Some(r) = r {
                    check_row(Some(r), &Want { height: None, hidden: None, top: None, bottom: None, style: None });
                }
            }
        }
    }
    sym::check(b.at("Data", "A2").1 == "1", "cells and row properties do not affect each other");
    sym::check(obs::ordered(s), "rows and cells are in ascending order");
    sym::reached();
}
fn any_row_small() -> Want {
    let k = sym::choose(sym::bound(4, 6));
    Want {
        height: if k == 1 { Some(2) } else { None },
        hidden: if k == 2 { Some(true) } else if k == 4 { Some(false) } else { None },
        top: if k == 3 { Some(true) } else { None },
        bottom: if k == 5 { Some(true) } else { None },
        style: None,
    }
}
pub fn bold() -> StyleSetting {
    let mut s = StyleSetting::default();
    s.is_bold = true;
    s
}
/// attributes of rows in an opened sheet survive edits of cells and of other rows
pub fn row_loaded() {
    let k = sym::choose(12);
    let d = sym::text(1, "123456789");
    let attr = match k {
        0 => format!("ht=\"{d}.5\" customHeight=\"1\""),
        1 => format!("ht=\"{d}.5\""),
        2 => "hidden=\"1\"".to_string(),
        3 => "hidden=\"true\"".to_string(),
        4 => "hidden=\"0\"".to_string(),
        5 => "outlineLevel=\"2\" collapsed=\"1\"".to_string(),
        6 => "s=\"1\" customFormat=\"1\"".to_string(),
        7 => "s=\"1\" customFormat=\"true\"".to_string(),
        8 => "thickTop=\"1\" thickBot=\"1\" ph=\"1\"".to_string(),
        9 => format!("spans=\"1:{d}\" x14ac:dyDescent=\"0.{d}\""),
        10 => format!("ht=\"{d}\" customHeight=\"true\""),
        _ => String::new(),
    };
    let mut m = make();
    m.styles = Some(styles(TWO_STYLES));
    m.sheet1 = format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<worksheet xmlns=\"{}\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\"><sheetData><row r=\"2\" {attr}><c r=\"B2\"><v>1</v></c></row><row r=\"4\" {attr}/></sheetData></worksheet>",
        super::book::MAIN
    );
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    let edit = sym::choose(5);
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        match edit {
            0 => {}
            1 => need(ws.set_row_value_index_mut(2, 4, vec![num("9")]), "write a cell"),
            2 => need(ws.set_row_value_index_mut(4, 4, vec![num("9")]), "write a cell"),
            3 => need(ws.set_row_value_index_mut(3, 4, vec![num("9")]), "write a cell"),
            _ => {
                let mut r = RowProperties::default();
                r.hidden = Some(true);
                need(ws.set_row_index_properties_mut(&3, r), "set row properties");
            }
        }
    }
    let b = save(y, "b.xlsx");
    let (s0, s1) = (first.sheet("Data").unwrap(), b.sheet("Data").unwrap());
    for r in ["2", "4"] {
        let was = first.row(s0, r).unwrap();
        match b.row(s1, r) {
            None => sym::check(false, "a row with properties is stored"),
            Some(now) => {
                for (n, v) in &was.attrs {
                    let got = now.attr(n);
                    if ["hidden", "customFormat", "customHeight", "collapsed", "thickTop", "thickBot", "ph"].contains(&n.as_str()) {
                        sym::check(flag(now, n) == flag(was, n), "rows of an opened sheet keep their properties");
                    } else {
                        match got {
                            None => sym::check(false, "rows of an opened sheet keep their properties"),
                            Some(g) => same(g, v, "rows of an opened sheet keep their properties"),
                        }
                    }
                }
                for f in ["hidden", "customFormat", "customHeight", "collapsed"] {
                    sym::check(flag(now, f) == flag(was, f), "rows of an opened sheet gain no properties");
                }
            }
        }
    }
    sym::check(b.at("Data", "B2") == first.at("Data", "B2"), "neighbouring cells are kept");
    if edit == 4 {
        sym::check(b.row(s1, "3").map(|r| flag(r, "hidden")) == Some(true), "a row is hidden exactly when told so");
    }
    sym::reached();
}
pub const TWO_STYLES: &str = "<fonts count=\"1\"><font><sz val=\"11\"/><name val=\"Calibri\"/></font></fonts><fills count=\"2\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill></fills><borders count=\"1\"><border><left/><right/><top/><bottom/><diagonal/></border></borders><cellStyleXfs count=\"1\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs><cellXfs count=\"2\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/><xf numFmtId=\"14\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"1\"/></cellXfs><cellStyles count=\"1\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/></cellStyles>";

// ------------------------------------------------------------------------------------------------ columns
/// the entry of the column list that covers a column
fn col_of<'a>(s: &'a obs::Sheet, c: u32) -> Option<&'a Node> {
    for k in &s.root.kid("cols")?.kids {
        let lo = k.attr("min").unwrap_or("").parse::<u32>().unwrap_or(0);
        let hi = k.attr("max").unwrap_or("").parse::<u32>().unwrap_or(0);
        if lo <= c && c <= hi {
            return Some(k);
        }
    }
    None
}
/// the column list is sorted, without overlap and inside the sheet
fn cols_valid(s: &obs::Sheet) {
    let mut last = 0;
    sym::check(s.root.all("cols").len() <= 1, "a sheet has one column list");
    if let Some(cs) = s.root.kid("cols") {
        sym::check(!cs.kids.is_empty(), "a column list is not empty");
        for k in &cs.kids {
            let lo = k.attr("min").unwrap_or("").parse::<u32>().unwrap_or(0);
            let hi = k.attr("max").unwrap_or("").parse::<u32>().unwrap_or(0);
            sym::check(last < lo && lo <= hi && hi <= 16384, "the column list is sorted, without overlap and inside the sheet");
            last = hi;
        }
    }
}
fn column(w: usize, hidden: Option<bool>, best: Option<bool>) -> ColumnProperties {
    let mut c = ColumnProperties::default();
    c.width = if w == 0 { None } else { Some(WIDTHS[w - 1].0) };
    c.hidden = hidden;
    c.best_fit = best;
    c
}
const WIDTHS: [(f32, &str); 4] = [(10.0, "10"), (0.0, "0"), (33.5, "33.5"), (255.0, "255")];
fn check_col(k: Option<&Node>, w: usize, hidden: Option<bool>, best: Option<bool>) {
    match k {
        None => sym::check(w == 0 && hidden != Some(true) && best != Some(true), "a column has the properties given"),
        Some(k) => {
            if w > 0 {
                sym::check(k.attr("width") == Some(WIDTHS[w - 1].1) && flag(k, "customWidth"), "a column has the width given");
            } else {
                sym::check(!flag(k, "customWidth"), "a column without a width given has none");
            }
            sym::check(flag(k, "hidden") == (hidden == Some(true)), "a column is hidden exactly when told so");
            sym::check(flag(k, "bestFit") == (best == Some(true)), "a column fits its content exactly when told so");
        }
    }
}
/// properties of any column of a new sheet
pub fn col_new() {
    let col = sym::u16();
    let w = sym::choose(5);
    let hidden = tri(sym::choose(3));
    let best = tri(sym::choose(sym::bound(2, 3)));
    let mut x = blank();
    let ok = {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        ws.set_column_index_properties_mut(&col, Some(column(w, hidden, best))).is_ok()
    };
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    let inside = col >= 1 && col <= 16384;
    sym::check(ok == inside, "column properties are accepted exactly inside the sheet");
    cols_valid(s);
    if inside {
        match s.root.kid("cols").map(|c| &c.kids) {
            None => check_col(None, w, hidden, best),
            Some(k) => {
                let me = col.to_string();
                sym::check(k.len() == 1 && k[0].attr("min") == Some(me.as_str()) && k[0].attr("max") == Some(me.as_str()), "column properties apply to exactly that column");
                check_col(Some(&k[0]), w, hidden, best);
            }
        }
    } else {
        sym::check(s.root.kid("cols").is_none(), "a refused setting stores nothing");
    }
    sym::reached();
}
/// a column given by a reference is that column
pub fn col_ref() {
    let n = sym::choose(3) + 1;
    let l = sym::text(n, if n == 3 { ["AFXZ", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"][sym::bound(0, 1)] } else { "ABCDEFGHIJKLMNOPQRSTUVWXYZ" });
    let r = match sym::choose(3) {
        0 => format!("{}1", l),
        1 => format!("{}77", l),
        _ => format!("{}1048576", l),
    };
    let mut x = blank();
    let ok = {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        ws.set_column_ref_properties_mut(&r, Some(column(1, None, None))).is_ok()
    };
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    let c = obs::col_of(&l);
    sym::check(ok == (c <= 16384), "column properties are accepted exactly inside the sheet");
    if c <= 16384 {
        match s.root.kid("cols").map(|c| &c.kids) {
            None => sym::check(false, "a column has the properties given"),
            Some(k) => {
                let v = k[0].attr("min").unwrap_or("").parse::<u32>().unwrap_or(0);
                sym::check(k.len() == 1 && v == c && k[0].attr("max") == k[0].attr("min"), "column properties apply to exactly that column");
            }
        }
    }
    sym::reached();
}
/// a range of columns in an opened sheet: a setting changes that column and no other
pub fn col_loaded() {
    let mut m = make();
    m.sheet1 = sheet("<cols><col min=\"3\" max=\"9\" width=\"20.5\" customWidth=\"1\" outlineLevel=\"1\"/><col min=\"10\" max=\"10\" width=\"9\" hidden=\"true\"/><col min=\"12\" max=\"16384\" width=\"8.5\" bestFit=\"1\" style=\"0\"/></cols><sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c></row></sheetData>");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut y = open(&p, "a valid workbook opens");
    let n = sym::choose(sym::bound(1, 3)) + 1;
    let mut sets: Vec<(u16, usize)> = Vec::new();
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        for _ in 0..n {
            let c = sym::u16();
            sym::assume(c >= 1 && c <= 16384);
            let kind = sym::choose(sym::bound(2, 3));
            let pr = match kind {
                0 => Some(column(3, None, None)),
                1 => None,
                _ => Some(column(0, Some(true), None)),
            };
            need(ws.set_column_index_properties_mut(&c, pr), "set column properties");
            sets.push((c, kind));
        }
    }
    let b = save(y, "b.xlsx");
    let (s0, s1) = (first.sheet("Data").unwrap(), b.sheet("Data").unwrap());
    cols_valid(s1);
    // any column at all
    let q = sym::u16();
    sym::assume(q >= 1 && q <= 16384);
    let mut kind = 9;
    for (c, k) in &sets {
        if *c == q {
            kind = *k;
        }
    }
    let now = col_of(s1, q as u32);
    match kind {
        0 => check_col(now, 3, None, None),
        1 => check_col(now, 0, None, None),
        2 => check_col(now, 0, Some(true), None),
        _ => match (col_of(s0, q as u32), now) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                for (n, v) in &a.attrs {
                    if n == "min" || n == "max" {
                        continue;
                    }
                    if n == "hidden" || n == "bestFit" || n == "customWidth" {
                        sym::check(flag(b, n) == flag(a, n), "other columns keep their properties");
                    } else {
                        sym::check(b.attr(n) == Some(v.as_str()), "other columns keep their properties");
                    }
                }
                for f in ["hidden", "bestFit", "customWidth"] {
                    sym::check(flag(b, f) == flag(a, f), "other columns gain no properties");
                }
            }
            _ => sym::check(false, "other columns keep their properties"),
        },
    }
    sym::check(b.at("Data", "A1") == first.at("Data", "A1"), "neighbouring cells are kept");
    sym::reached();
}
/// a history of settings on few columns of a new sheet, before and after opening the saved file
pub fn col_history() {
    let mut x = blank();
    let sid = need(x.get_style_id_mut(bold()), "get a style");
    // columns next to each other and apart, each side of a letter's end
    let at = [2u16, 3, 27, 1, 26];
    let mut want: [(usize, Option<bool>, Option<bool>, bool); 5] = [(0, None, None, false); 5];
    let n = sym::bound(3, 4);
    let split = sym::choose(n) + 1;
    {
        need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
    }
    for step in 0..n {
        if step == split {
            x = {
                let p = pkg::path("o.xlsx");
                need(x.save_as(&p), "saving succeeds");
                open(&p, "a saved workbook opens again")
            };
        }
        let i = sym::choose(sym::bound(3, 5));
        let kind = if step == 0 { [1, 4][sym::choose(2)] } else { [0, 2, 3, 4, 5][sym::choose(5)] };
        let (w, hidden, best, styled) = [(1, None, None, false), (3, None, None, false), (0, Some(true), None, false), (0, None, Some(true), false), (1, None, None, true), (0, None, None, false)][kind];
        let mut ws = need(x.get_worksheet_mut("Data".to_string()), "a sheet of the list can be opened");
        let mut c = column(w, hidden, best);
        if styled {
            c.style_id = Some(sid.clone());
        }
        need(ws.set_column_index_properties_mut(&at[i], if kind == 5 { None } else { Some(c) }), "set column properties");
        want[i] = (w, hidden, best, styled);
    }
    let b = save(x, "p.xlsx");
    let s = b.sheet("Data").unwrap();
    cols_valid(s);
    for c in 1..30u32 {
        let k = col_of(s, c);
        let (w, hidden, best, styled) = match at.iter().position(|a| *a as u32 == c) {
            Some(i) => want[i],
            None => (0, None, None, false),
        };
        check_col(k, w, hidden, best);
        let id = super::style::id_of_col(k);
        sym::check((id != 0) == styled && (!styled || id == sid.get_id() as usize), "a column has the style given");
    }
    sym::reached();
}
/// properties and cells of many rows: each row has its own
pub fn rows_many() {
    let mut x = blank();
    let pick = sym::u32();
    sym::assume(pick >= 1 && pick <= 1048576);
    let h = sym::choose(2);
    let rows = [1u32, 2, 9, 10, 11, 99, 100, 1000, 65536, 65537, 1048576];
    let first = sym::bool();
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        for r in rows {
            let mut p = RowProperties::default();
            p.height = Some(HEIGHTS[h].0);
            if first {
                need(ws.set_row_index_properties_mut(&r, p), "set row properties");
                need(ws.set_row_value_index_mut(r, 2, vec![num(&r.to_string())]), "write a cell");
            } else {
                need(ws.set_row_value_index_mut(r, 2, vec![num(&r.to_string())]), "write a cell");
                need(ws.set_row_index_properties_mut(&r, p), "set row properties");
            }
        }
        let mut p = RowProperties::default();
        p.hidden = Some(true);
        need(ws.set_row_index_properties_mut(&pick, p), "set row properties");
    }
    let b = save(x, "o.xlsx");
    let s = b.sheet("Data").unwrap();
    sym::check(obs::ordered(s), "rows and cells are in ascending order");
    super::cells::dimension(s);
    let me = pick.to_string();
    match b.row(s, &me) {
        Some(r) => sym::check(flag(r, "hidden"), "a row is hidden exactly when told so"),
        None => sym::check(false, "a row with properties is stored"),
    }
    let mut n = rows.len();
    for r in rows {
        let t = r.to_string();
        let k = match b.row(s, &t) {
            Some(k) => k,
            None => {
                sym::check(false, "a row with cells is stored");
                continue;
            }
        };
        if r != pick {
            check_row(Some(k), &Want { height: Some(h), hidden: None, top: None, bottom: None, style: None });
        } else {
            n -= 1;
        }
        sym::check(k.kids.len() == 1 && k.kids[0].kid("v").map(|v| v.text == t) == Some(true), "cells and row properties do not affect each other");
    }
    sym::check(s.root.kid("sheetData").unwrap().kids.len() == n + 1, "no other row appears");
    sym::reached();
}
