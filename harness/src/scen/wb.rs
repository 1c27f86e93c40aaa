//! The workbook: sheet list, handles, views, active and hidden sheets.
use super::book::{make, sheet, workbook, Make, MAIN, RNS};
use super::cells::TEXT;
use super::common::*;
use crate::obs::{self, Book, Kind};
use crate::xml::Node;
use crate::{pkg, sym};

fn flag(n: Option<&Node>, a: &str, default: bool) -> bool {
    match n.and_then(|n| n.attr(a)) {
        Some(v) => v == "1" || v == "true",
        None => default,
    }
}
fn view(b: &Book) -> Option<&Node> {
    b.wb.kid("bookViews").and_then(|v| v.kids.first())
}
const SETTINGS: [(&str, bool, &str); 4] = [
    ("minimized", false, "the window is minimized exactly when told so"),
    ("showSheetTabs", true, "sheet tabs are hidden exactly when told so"),
    ("showVerticalScroll", true, "the vertical scroll bar is hidden exactly when told so"),
    ("showHorizontalScroll", true, "the horizontal scroll bar is hidden exactly when told so"),
];
fn set(x: &mut Excel, which: usize, v: bool) {
    let r = match which {
        0 => x.minimize_workbook_mut(v),
        1 => x.hide_sheet_tabs_mut(v),
        2 => x.hide_vertical_scroll_mut(v),
        3 => x.hide_horizontal_scroll_mut(v),
        _ => x.set_visibility_mut(v),
    };
    need(r, "a window setting is accepted");
}
fn check_view(b: &Book, want: &[bool; 4], visible: &str) {
    let v = view(b);
    for (i, (a, d, what)) in SETTINGS.iter().enumerate() {
        sym::check(flag(v, a, *d) == want[i], what);
    }
    let got = v.and_then(|v| v.attr("visibility")).unwrap_or("visible");
    sym::check(got == visible, "the window is visible exactly when told so");
}
/// any sequence of window settings on a new workbook
pub fn view_new() {
    let mut x = blank();
    let mut want = [false, true, true, true];
    let mut visible = "visible";
    for _ in 0..sym::bound(3, 4) {
        let which = sym::choose(6);
        if which == 5 {
            continue;
        }
        let v = sym::bool();
        set(&mut x, which, v);
        match which {
            0 => want[0] = v,
            4 => visible = if v { "visible" } else { "hidden" },
            i => want[i] = !v,
        }
    }
    {
        need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
    }
    let b = save(x, "o.xlsx");
    check_view(&b, &want, visible);
    obs::workbook_consistent(&b);
    sym::reached();
}
/// window settings of an opened workbook stay as they are unless set
pub fn view_loaded() {
    let vals = ["", "0", "1", "true", "false"];
    let a = sym::choose(4);
    let v = sym::choose(5);
    let a2 = (a + 1 + sym::choose(sym::bound(2, 3))) % 4;
    let v2 = sym::choose(3);
    let vis = ["visible", "hidden", "veryHidden"][sym::choose(sym::bound(2, 3))];
    let d = sym::text(sym::bound(1, 2), "0123456789");
    let mut at = format!("xWindow=\"-{d}\" yWindow=\"{d}\" windowWidth=\"1{d}\" windowHeight=\"2{d}\" tabRatio=\"6{d}\" visibility=\"{vis}\"");
    if !vals[v].is_empty() {
        at.push_str(&format!(" autoFilterDateGrouping=\"{}\" activeTab=\"0\"", vals[v]));
    }
    for (i, s) in SETTINGS.iter().enumerate() {
        let val = if i == a { vals[v] } else if i == a2 { vals[v2] } else { "" };
        if !val.is_empty() {
            at.push_str(&format!(" {}=\"{}\"", s.0, val));
        }
    }
    let mut m = make();
    m.workbook = workbook(&format!("<bookViews><workbookView {at}/><workbookView xWindow=\"7\" showSheetTabs=\"0\"/></bookViews><sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/></sheets>"));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let mut want = [false; 4];
    for (i, s) in SETTINGS.iter().enumerate() {
        want[i] = flag(view(&first), s.0, s.1);
    }
    let mut visible = vis;
    let mut y = open(&p, "a valid workbook opens");
    let which = sym::choose(6);
    if which < 5 {
        let v = sym::bool();
        set(&mut y, which, v);
        match which {
            0 => want[0] = v,
            4 => visible = if v { "visible" } else { "hidden" },
            i => want[i] = !v,
        }
    }
    let b = save(y, "b.xlsx");
    check_view(&b, &want, visible);
    let (w0, w1) = (view(&first).unwrap(), view(&b));
    for n in ["xWindow", "yWindow", "windowWidth", "windowHeight", "tabRatio"] {
        let got = w1.and_then(|v| v.attr(n)).unwrap_or("").to_string();
        // leading zeros of a number are no difference
        let trim = |s: &str| -> String { if n == "tabRatio" { s.trim_start_matches('0').to_string() } else { s.to_string() } };
        same(&trim(&got), &trim(w0.attr(n).unwrap_or("")), "window settings of an opened workbook are kept");
    }
    sym::check(flag(w1, "autoFilterDateGrouping", true) == flag(Some(w0), "autoFilterDateGrouping", true), "window settings of an opened workbook are kept");
    let others = b.wb.kid("bookViews").map(|v| v.kids.len()).unwrap_or(0);
    sym::check(others == 2, "further windows of an opened workbook are kept");
    if others == 2 {
        let o = &b.wb.kid("bookViews").unwrap().kids[1];
        sym::check(o.attr("xWindow") == Some("7") && o.attr("showSheetTabs") == Some("0"), "further windows of an opened workbook are kept");
    }
    sym::reached();
}

/// a workbook with three sheets and their states, as another program writes it
pub fn three(states: [&str; 3], active: &str) -> Make {
    let mut s = String::new();
    for i in 0..3 {
        let st = if states[i].is_empty() { String::new() } else { format!(" state=\"{}\"", states[i]) };
        s.push_str(&format!("<sheet name=\"S{}\" sheetId=\"{}\"{} r:id=\"rId{}\"/>", i + 1, [4, 2, 9][i], st, i + 1));
    }
    let mut m = make();
    let act = if active.is_empty() { String::new() } else { format!(" activeTab=\"{active}\"") };
    m.workbook = workbook(&format!("<bookViews><workbookView xWindow=\"1\"{act}/></bookViews><sheets>{s}</sheets>"));
    m.sheet1 = sheet("<sheetData><row r=\"1\"><c r=\"A1\"><v>101</v></c></row></sheetData>");
    for i in 2..4 {
        m.extra.push((format!("xl/worksheets/sheet{i}.xml"), sheet(&format!("<sheetData><row r=\"1\"><c r=\"A1\"><v>10{i}</v></c></row></sheetData>")).into_bytes()));
        m.extra_types.push_str(&format!("<Override PartName=\"/xl/worksheets/sheet{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml\"/>"));
        m.extra_wb_rels.push_str(&format!("<Relationship Id=\"rId{i}\" Type=\"{RNS}/worksheet\" Target=\"/xl/worksheets/sheet{i}.xml\"{}/>", if i == 2 { " TargetMode=\"Internal\"" } else { "" }));
    }
    let _ = MAIN;
    m
}
/// name of the sheet shown first
fn active_name(b: &Book) -> Option<String> {
    let t = match view(b).and_then(|v| v.attr("activeTab")) {
        Some(t) => t.parse::<usize>().unwrap_or(usize::MAX),
        None => 0,
    };
    b.sheets.get(t).map(|s| s.name.clone())
}
/// hiding, activating and deleting sheets of an opened workbook
pub fn states() {
    let st = ["", "hidden", "veryHidden", "visible"];
    let k = sym::choose(sym::bound(3, 4));
    let at = if k == 0 { 0 } else { sym::choose(3) };
    let mut s = ["", "", ""];
    s[at] = st[k];
    let act = sym::choose(sym::bound(3, 4));
    let mut m = three(s, ["", "1", "2", "0"][act]);
    if act != 1 {
        m.workbook = m.workbook.replacen("<workbookView ", "<workbookView firstSheet=\"2\" ", 1).replacen("</bookViews>", "<workbookView activeTab=\"2\" firstSheet=\"1\"/></bookViews>", 1);
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut y = open(&p, "a valid workbook opens");
    let mut names = ["S1".to_string(), "S2".to_string(), "S3".to_string()];
    let mut active = [0, 1, 2, 0][act];
    let mut touched = false;
    let mut gone = [false; 3];
    let mut hid = [k == 1 && at == 0, k == 1 && at == 1, k == 1 && at == 2];
    for _ in 0..sym::bound(2, 3) {
        let op = sym::choose(5);
        let i = if op == 3 { 0 } else { sym::choose(3) };
        match op {
            0 => {
                let ok = y.hide_sheet_mut(names[i].clone()).is_ok();
                sym::check(ok != gone[i], "exactly the sheets of the workbook can be hidden");
                hid[i] = hid[i] || ok;
            }
            1 => {
                let ok = y.set_active_sheet_mut(names[i].clone()).is_ok();
                sym::check(ok != gone[i], "exactly the sheets of the workbook can be made active");
                if ok {
                    active = i;
                    touched = true;
                }
            }
            2 => {
                let left = gone.iter().filter(|g| !**g).count();
                if gone[i] || left == 1 {
                    continue;
                }
                let ws = need(y.get_worksheet_mut(names[i].clone()), "a valid sheet opens");
                need(ws.delete_sheet_mut(), "a sheet can be deleted");
                gone[i] = true;
            }
            4 => {
                let to = format!("R{}", i);
                let ok = y.rename_sheet_name_mut(names[i].clone(), to.clone()).is_ok();
                sym::check(ok == (!gone[i] && names[i] != to) || names[i] == to, "exactly the sheets of the workbook can be renamed");
                if ok {
                    names[i] = to;
                }
            }
            _ => {
                sym::check(y.hide_sheet_mut("None".to_string()).is_err(), "exactly the sheets of the workbook can be hidden");
                sym::check(y.set_active_sheet_mut("None".to_string()).is_err(), "exactly the sheets of the workbook can be made active");
            }
        }
    }
    let b = save(y, "b.xlsx");
    let mut n = 0;
    for i in 0..3 {
        let sh = b.sheet(&names[i]);
        sym::check(sh.is_some() != gone[i], "exactly the sheets not deleted are stored");
        if let Some(sh) = sh {
            n += 1;
            let was = if k == 3 && at == i { "" } else { s[i] };
            let want = if was == "veryHidden" { "veryHidden" } else if hid[i] { "hidden" } else { "" };
            let got = if sh.state == "visible" { "" } else { sh.state.as_str() };
            sym::check(got == want, "sheets are hidden exactly when they were or were told so");
            sym::check(sh.sheet_id == ["4", "2", "9"][i], "sheets of an opened workbook keep their identifier");
            sym::check(b.at(&names[i], "A1").1 == ["101", "102", "103"][i], "every sheet keeps its content");
        }
    }
    sym::check(b.sheets.len() == n, "exactly the sheets not deleted are stored");
    if !gone[active] {
        sym::check(active_name(&b).as_deref() == Some(names[active].as_str()), "the active sheet stays the one chosen");
    } else {
        sym::check(active_name(&b).is_some(), "the active sheet exists");
    }
    let _ = touched;
    obs::consistent(&b.parts);
    obs::workbook_consistent(&b);
    sym::reached();
}
/// histories of adding, renaming, deleting and opening sheets of a new workbook
pub fn history() {
    run_history(blank(), vec![("sheet1".to_string(), 0)], false);
}
/// the same on an opened workbook
pub fn history_loaded() {
    let m = three(["", "hidden", ""], "1");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let y = open(&p, "a valid workbook opens");
    run_history(y, vec![("S1".to_string(), 101), ("S2".to_string(), 102), ("S3".to_string(), 103)], true);
}
fn run_history(mut x: Excel, mut model: Vec<(String, u32)>, loaded: bool) {
    let steps = sym::bound(3, 4);
    for step in 0..steps {
        let mark = 200 + step as u32;
        let op = sym::choose(4);
        match op {
            // add under a name: an existing sheet of that name is opened
            0 => {
                let name = if sym::bool() { sym::text(1, "AB").to_string() } else { "sheet1".to_string() };
                let mut ws = need(x.add_sheet_mut(Some(name.clone())), "a sheet can be added");
                need(ws.set_row_value_index_mut(1, 1, vec![num(&mark.to_string())]), "write a cell");
                match model.iter().position(|s| s.0 == name) {
                    Some(i) => model[i].1 = mark,
                    None => model.push((name, mark)),
                }
            }
            // add without a name
            1 => {
                let name;
                {
                    let mut ws = need(x.add_sheet_mut(None), "a sheet can be added");
                    need(ws.set_row_value_index_mut(1, 1, vec![num(&mark.to_string())]), "write a cell");
                }
                let l = need(x.list_sheet_names(), "sheet names can be listed");
                sym::check(l.len() == model.len() + 1, "a sheet added without a name is a new sheet");
                name = l.last().cloned().unwrap_or_default();
                sym::check(model.iter().all(|s| s.0 != name) && !name.is_empty(), "a sheet added without a name gets a name of its own");
                model.push((name, mark));
            }
            2 => {
                let to = sym::text(1, "AB").to_string();
                let i = sym::choose(3);
                let from = if i < model.len() { model[i].0.clone() } else { "Missing".to_string() };
                let ok = x.rename_sheet_name_mut(from, to.clone()).is_ok();
                let taken = model.iter().any(|s| s.0 == to);
                sym::check(ok == (i < model.len() && !taken), "a sheet is renamed exactly when it exists and the new name is free");
                if ok && i < model.len() {
                    model[i].0 = to;
                }
            }
            _ => {
                let i = sym::choose(3);
                if i >= model.len() {
                    sym::check(x.get_worksheet_mut("Missing".to_string()).is_err(), "asking for a sheet that does not exist is an error");
                    continue;
                }
                if model.len() == 1 {
                    continue;
                }
                let ws = need(x.get_worksheet_mut(model[i].0.clone()), "a sheet of the list can be opened");
                need(ws.delete_sheet_mut(), "a sheet can be deleted");
                model.remove(i);
            }
        }
        let l = need(x.list_sheet_names(), "sheet names can be listed");
        sym::check(l.len() == model.len(), "the sheet list holds exactly the sheets added and not deleted");
        for (a, b) in l.iter().zip(model.iter()) {
            same(a, &b.0, "the sheet list is in order and has the names given");
        }
    }
    if model.is_empty() {
        need(x.add_sheet_mut(Some("Last".to_string())), "a sheet can be added");
        model.push(("Last".to_string(), 0));
    }
    let b = save(x, "o.xlsx");
    let l = need(open(&pkg::path("o.xlsx"), "a saved workbook opens again").list_sheet_names(), "sheet names can be listed");
    sym::check(l.len() == model.len(), "the saved workbook lists the same sheets when it is opened");
    for (a, m) in l.iter().zip(model.iter()) {
        same(a, &m.0, "the saved workbook lists the same sheets when it is opened");
    }
    sym::check(b.sheets.len() == model.len(), "the saved workbook has exactly the sheets of the list");
    for (s, (name, mark)) in b.sheets.iter().zip(model.iter()) {
        same(&s.name, name, "the saved sheets are in order and have the names given");
        if *mark > 0 {
            let c = b.cell(s, "A1").map(|c| b.value(c));
            sym::check(c == Some((Kind::Number, mark.to_string())), "every sheet holds what was written to it");
        } else {
            sym::check(b.cells(s) == 0, "every sheet holds what was written to it");
        }
    }
    let sheets = b.parts.iter().filter(|p| p.0.starts_with("xl/worksheets/") && p.0.ends_with(".xml")).count();
    sym::check(sheets == model.len(), "deleted sheets leave no part behind");
    let _ = loaded;
    obs::consistent(&b.parts);
    obs::workbook_consistent(&b);
    sym::reached();
}
/// writing through several handles, opened and closed in any order
pub fn handles() {
    let mut x = blank();
    let names = ["A", "B"];
    let mut want: [[Option<u32>; 3]; 2] = Default::default();
    let mut made = [false; 2];
    let mut open: [Option<draviavemal_openxml_office::spreadsheet_2007::parts::WorkSheet>; 2] = [None, None];
    for step in 0..sym::bound(4, 5) {
        let i = sym::choose(2);
        if open[i].is_none() {
            // open it
            let r = if !made[i] || sym::bool() { x.add_sheet_mut(Some(names[i].to_string())) } else { x.get_worksheet_mut(names[i].to_string()) };
            open[i] = Some(need(r, "a sheet can be opened again once closed"));
            made[i] = true;
        }
        let row = sym::choose(sym::bound(2, 3));
        let mark = 300 + step as u32;
        if let Some(ws) = open[i].as_mut() {
            need(ws.set_row_value_index_mut(row as u32 + 1, 2, vec![num(&mark.to_string())]), "write a cell");
        }
        want[i][row] = Some(mark);
        if step + 1 == sym::bound(4, 5) || sym::bool() {
            open[i] = None;
        }
    }
    open[0] = None;
    open[1] = None;
    let b = save(x, "o.xlsx");
    for i in 0..2 {
        sym::check(b.sheet(names[i]).is_some() == made[i], "exactly the sheets added are stored");
        if made[i] {
            for r in 0..3 {
                let got = b.at(names[i], ["B1", "B2", "B3"][r]);
                let w = match want[i][r] {
                    Some(m) => (Kind::Number, m.to_string()),
                    None => (Kind::Empty, String::new()),
                };
                sym::check(got == w, "everything written through any handle is stored");
            }
        }
    }
    obs::consistent(&b.parts);
    sym::reached();
}
/// a second handle on an open sheet, or saving with an open handle, never loses what was written
pub fn handle_twice() {
    let mut x = new();
    let loaded = sym::bool();
    if loaded {
        let m = three(["", "", ""], "");
        let p = pkg::path("a.xlsx");
        pkg::write(&p, &m.parts());
        x = open(&p, "a valid workbook opens");
    }
    let name = if loaded { "S2" } else { "A" };
    let mut a = need(if loaded { x.get_worksheet_mut(name.to_string()) } else { x.add_sheet_mut(Some(name.to_string())) }, "a sheet can be opened");
    let early = sym::bool();
    if early {
        need(a.set_row_value_index_mut(2, 1, vec![num("1")]), "write a cell");
    }
    let second = sym::choose(3);
    let mut wrote = false;
    let r = match second {
        0 => Some(x.add_sheet_mut(Some(name.to_string()))),
        1 => Some(x.get_worksheet_mut(name.to_string())),
        _ => None,
    };
    if let Some(Ok(mut w)) = r {
        wrote = w.set_row_value_index_mut(3, 1, vec![num("2")]).is_ok();
    }
    let late = sym::bool();
    if late {
        need(a.set_row_value_index_mut(4, 1, vec![num("3")]), "write a cell");
    }
    let p = pkg::path("o.xlsx");
    let kept = sym::bool();
    if kept {
        let r = x.save_as(&p);
        drop(a);
        if r.is_err() {
            sym::check(pkg::read(&p).is_none(), "a refused save writes nothing");
            sym::reached();
            return;
        }
    } else {
        drop(a);
        need(x.save_as(&p), "saving succeeds");
    }
    let b = load(&p);
    for (on, r, v) in [(early, "A2", "1"), (wrote, "A3", "2"), (late, "A4", "3")] {
        if on {
            sym::check(b.at(name, r).1 == v, "what was written through a handle is stored or refused");
        }
    }
    if loaded {
        sym::check(b.at(name, "A1").1 == "102", "every sheet keeps its content");
    }
    obs::consistent(&b.parts);
    sym::reached();
}
/// attributes that say something
fn telling(n: &Node) -> Vec<&(String, String)> {
    n.attrs.iter().filter(|a| a.0 != "spans" && a.0 != "t" && a.1 != "0" && a.1 != "false").collect()
}
/// two sheets say the same to a reader
fn same_sheet(got: &Book, want: &Book, name: &str, what: &str) {
    let (g, w) = match (got.sheet(name), want.sheet(name)) {
        (Some(g), Some(w)) => (g, w),
        _ => return sym::check(false, what),
    };
    sym::check(g.root.kids.len() == w.root.kids.len(), what);
    for k in &w.root.kids {
        if k.name != "sheetData" {
            same_node_opt(g.root.kid(&k.name), Some(k), what);
        }
    }
    let none = Vec::new();
    let (gr, wr) = (g.root.kid("sheetData").map(|d| &d.kids).unwrap_or(&none), w.root.kid("sheetData").map(|d| &d.kids).unwrap_or(&none));
    sym::check(gr.len() == wr.len(), what);
    for (a, b) in gr.iter().zip(wr.iter()) {
        let (x, y) = (telling(a), telling(b));
        sym::check(x.len() == y.len() && y.iter().all(|t| a.attr(&t.0) == Some(t.1.as_str())), what);
        sym::check(a.kids.len() == b.kids.len(), what);
        for (c, d) in a.kids.iter().zip(b.kids.iter()) {
            let (x, y) = (telling(c), telling(d));
            sym::check(x.len() == y.len() && y.iter().all(|t| c.attr(&t.0) == Some(t.1.as_str())), what);
            same_value(&got.value(c), &want.value(d), what);
            same_node_opt(c.kid("f"), d.kid("f"), what);
        }
    }
}
/// a sheet that is closed and opened again, or saved and opened again, stays the sheet it is
pub fn reopened() {
    let k = sym::choose(8);
    let f = sym::choose(4);
    let wide = sym::bound(0, 1) == 1;
    let dt = [CellDataType::Number, CellDataType::Boolean, CellDataType::String, CellDataType::ShareString, CellDataType::InlineString, CellDataType::Error, CellDataType::Date, CellDataType::Auto][k].clone();
    let t = match k {
        0 => sym::text(2, "0123456789"),
        1 => sym::text(1, "01"),
        5 => "#N/A".to_string(),
        6 => "2024-02-03".to_string(),
        _ if f == 0 || wide => sym::text(1, TEXT),
        _ => " a<".to_string(),
    };
    let formula = match f {
        0 => None,
        1 if k == 0 || wide => Some(sym::text(1, TEXT)),
        _ => Some("A1&\"<\"".to_string()),
    };
    sym::assume(f != 1 || k == 0 || wide);
    let empty = f == 3;
    let extra = sym::choose(4);
    let via = sym::choose(4);
    sym::assume(sym::bound(0, 1) == 1 || (extra % 3 == 0 && via % 3 == 0) || (k == 1 && !empty));
    let fill = |x: &mut Excel| -> () {
        let mut st = StyleSetting::default();
        st.is_bold = true;
        let id = if extra == 3 { Some(need(x.get_style_id_mut(st), "a style is registered")) } else { None };
        let mut ws = need(x.add_sheet_mut(Some("A".to_string())), "a sheet can be added");
        let mut c = cell(&t, dt.clone());
        c.formula = formula.clone();
        c.style_id = id.clone();
        if empty {
            c.value = None;
        }
        need(ws.set_row_value_ref_mut("B2", vec![num("1"), c, num("2")]), "write cells");
        need(ws.set_row_value_ref_mut("A9", vec![cell("x", CellDataType::ShareString)]), "write cells");
        if extra == 1 || extra == 3 {
            let mut p = RowProperties::default();
            p.height = Some(20.25);
            p.hidden = Some(true);
            p.thick_top = Some(true);
            p.thick_bottom = Some(true);
            p.style_id = id.clone();
            need(ws.set_row_index_properties_mut(&3, p), "set row properties");
        }
        if extra == 2 || extra == 3 {
            let mut p = ColumnProperties::default();
            p.width = Some(12.5);
            p.hidden = Some(true);
            p.best_fit = Some(true);
            p.style_id = id;
            need(ws.set_column_index_properties_mut(&2, Some(p)), "set column properties");
        }
    };
    let mut x = blank();
    fill(&mut x);
    let plain = save(x, "o.xlsx");
    let mut y = blank();
    fill(&mut y);
    match via {
        0 => drop(need(y.get_worksheet_mut("A".to_string()), "a sheet can be opened again once closed")),
        1 => drop(need(y.add_sheet_mut(Some("A".to_string())), "a sheet can be opened again once closed")),
        2 => {
            drop(need(y.get_worksheet_mut("A".to_string()), "a sheet can be opened again once closed"));
            drop(need(y.get_worksheet_mut("A".to_string()), "a sheet can be opened again once closed"));
        }
        _ => {
            y = open(&pkg::path("o.xlsx"), "a saved workbook opens again");
            drop(need(y.get_worksheet_mut("A".to_string()), "a saved sheet opens again"));
        }
    }
    let again = save(y, "p.xlsx");
    same_sheet(&again, &plain, "A", "a sheet closed and opened again is the same");
    obs::consistent(&again.parts);
    sym::reached();
}

/// a name of one to three characters; names that differ only a little are different sheets
fn near(max: usize) -> String {
    let n = sym::text(1 + sym::choose(max), "AB ");
    sym::assume(n.starts_with('A') || n.starts_with('B'));
    n
}
/// every operation that takes a name reaches exactly the sheet of that name
pub fn near_names() {
    let one = near(sym::bound(1, 2));
    let two = near(2);
    let asked = near(sym::bound(2, 3));
    sym::assume(one != two);
    let mut m = three(["", "", ""], "");
    m.workbook = workbook(&format!("<bookViews><workbookView xWindow=\"1\" activeTab=\"2\"/></bookViews><sheets><sheet name=\"{one}\" sheetId=\"4\" r:id=\"rId1\"/><sheet name=\"{two}\" sheetId=\"2\" r:id=\"rId2\"/><sheet name=\"Last\" sheetId=\"9\" r:id=\"rId3\"/></sheets>"));
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut x = open(&p, "a valid workbook opens");
    let mut want = vec![(one.clone(), "101"), (two.clone(), "102"), ("Last".to_string(), "103")];
    let hit = if asked == one { Some(0) } else if asked == two { Some(1) } else { None };
    let mut hidden = None;
    let mut active = 2;
    match sym::choose(6) {
        0 => {
            {
                let mut ws = need(x.add_sheet_mut(Some(asked.clone())), "a sheet can be added");
                need(ws.set_row_value_index_mut(1, 1, vec![num("7")]), "write a cell");
            }
            match hit {
                Some(i) => want[i].1 = "7",
                None => want.push((asked, "7")),
            }
        }
        1 => {
            // the last sheet gets the name
            let ok = x.rename_sheet_name_mut("Last".to_string(), asked.clone()).is_ok();
            sym::check(ok == hit.is_none(), "a sheet is renamed exactly when it exists and the new name is free");
            if ok {
                want[2].0 = asked;
            }
        }
        2 => {
            // the sheet of the name gets another
            let ok = x.rename_sheet_name_mut(asked, "New".to_string()).is_ok();
            sym::check(ok == hit.is_some(), "a sheet is renamed exactly when it exists and the new name is free");
            if let (true, Some(i)) = (ok, hit) {
                want[i].0 = "New".to_string();
            }
        }
        3 => {
            sym::check(x.hide_sheet_mut(asked).is_ok() == hit.is_some(), "exactly the sheets of the workbook can be hidden");
            hidden = hit;
        }
        4 => {
            sym::check(x.set_active_sheet_mut(asked).is_ok() == hit.is_some(), "exactly the sheets of the workbook can be made active");
            active = hit.unwrap_or(2);
        }
        _ => {
            let r = x.get_worksheet_mut(asked);
            sym::check(r.is_ok() == hit.is_some(), "a sheet is found exactly under its name");
            if let (Ok(ws), Some(i)) = (r, hit) {
                need(ws.delete_sheet_mut(), "a sheet can be deleted");
                want.remove(i);
                active = 1;
            }
        }
    }
    let b = save(x, "b.xlsx");
    sym::check(b.sheets.len() == want.len(), "the saved workbook has exactly the sheets of the list");
    for (i, (s, (name, v))) in b.sheets.iter().zip(want.iter()).enumerate() {
        same(&s.name, name, "the saved sheets are in order and have the names given");
        let c = b.cell(s, "A1").map(|c| b.value(c));
        sym::check(c == Some((Kind::Number, v.to_string())), "every sheet holds what was written to it");
        sym::check((s.state == "hidden") == (hidden == Some(i)), "sheets are hidden exactly when they were or were told so");
    }
    let at = view(&b).and_then(|v| v.attr("activeTab")).unwrap_or("0").parse::<usize>();
    sym::check(at == Ok(active), "the active sheet stays the one chosen");
    obs::workbook_consistent(&b);
    sym::reached();
}
