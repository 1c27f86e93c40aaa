//! The functions other languages call.  The tables they read and the crate that parses them are stand-ins
//! (`harness/fbs`, `harness/flatbuffers`); everything else is the code of /repo/rs_ffi.
use super::common::*;
use super::wb::three;
use crate::document::word::{word_create, word_save_as};
use crate::obs;
use crate::presentation::power_point::{power_point_create, power_point_save_as};
use crate::spreadsheet::excel::*;
use crate::{pkg, sym};
use draviavemal_openxml_office::document_2007::{Word, WordPropertiesModel};
use draviavemal_openxml_office::global_2007::traits::Enum;
use draviavemal_openxml_office::presentation_2007::{PowerPoint, PowerPointPropertiesModel};
use std::ffi::{c_char, c_void, CStr, CString};
use std::ptr::null_mut;

type Out = *mut c_void;
type Text = *const c_char;

fn c(s: &str) -> CString {
    need(CString::new(s), "no zero byte")
}
/// the text of an error, None when there is none
fn said(e: Text) -> Option<String> {
    if e.is_null() {
        None
    } else {
        Some(unsafe { CStr::from_ptr(e) }.to_string_lossy().into_owned())
    }
}
fn nowhere() -> Text {
    null_mut::<c_char>() as Text
}
/// the code and the text a call reports fit what the library did
fn fits(code: i8, e: Text, lib: Option<String>, what: &str) {
    match lib {
        None => {
            sym::check(code == 0, what);
            sym::check(e.is_null(), "a call that worked reports no error");
        }
        Some(t) => {
            sym::check(code != 0, what);
            match said(e) {
                Some(x) => sym::check(x.contains(&t), "a call that failed tells why"),
                None => sym::check(false, "a call that failed tells why"),
            }
        }
    }
}
fn why<T>(r: anyhow::Result<T>) -> Option<String> {
    match r {
        Ok(_) => None,
        Err(e) => Some(e.to_string()),
    }
}
fn create(from: Option<&str>, code: &mut i8, e: &mut Text) -> Out {
    let b = [7u8, 1, 1];
    let mut x: Out = null_mut();
    let name = from.map(c);
    *code = excel_create(name.as_ref().map_or(nowhere(), |n| n.as_ptr()), b.as_ptr(), 3, &mut x, e);
    x
}
/// calls on a workbook do what the library does, and say so
pub fn calls() {
    let m = three(["", "", ""], "");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut e = nowhere();
    let mut code = 0;
    let x = create(Some(&p), &mut code, &mut e);
    sym::check(code == 0 && !x.is_null(), "a valid workbook opens");
    sym::assume(code == 0 && !x.is_null());
    let mut y = open(&p, "a valid workbook opens");
    let mut left = Vec::new();
    for _ in 0..sym::bound(2, 3) {
        let n = sym::choose(3);
        let a = if n == 2 { format!("S{}", sym::text(1, "123/")) } else { sym::text(n, "S2b:") };
        let mut w: Out = null_mut();
        let mut e = nowhere();
        match sym::choose(5) {
            0 => {
                let code = excel_add_sheet(x, c(&a).as_ptr(), &mut w, &mut e);
                let r = y.add_sheet_mut(Some(a.clone()));
                sym::check((code == 0) == !w.is_null(), "a sheet is handed out when it was added");
                match r {
                    Ok(h) => {
                        left.push(h);
                        fits(code, e, None, "adding a sheet reports what happened");
                    }
                    Err(r) => fits(code, e, Some(r.to_string()), "adding a sheet reports what happened"),
                }
            }
            1 => {
                let code = excel_add_sheet(x, nowhere(), &mut w, &mut e);
                match y.add_sheet_mut(None) {
                    Ok(h) => {
                        left.push(h);
                        fits(code, e, None, "adding a sheet reports what happened");
                    }
                    Err(r) => fits(code, e, Some(r.to_string()), "adding a sheet reports what happened"),
                }
            }
            2 => {
                let b = format!("S{}", sym::text(1, "129"));
                let code = excel_rename_sheet(x, c(&b).as_ptr(), c(&a).as_ptr(), &mut e);
                fits(code, e, why(y.rename_sheet_name_mut(b, a)), "renaming a sheet reports what happened");
            }
            3 => {
                let code = excel_hide_sheet(x, c(&a).as_ptr(), &mut e);
                fits(code, e, why(y.hide_sheet_mut(a)), "hiding a sheet reports what happened");
            }
            _ => {
                let code = excel_get_sheet(x, c(&a).as_ptr(), &mut w, &mut e);
                sym::check((code == 0) == !w.is_null(), "a sheet is handed out when it was found");
                match y.get_worksheet_mut(a) {
                    Ok(h) => {
                        left.push(h);
                        fits(code, e, None, "opening a sheet reports what happened");
                    }
                    Err(r) => fits(code, e, Some(r.to_string()), "opening a sheet reports what happened"),
                }
            }
        }
    }
    let q = pkg::path("o.xlsx");
    let l = pkg::path("l.xlsx");
    let mut e = nowhere();
    let code = excel_save_as(x, c(&q).as_ptr(), &mut e);
    let r = why(y.save_as(&l));
    let ok = r.is_none();
    fits(code, e, r, "saving reports what happened");
    if ok {
        let a = load(&q);
        let b = load(&l);
        obs::consistent(&a.parts);
        sym::check(a.sheets.len() == b.sheets.len(), "the calls have the effect of the library's");
        for (s, t) in a.sheets.iter().zip(b.sheets.iter()) {
            sym::check(s.name == t.name && s.path == t.path && s.state == t.state, "the calls have the effect of the library's");
        }
        for (n, _) in b.parts.iter() {
            if n.starts_with("xl/worksheets/") || n == "xl/workbook.xml" || n == "xl/styles.xml" {
                same_node_opt(obs::doc(&a.parts, n).as_ref(), obs::doc(&b.parts, n).as_ref(), "the calls have the effect of the library's");
            }
        }
    }
    sym::reached();
}
/// the number of sheets of a new workbook
fn blank_sheets() -> usize {
    let p = pkg::path("blank.xlsx");
    need(new().save_as(&p), "saving succeeds");
    load(&p).sheets.len()
}
/// a workbook made by calls alone can be saved
pub fn made() {
    let mut e = nowhere();
    let mut code = 0;
    let x = create(None, &mut code, &mut e);
    sym::check(code == 0 && !x.is_null(), "a new workbook can be created");
    sym::assume(code == 0 && !x.is_null());
    let n = sym::choose(3);
    let mut names = Vec::new();
    for i in 0..n {
        let mut w: Out = null_mut();
        let name = format!("{}{}", sym::text(1, "ab "), i);
        sym::check(excel_add_sheet(x, c(&name).as_ptr(), &mut w, &mut e) == 0, "a sheet can be added");
        names.push(name);
    }
    let q = pkg::path("o.xlsx");
    sym::check(excel_save_as(x, c(&q).as_ptr(), &mut e) == 0, "the workbook can be saved");
    let b = load(&q);
    obs::consistent(&b.parts);
    for s in &b.sheets {
        sym::check(s.root.kid("sheetData").is_some(), "every sheet is a complete part");
    }
    let got: Vec<&str> = b.sheets.iter().map(|s| s.name.as_str()).collect();
    let first = blank_sheets();
    let same = got.len() == first + n && got.iter().skip(first).zip(names.iter()).all(|(a, b)| *a == b);
    sym::check(same, "the workbook lists the sheets that were added");
    sym::reached();
}
/// a file of any of the three kinds is created, opened and saved, and a call that fails says so
pub fn files() {
    let k = sym::choose(3);
    let from = sym::choose(4);
    let to = sym::choose(4);
    let b = [sym::choose(2) as u8 * 7, sym::choose(2) as u8, 1];
    let n = 2 + sym::choose(2);
    let src = pkg::path("a.bin");
    let sheets = if k == 0 { 1 } else { 0 };
    match from {
        1 => {
            let r = match k {
                0 => blank().save_as(&src).is_ok(),
                1 => Word::new(None, WordPropertiesModel { is_in_memory: true }).is_ok_and(|w| w.save_as(&src).is_ok()),
                _ => PowerPoint::new(None, PowerPointPropertiesModel { is_in_memory: true }).is_ok_and(|w| w.save_as(&src).is_ok()),
            };
            sym::check(r, "a new file can be saved");
        }
        2 => pkg::write_raw(&src, b"no package"),
        _ => {}
    }
    let name = if from == 0 { None } else { Some(c(&src)) };
    let name = name.as_ref().map_or(nowhere(), |n| n.as_ptr());
    let mut e = nowhere();
    let mut x: Out = null_mut();
    let code = match k {
        0 => excel_create(name, b.as_ptr(), n, &mut x, &mut e),
        1 => word_create(name, b.as_ptr(), n, &mut x, &mut e),
        _ => power_point_create(name, b.as_ptr(), n, &mut x, &mut e),
    };
    let good = b[0] == 7 && n == 3 && from < 2;
    sym::check((code == 0) == good, "creating a file reports what happened");
    sym::check((code == 0) == !x.is_null(), "a file is handed out when it could be created");
    sym::check(good || said(e).is_some_and(|t| !t.is_empty()), "a call that failed tells why");
    if !good || x.is_null() {
        sym::reached();
        return;
    }
    sym::check(e.is_null(), "a call that worked reports no error");
    let old = b"old";
    let q = match to {
        0 => pkg::path("o.bin"),
        1 => pkg::path("none/o.bin"),
        2 => {
            let q = pkg::path("o.bin");
            pkg::write_raw(&q, old);
            q
        }
        _ => {
            let q = pkg::path("o.bin");
            pkg::mkdir(&q);
            q
        }
    };
    let mut e = nowhere();
    let t = c(&q);
    let code = match k {
        0 => excel_save_as(x, t.as_ptr(), &mut e),
        1 => word_save_as(x, t.as_ptr(), &mut e),
        _ => power_point_save_as(x, t.as_ptr(), &mut e),
    };
    let good = to == 0 || to == 2;
    sym::check((code == 0) == good, "saving reports what happened");
    if good {
        sym::check(e.is_null(), "a call that worked reports no error");
        let a = need(pkg::read(&q).ok_or(()), "the saved file is a readable package");
        obs::consistent(&a);
        sym::check(sheets == 0 || a.iter().any(|x| x.0.contains("worksheets/")), "the saved file is what was opened");
    } else {
        sym::check(said(e).is_some_and(|t| !t.is_empty()), "a call that failed tells why");
    }
    sym::reached();
}
/// a call without an argument it needs is refused and has no effect
pub fn nulls() {
    let b = [7u8, 1, 1];
    let mut e = nowhere();
    let mut w: Out = null_mut();
    let mut id: *mut u32 = null_mut();
    let s = c("S1");
    let t = c("T");
    let no = null_mut::<c_void>() as *const c_void;
    let m = three(["", "", ""], "");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let mut code = 0;
    let x = create(Some(&p), &mut code, &mut e);
    sym::check(code == 0, "a valid workbook opens");
    sym::assume(code == 0);
    let out = c(&pkg::path("o.xlsx"));
    let r = match sym::choose(20) {
        0 => excel_create(nowhere(), null_mut::<u8>(), 3, &mut w, &mut e),
        1 => excel_create(nowhere(), b.as_ptr(), 0, &mut w, &mut e),
        2 => word_create(nowhere(), null_mut::<u8>(), 3, &mut w, &mut e),
        3 => word_create(nowhere(), b.as_ptr(), 0, &mut w, &mut e),
        4 => power_point_create(nowhere(), null_mut::<u8>(), 3, &mut w, &mut e),
        5 => power_point_create(nowhere(), b.as_ptr(), 0, &mut w, &mut e),
        6 => excel_add_sheet(no, s.as_ptr(), &mut w, &mut e),
        7 => excel_rename_sheet(no, s.as_ptr(), t.as_ptr(), &mut e),
        8 => excel_rename_sheet(x, nowhere(), t.as_ptr(), &mut e),
        9 => excel_rename_sheet(x, s.as_ptr(), nowhere(), &mut e),
        10 => excel_get_sheet(no, s.as_ptr(), &mut w, &mut e),
        11 => excel_get_sheet(x, nowhere(), &mut w, &mut e),
        12 => excel_hide_sheet(no, s.as_ptr(), &mut e),
        13 => excel_hide_sheet(x, nowhere(), &mut e),
        14 => get_style_id_mut(no, b.as_ptr(), 3, &mut id, &mut e),
        15 => get_style_id_mut(x, null_mut::<u8>(), 3, &mut id, &mut e),
        16 => get_style_id_mut(x, b.as_ptr(), 0, &mut id, &mut e),
        17 => excel_save_as(no, out.as_ptr(), &mut e),
        18 => excel_save_as(x, nowhere(), &mut e),
        _ => [word_save_as(no, out.as_ptr(), &mut e), word_save_as(x, nowhere(), &mut e), power_point_save_as(no, out.as_ptr(), &mut e), power_point_save_as(x, nowhere(), &mut e)].into_iter().min().unwrap_or(0),
    };
    sym::check(r == 1, "a missing argument is reported as such");
    sym::check(w.is_null() && id.is_null(), "a refused call hands nothing out");
    let q = pkg::path("q.xlsx");
    sym::check(excel_save_as(x, c(&q).as_ptr(), &mut e) == 0, "the workbook can be saved");
    let a = load(&q);
    let names: Vec<&str> = a.sheets.iter().map(|s| s.name.as_str()).collect();
    sym::check(names == ["S1", "S2", "S3"], "a refused call has no effect");
    sym::reached();
}
/// a style asked for by a call is the style the library makes of the same wishes
pub fn styles() {
    let k = sym::choose(10);
    let (number, code) = [(0u16, None), (2, None), (14, None), (49, None), (164, Some("0.0")), (164, None), (200, None), (256, None), (270, None), (65535, Some("0"))][k];
    let flags = if k < 3 || sym::bound(0, 1) == 1 { sym::choose(32) as u8 } else { [0, 1, 18, 31][sym::choose(4)] };
    let more = sym::choose(5);
    let family = if more == 1 { Some("Arial") } else { None };
    let back = if more == 2 { Some("FF0000") } else { None };
    let fore = if more == 3 { Some("00FF00") } else { None };
    let size = if more == 4 { 20u8 } else { 11 };
    let mut b = vec![7u8, (number % 256) as u8, (number / 256) as u8, flags, size];
    for t in [code, family, back, fore] {
        match t {
            None => b.push(255),
            Some(t) => {
                b.push(t.len() as u8);
                b.extend_from_slice(t.as_bytes());
            }
        }
    }
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &super::book::make().parts());
    let mut e = nowhere();
    let mut done = 0;
    let x = create(Some(&p), &mut done, &mut e);
    sym::check(done == 0, "a valid workbook opens");
    sym::assume(done == 0);
    let mut y = open(&p, "a valid workbook opens");
    let mut id: *mut u32 = null_mut();
    let got = get_style_id_mut(x, b.as_ptr(), b.len(), &mut id, &mut e);
    let mut s = StyleSetting::default();
    s.number_format = NumberFormatValues::get_enum(&number.to_string());
    s.custom_number_format = code.map(|t| t.to_string());
    if let Some(t) = family {
        s.font_family = t.to_string();
    }
    s.font_size = size;
    s.is_bold = flags & 1 != 0;
    s.is_italic = flags & 2 != 0;
    s.is_underline = flags & 4 != 0;
    s.is_double_underline = flags & 8 != 0;
    s.is_wrap_text = flags & 16 != 0;
    s.background_color = back.map(|t| t.to_string());
    s.foreground_color = fore.map(|t| t.to_string());
    let r = y.get_style_id_mut(s);
    sym::check((got == 0) == !id.is_null(), "a style is handed out when it could be made");
    match r {
        Ok(n) => {
            fits(got, e, None, "asking for a style reports what happened");
            if !id.is_null() {
                sym::check(unsafe { *id } == n.get_id(), "the style is the library's");
            }
        }
        Err(r) => fits(got, e, Some(r.to_string()), "asking for a style reports what happened"),
    }
    let q = pkg::path("o.xlsx");
    let l = pkg::path("l.xlsx");
    let mut e = nowhere();
    sym::check(excel_save_as(x, c(&q).as_ptr(), &mut e) == 0, "the workbook can be saved");
    need(y.save_as(&l), "saving succeeds");
    let a = load(&q);
    let b = load(&l);
    for (n, _) in b.parts.iter() {
        if n.starts_with("xl/worksheets/") || n == "xl/workbook.xml" || n == "xl/styles.xml" {
            same_node_opt(obs::doc(&a.parts, n).as_ref(), obs::doc(&b.parts, n).as_ref(), "the style is the library's");
        }
    }
    sym::reached();
}
