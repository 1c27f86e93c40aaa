use crate::obs::{self, Book, Kind};
use crate::xml::Node;
use crate::{pkg, sym};
pub use draviavemal_openxml_office::spreadsheet_2007::models::*;
pub use draviavemal_openxml_office::spreadsheet_2007::{Excel, ExcelPropertiesModel};

pub fn new() -> Excel {
    match Excel::new(None, ExcelPropertiesModel::default()) {
        Ok(x) => x,
        Err(_) => {
            sym::check(false, "a new workbook can be created");
            sym::assume(false);
            panic!()
        }
    }
}
/// a small workbook to work on, with one sheet (its theme is tiny: reading and writing a full one costs more than everything else)
pub fn blank() -> Excel {
    let mut m = super::book::make();
    m.workbook = super::book::workbook("<sheets><sheet name=\"sheet1\" sheetId=\"1\" r:id=\"rId1\"/></sheets>");
    m.sheet1 = super::book::sheet("<sheetData/>");
    let p = pkg::path("blank.xlsx");
    pkg::write(&p, &m.parts());
    open(&p, "a valid workbook opens")
}
/// open a file that has to be accepted
pub fn open(path: &str, what: &str) -> Excel {
    match Excel::new(Some(path.to_string()), ExcelPropertiesModel::default()) {
        Ok(x) => x,
        Err(_) => {
            sym::check(false, what);
            sym::assume(false);
            panic!()
        }
    }
}
pub fn cell(v: &str, t: CellDataType) -> CellProperties {
    let mut c = CellProperties::default();
    c.value = Some(v.to_string());
    c.data_type = t;
    c
}
pub fn num(v: &str) -> CellProperties {
    cell(v, CellDataType::Number)
}
pub fn need<T, E>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            sym::check(false, what);
            sym::assume(false);
            panic!()
        }
    }
}
/// save and read back
pub fn save(x: Excel, name: &str) -> Book {
    let p = pkg::path(name);
    need(x.save_as(&p), "saving succeeds");
    load(&p)
}
pub fn load(p: &str) -> Book {
    match obs::book(p) {
        Ok(b) => b,
        Err(e) => {
            sym::check(false, e);
            sym::assume(false);
            panic!()
        }
    }
}
/// the text a reader gets from character data a and b must be the same
pub fn same(got: &str, want: &str, what: &str) {
    sym::check_eq_str(got, want, what);
}

/// the same kind of value and the same text
pub fn same_value(got: &(Kind, String), want: &(Kind, String), what: &str) {
    sym::check(got.0 == want.0, what);
    same(&got.1, &want.1, what);
}
/// the same element with all that is in it
pub fn same_node(got: &Node, want: &Node, what: &str) {
    sym::check(got.name == want.name && got.kids.len() == want.kids.len() && got.attrs.len() == want.attrs.len(), what);
    for a in &want.attrs {
        match got.attr(&a.0) {
            Some(v) => same(v, &a.1, what),
            None => sym::check(false, what),
        }
    }
    same(&got.text, &want.text, what);
    for i in 0..got.kids.len().min(want.kids.len()) {
        same_node(&got.kids[i], &want.kids[i], what);
    }
}
pub fn same_node_opt(got: Option<&Node>, want: Option<&Node>, what: &str) {
    match (got, want) {
        (Some(g), Some(w)) => same_node(g, w, what),
        _ => sym::check(got.is_none() && want.is_none(), what),
    }
}
