use crate::{pkg, sym, xml};
use draviavemal_openxml_office::spreadsheet_2007::models::{CellDataType, CellProperties};
use draviavemal_openxml_office::spreadsheet_2007::{Excel, ExcelPropertiesModel};


pub fn t_basic() {
    let mut x = Excel::new(None, ExcelPropertiesModel::default()).unwrap();
    {
        let mut ws = x.add_sheet_mut(Some("Data".to_string())).unwrap();
        let mut c = CellProperties::default();
        c.value = Some(sym::ascii(2));
        c.data_type = CellDataType::Auto;
        let r = ws.set_row_value_ref_mut("B2", vec![c]);
        sym::check(r.is_ok(), "write accepted");
    }
    let p = pkg::path("o.xlsx");
    let r = x.save_as(&p);
    sym::check(r.is_ok(), "save accepted");
    let parts = pkg::read(&p);
    sym::check(parts.is_some(), "readable");
    if let Some(parts) = parts {
        for (n, b) in &parts {
            if n.ends_with(".xml") || n.ends_with(".rels") {
                sym::check(xml::parse(b).is_some(), "well formed");
            }
        }
    }
    sym::reached();
}
