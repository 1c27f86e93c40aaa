//! Styles: what a reader of the saved file shows for a cell that was given a style.
use super::book::{make, sheet, styles};
use super::common::*;
use crate::obs::{self, Book};
use crate::xml::Node;
use crate::{pkg, sym};

/// how a cell looks
#[derive(Debug, Clone, PartialEq)]
pub struct Look {
    /// built in number format, or the code of a custom one
    pub format: String,
    pub font: String,
    pub size: String,
    pub bold: bool,
    pub italic: bool,
    pub underline: String,
    pub color: String,
    pub fill: String,
    pub left: String,
    pub right: String,
    pub top: String,
    pub bottom: String,
    pub diagonal: String,
    pub horizontal: String,
    pub vertical: String,
    pub wrap: bool,
    /// what else an opened file may say about a cell
    pub rest: String,
}
fn on(n: Option<&Node>) -> bool {
    match n {
        None => false,
        Some(n) => !matches!(n.attr("val"), Some("0") | Some("false")),
    }
}
fn color(n: Option<&Node>) -> String {
    match n {
        None => String::new(),
        Some(n) => {
            for k in ["rgb", "theme", "indexed", "auto"] {
                if let Some(v) = n.attr(k) {
                    return match n.attr("tint") {
                        Some(t) => format!("{} {} tint {}", k, v, t),
                        None => format!("{} {}", k, v),
                    };
                }
            }
            String::new()
        }
    }
}
fn line(n: Option<&Node>) -> String {
    match n.and_then(|n| n.attr("style").map(|s| (n, s))) {
        None => String::new(),
        Some((_, "none")) => String::new(),
        Some((n, s)) => format!("{} {}", s, color(n.kid("color"))),
    }
}
/// whether a part of a cell format counts: absent or switched on
fn applied(xf: &Node, k: &str) -> bool {
    !matches!(xf.attr(k), Some("0") | Some("false"))
}
fn index(xf: &Node, k: &str) -> usize {
    xf.attr(k).and_then(|v| v.parse::<usize>().ok()).unwrap_or(0)
}
/// the look of a cell format; Err names what is broken about it
pub fn look(st: &Node, id: usize) -> Result<Look, &'static str> {
    let xf = st.kid("cellXfs").and_then(|x| x.kids.get(id)).ok_or("every style id names a cell format")?;
    let fid = index(xf, "numFmtId");
    let mut format = fid.to_string();
    if fid >= 164 {
        format = st.kid("numFmts").and_then(|n| n.kids.iter().find(|n| n.attr("numFmtId") == Some(format.as_str()))).and_then(|n| n.attr("formatCode")).ok_or("every number format a cell format uses is defined")?.to_string();
    }
    if !applied(xf, "applyNumberFormat") {
        format = "0".to_string();
    }
    let fonts = st.kid("fonts").ok_or("the style part has fonts")?;
    let font = fonts.kids.get(if applied(xf, "applyFont") { index(xf, "fontId") } else { 0 }).ok_or("every font a cell format uses is defined")?;
    let fills = st.kid("fills").ok_or("the style part has fills")?;
    let fill = fills.kids.get(if applied(xf, "applyFill") { index(xf, "fillId") } else { 0 }).ok_or("every fill a cell format uses is defined")?;
    let borders = st.kid("borders").ok_or("the style part has borders")?;
    let border = borders.kids.get(if applied(xf, "applyBorder") { index(xf, "borderId") } else { 0 }).ok_or("every border a cell format uses is defined")?;
    if st.kid("cellStyleXfs").map(|x| index(xf, "xfId") >= x.kids.len()).unwrap_or(true) {
        return Err("every named style a cell format refers to is defined");
    }
    let p = fill.kid("patternFill");
    let fill = match p.and_then(|p| p.attr("patternType")).unwrap_or("none") {
        "none" => String::new(),
        "solid" => color(p.and_then(|p| p.kid("fgColor"))),
        t => t.to_string(),
    };
    let fill_kind = fills.kids.get(if applied(xf, "applyFill") { index(xf, "fillId") } else { 0 }).and_then(|f| f.kids.first()).map(|k| k.name.clone()).unwrap_or_default();
    let fill = if fill_kind == "gradientFill" { fill_kind } else { fill };
    let al = if applied(xf, "applyAlignment") { xf.kid("alignment") } else { None };
    let a = |k: &str| al.and_then(|a| a.attr(k)).unwrap_or("").to_string();
    // anything a style asked for through the library can not have
    let mut rest = String::new();
    for k in &font.kids {
        match k.name.as_str() {
            "b" | "i" | "u" | "sz" | "color" | "name" | "family" | "charset" | "scheme" => {}
            n => rest.push_str(n),
        }
    }
    for (n, known) in [(Some(border), &[][..]), (al, &["horizontal", "vertical", "wrapText"][..]), (xf.kid("protection"), &[][..])] {
        for a in n.map(|n| &n.attrs[..]).unwrap_or(&[]) {
            if !known.contains(&a.0.as_str()) && !a.0.contains(':') {
                rest.push_str(&format!(" {} {}", a.0, a.1));
            }
        }
    }
    for k in ["quotePrefix", "pivotButton"] {
        if let Some(v) = xf.attr(k) {
            rest.push_str(&format!(" {} {}", k, v));
        }
    }
    Ok(Look {
        rest,
        format,
        font: font.kid("name").and_then(|n| n.attr("val")).unwrap_or("").to_string(),
        size: font.kid("sz").and_then(|n| n.attr("val")).unwrap_or("").to_string(),
        bold: on(font.kid("b")),
        italic: on(font.kid("i")),
        underline: match font.kid("u") {
            None => String::new(),
            Some(u) => u.attr("val").unwrap_or("single").to_string(),
        },
        color: color(font.kid("color")),
        fill,
        left: line(border.kid("left")),
        right: line(border.kid("right")),
        top: line(border.kid("top")),
        bottom: line(border.kid("bottom")),
        diagonal: line(border.kid("diagonal")),
        horizontal: a("horizontal"),
        vertical: a("vertical"),
        wrap: a("wrapText") == "1" || a("wrapText") == "true",
    })
}
fn must(b: &Book, id: usize) -> Look {
    match b.styles.as_ref().ok_or("the workbook has a style part").and_then(|s| look(s, id)) {
        Ok(l) => l,
        Err(e) => {
            sym::check(false, e);
            sym::assume(false);
            panic!()
        }
    }
}
/// the format id of a cell, row or column
pub fn id_of(n: Option<&Node>) -> usize {
    n.and_then(|c| c.attr("s")).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0)
}
fn cell_look(b: &Book, sheet: &str, r: &str) -> Look {
    let s = b.sheet(sheet).unwrap();
    must(b, id_of(b.cell(s, r)))
}
const PLAIN_FONT: &str = "Calibri";
fn plain() -> Look {
    let e = String::new;
    Look {
        format: "0".to_string(),
        font: PLAIN_FONT.to_string(),
        size: "11".to_string(),
        bold: false,
        italic: false,
        underline: e(),
        color: "theme 1".to_string(),
        fill: e(),
        left: e(),
        right: e(),
        top: e(),
        bottom: e(),
        diagonal: e(),
        horizontal: e(),
        vertical: e(),
        wrap: false,
        rest: e(),
    }
}
fn agree(got: &Look, want: &Look, who: &str) {
    let say = |got: &str, want: &str, what: &str| same(got, want, &format!("{} {}", who, what));
    say(&got.format, &want.format, "has the number format asked for");
    say(&got.font, &want.font, "has the font asked for");
    say(&got.size, &want.size, "has the font size asked for");
    sym::check(got.bold == want.bold && got.italic == want.italic, "cells are bold and italic as asked for");
    say(&got.underline, &want.underline, "is underlined as asked for");
    say(&got.color, &want.color, "has the text color asked for");
    say(&got.fill, &want.fill, "has the fill asked for");
    for (g, w) in [(&got.left, &want.left), (&got.right, &want.right), (&got.top, &want.top), (&got.bottom, &want.bottom), (&got.diagonal, &want.diagonal)] {
        say(g, w, "has the borders asked for");
    }
    say(&got.horizontal, &want.horizontal, "is aligned as asked for");
    say(&got.vertical, &want.vertical, "is aligned as asked for");
    sym::check(got.wrap == want.wrap, "text wraps as asked for");
    same(&got.rest, &want.rest, "a cell has nothing it was not asked for");
}
const FORMATS: [(NumberFormatValues, &str); 36] = [
    (NumberFormatValues::General, "0"),
    (NumberFormatValues::Integer, "1"),
    (NumberFormatValues::DecimalTwoPlaces, "2"),
    (NumberFormatValues::ThousandsSeparator, "3"),
    (NumberFormatValues::ThousandsSeparatorTwoDecimals, "4"),
    (NumberFormatValues::CurrencyNoDecimals, "5"),
    (NumberFormatValues::CurrencyNoDecimalsRed, "6"),
    (NumberFormatValues::CurrencyTwoDecimals, "7"),
    (NumberFormatValues::CurrencyTwoDecimalsRed, "8"),
    (NumberFormatValues::Percentage, "9"),
    (NumberFormatValues::PercentageTwoDecimals, "10"),
    (NumberFormatValues::Scientific, "11"),
    (NumberFormatValues::FractionOneDigit, "12"),
    (NumberFormatValues::FractionTwoDigits, "13"),
    (NumberFormatValues::DateMMDDYY, "14"),
    (NumberFormatValues::DateDMmmYY, "15"),
    (NumberFormatValues::DateDMmm, "16"),
    (NumberFormatValues::DateMmmYY, "17"),
    (NumberFormatValues::Time12Hour, "18"),
    (NumberFormatValues::Time12HourWithSeconds, "19"),
    (NumberFormatValues::Time24Hour, "20"),
    (NumberFormatValues::Time24HourWithSeconds, "21"),
    (NumberFormatValues::DateTimeMMDDYY, "22"),
    (NumberFormatValues::AccountingNoDecimals, "37"),
    (NumberFormatValues::AccountingNoDecimalsRed, "38"),
    (NumberFormatValues::AccountingTwoDecimals, "39"),
    (NumberFormatValues::AccountingTwoDecimalsRed, "40"),
    (NumberFormatValues::AccountingNegativeInParentheses, "41"),
    (NumberFormatValues::AccountingTwoDecimalsNegativeInParentheses, "42"),
    (NumberFormatValues::AccountingAlignedSymbols, "43"),
    (NumberFormatValues::AccountingAlignedSymbolsTwoDecimals, "44"),
    (NumberFormatValues::TimeMinutesSeconds, "45"),
    (NumberFormatValues::TimeHoursMinutesSeconds, "46"),
    (NumberFormatValues::ElapsedTimeWithFractions, "47"),
    (NumberFormatValues::ScientificOneDecimal, "48"),
    (NumberFormatValues::TextFormat, "49"),
];
fn border_style(i: usize) -> (BorderStyleValues, &'static str) {
    match i {
        0 => (BorderStyleValues::Thin, "thin"),
        1 => (BorderStyleValues::Thick, "thick"),
        2 => (BorderStyleValues::Dotted, "dotted"),
        3 => (BorderStyleValues::Double, "double"),
        4 => (BorderStyleValues::Dashed, "dashed"),
        5 => (BorderStyleValues::DashDot, "dashDot"),
        6 => (BorderStyleValues::DashDotDot, "dashDotDot"),
        7 => (BorderStyleValues::Medium, "medium"),
        8 => (BorderStyleValues::MediumDashed, "mediumDashed"),
        9 => (BorderStyleValues::MediumDashDot, "mediumDashDot"),
        10 => (BorderStyleValues::MediumDashDotDot, "mediumDashDotDot"),
        11 => (BorderStyleValues::SlantDashDot, "slantDashDot"),
        12 => (BorderStyleValues::Hair, "hair"),
        _ => (BorderStyleValues::None, ""),
    }
}
fn setting_color(i: usize) -> (ColorSetting, &'static str) {
    let (t, v, s) = match i {
        0 => (ColorSettingTypeValues::Rgb, "FF00FF00", "rgb FF00FF00"),
        1 => (ColorSettingTypeValues::Theme, "4", "theme 4"),
        _ => (ColorSettingTypeValues::Indexed, "8", "indexed 8"),
    };
    (ColorSetting { color_setting_type: t, value: v.to_string() }, s)
}
/// the format id of an entry of the column list
pub fn id_of_col(n: Option<&Node>) -> usize {
    n.and_then(|c| c.attr("style")).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0)
}
/// save a workbook with cells in these styles
fn shown(mut x: Excel, ids: &[StyleId]) -> Book {
    {
        let mut ws = need(x.add_sheet_mut(Some("Data".to_string())), "add a sheet");
        let mut cells = vec![num("1")];
        for i in ids {
            let mut c = num("2");
            c.style_id = Some(i.clone());
            cells.push(c);
        }
        need(ws.set_row_value_ref_mut("A1", cells), "write cells");
    }
    let b = save(x, "o.xlsx");
    counts(&b);
    b
}
/// the saved workbook opened, with the style asked for again
fn shown_again(st: StyleSetting) -> Book {
    let mut y = open(&pkg::path("o.xlsx"), "a saved workbook opens");
    let id = need(y.get_style_id_mut(st), "a style is registered");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens");
        let mut c = num("2");
        c.style_id = Some(id);
        need(ws.set_row_value_ref_mut("A2", vec![c]), "write cells");
    }
    let b = save(y, "p.xlsx");
    counts(&b);
    b
}
/// every number format is stored as its own
pub fn formats() {
    let k = sym::choose(FORMATS.len() + 3);
    let mut st = StyleSetting::default();
    let mut want = plain();
    if k < FORMATS.len() {
        st.number_format = FORMATS[k].0.clone();
        want.format = FORMATS[k].1.to_string();
    } else {
        st.number_format = NumberFormatValues::Custom;
        let t = ["0.000", "General", "yyyy\"-\"mm;@"][k - FORMATS.len()];
        st.custom_number_format = Some(t.to_string());
        want.format = t.to_string();
    }
    let mut x = new();
    let id = need(x.get_style_id_mut(again_setting(&st)), "a style is registered");
    let b = shown(x, &[id]);
    agree(&cell_look(&b, "Data", "A1"), &plain(), "a cell without style");
    agree(&cell_look(&b, "Data", "B1"), &want, "a cell");
    let b = shown_again(st);
    for (r, w) in [("A1", &plain()), ("B1", &want), ("A2", &want)] {
        agree(&cell_look(&b, "Data", r), w, "a cell of the opened workbook");
    }
    sym::reached();
}
/// every border is stored at its side
pub fn borders() {
    let (s, sn) = border_style(sym::choose(14));
    let c = sym::choose(4);
    let side = sym::choose(5);
    let mut st = StyleSetting::default();
    let mut want = plain();
    let mut bs = BorderSetting::default();
    bs.style = s;
    let mut w = format!("{} ", sn);
    if c < 3 {
        let (cs, cn) = setting_color(c);
        bs.border_color = Some(cs);
        w.push_str(cn);
    }
    if sn.is_empty() {
        w = String::new();
    }
    match side {
        0 => st.border_left = bs,
        1 => st.border_right = bs,
        2 => st.border_top = bs,
        3 => st.border_bottom = bs,
        _ => st.border_diagonal = bs,
    }
    match side {
        0 => want.left = w,
        1 => want.right = w,
        2 => want.top = w,
        3 => want.bottom = w,
        _ => want.diagonal = w,
    }
    let mut x = blank();
    let id = need(x.get_style_id_mut(again_setting(&st)), "a style is registered");
    let seen = |b: &Book, r: &str| {
        let mut got = cell_look(b, "Data", r);
        if c == 3 {
            // without a color of its own a border takes the automatic one
            for g in [&mut got.left, &mut got.right, &mut got.top, &mut got.bottom, &mut got.diagonal] {
                if let Some(i) = g.find(' ') {
                    g.truncate(i + 1);
                }
            }
        }
        got
    };
    let b = shown(x, &[id]);
    agree(&cell_look(&b, "Data", "A1"), &plain(), "a cell without style");
    agree(&seen(&b, "B1"), &want, "a cell");
    let b = shown_again(st);
    agree(&cell_look(&b, "Data", "A1"), &plain(), "a cell of the opened workbook");
    agree(&seen(&b, "B1"), &want, "a cell of the opened workbook");
    agree(&seen(&b, "A2"), &want, "a cell of the opened workbook");
    sym::reached();
}
/// a style that differs from the plain one in one respect
fn one(aspect: usize, v: usize, st: &mut StyleSetting, want: &mut Look) {
    match aspect {
        0 => {
            st.is_bold = sym::bool();
            st.is_italic = v != 0;
            want.bold = st.is_bold;
            want.italic = v != 0;
        }
        1 => {
            st.is_underline = v == 0;
            st.is_double_underline = v != 0;
            want.underline = ["single", "double"][v].to_string();
        }
        2 => {
            let n = sym::u16();
            sym::assume(if v == 0 { n >= 1 && n <= 20 } else { n >= 200 && n <= 255 });
            st.font_size = n as u8;
            want.size = n.to_string();
        }
        3 => {
            st.font_family = sym::text(2 + v, "Ab <");
            want.font = st.font_family.clone();
        }
        4 => {
            let (mut c, n) = setting_color([0, 2][v]);
            want.color = n.to_string();
            if v == 0 {
                let t = sym::text(2, HEX);
                c.value = format!("FF00{}00", t);
                want.color = format!("rgb {}", c.value);
            }
            st.text_color = c;
        }
        5 => {
            let t = format!("FF{}0000", sym::text(2, HEX));
            want.fill = format!("rgb {}", t);
            if v == 0 {
                st.background_color = Some(t);
            } else {
                st.foreground_color = Some(t);
            }
        }
        6 => {
            st.horizontal_alignment = [HorizontalAlignmentValues::LEFT, HorizontalAlignmentValues::CENTER][v].clone();
            want.horizontal = ["left", "center"][v].to_string();
        }
        7 => {
            st.horizontal_alignment = [HorizontalAlignmentValues::RIGHT, HorizontalAlignmentValues::JUSTIFY][v].clone();
            want.horizontal = ["right", "justify"][v].to_string();
        }
        8 => {
            st.vertical_alignment = [VerticalAlignmentValues::Top, VerticalAlignmentValues::Middle][v].clone();
            want.vertical = ["top", "center"][v].to_string();
        }
        9 => {
            if v == 0 {
                st.vertical_alignment = VerticalAlignmentValues::Bottom;
                want.vertical = "bottom".to_string();
            } else {
                st.is_wrap_text = true;
                want.wrap = true;
            }
        }
        10 => {
            let mut b = BorderSetting::default();
            b.style = [BorderStyleValues::Thin, BorderStyleValues::Thick][v].clone();
            let mut c = setting_color(0).0;
            c.value = format!("FF{}FF00", sym::text(2, HEX));
            want.left = format!("{} rgb {}", ["thin", "thick"][v], c.value);
            b.border_color = Some(c);
            st.border_left = b;
        }
        11 => {
            let mut b = BorderSetting::default();
            b.style = BorderStyleValues::Thin;
            b.border_color = Some(setting_color(1).0);
            if v == 0 {
                st.border_top = b;
                want.top = "thin theme 4".to_string();
            } else {
                st.border_bottom = b;
                want.bottom = "thin theme 4".to_string();
            }
        }
        12 => {
            st.number_format = NumberFormatValues::Custom;
            let t = format!("0{}", sym::text(1 + v, "0.#\"&"));
            want.format = t.clone();
            st.custom_number_format = Some(t);
        }
        13 => {
            st.number_format = [NumberFormatValues::Integer, NumberFormatValues::DateDMmm][v].clone();
            want.format = ["1", "16"][v].to_string();
        }
        14 => {
            let mut b = BorderSetting::default();
            b.style = BorderStyleValues::Thin;
            b.border_color = Some(setting_color(1).0);
            if v == 0 {
                st.border_right = b;
                want.right = "thin theme 4".to_string();
            } else {
                st.border_diagonal = b;
                want.diagonal = "thin theme 4".to_string();
            }
        }
        15 => {
            // the same value as the default color (theme 1) or another aspect's, of another kind
            let mut c = setting_color(2).0;
            c.color_setting_type = [ColorSettingTypeValues::Indexed, ColorSettingTypeValues::Theme][v].clone();
            c.value = ["1", "8"][v].to_string();
            want.color = ["indexed 1", "theme 8"][v].to_string();
            st.text_color = c;
        }
        _ => {
            let mut b = BorderSetting::default();
            b.style = [BorderStyleValues::Thin, BorderStyleValues::Double][v].clone();
            let mut c = setting_color(2).0;
            c.value = "4".to_string();
            b.border_color = Some(c);
            st.border_top = b;
            want.top = ["thin indexed 4", "double indexed 4"][v].to_string();
        }
    }
}
const ASPECTS: usize = 17;
const HEX: &str = "0123456789ABCDEF";
/// the settings of an aspect (ASPECTS and above: the plain style) and the look they ask for
fn with(a: usize, v: usize) -> (StyleSetting, Look) {
    let (mut s, mut l) = (StyleSetting::default(), plain());
    if a < ASPECTS {
        one(a, v, &mut s, &mut l);
    }
    (s, l)
}
fn color_again(c: &ColorSetting) -> ColorSetting {
    ColorSetting { color_setting_type: c.color_setting_type.clone(), value: c.value.clone() }
}
fn border_again(b: &BorderSetting) -> BorderSetting {
    let mut n = BorderSetting::default();
    n.style = b.style.clone();
    n.border_color = b.border_color.as_ref().map(color_again);
    n
}
/// the same settings a second time
fn again_setting(s: &StyleSetting) -> StyleSetting {
    let mut n = StyleSetting::default();
    n.number_format = s.number_format.clone();
    n.custom_number_format = s.custom_number_format.clone();
    n.border_left = border_again(&s.border_left);
    n.border_right = border_again(&s.border_right);
    n.border_top = border_again(&s.border_top);
    n.border_bottom = border_again(&s.border_bottom);
    n.border_diagonal = border_again(&s.border_diagonal);
    n.font_family = s.font_family.clone();
    n.font_size = s.font_size;
    n.text_color = color_again(&s.text_color);
    n.is_bold = s.is_bold;
    n.is_italic = s.is_italic;
    n.is_underline = s.is_underline;
    n.is_double_underline = s.is_double_underline;
    n.is_wrap_text = s.is_wrap_text;
    n.background_color = s.background_color.clone();
    n.foreground_color = s.foreground_color.clone();
    n.horizontal_alignment = s.horizontal_alignment.clone();
    n.vertical_alignment = s.vertical_alignment.clone();
    n
}
/// any two styles: same settings, same look and id; different settings, each its own look
pub fn pairs() {
    let a = sym::choose(ASPECTS);
    let av = sym::choose(2);
    let c = sym::choose(ASPECTS);
    let cv = sym::choose(2);
    sym::assume(a <= c || sym::bound(0, 1) == 1);
    let (s1, l1) = with(a, av);
    let (s2, l2) = with(c, cv);
    let mut x = blank();
    let i1 = need(x.get_style_id_mut(again_setting(&s1)), "a style is registered");
    let i2 = need(x.get_style_id_mut(s2), "a style is registered");
    let i3 = need(x.get_style_id_mut(s1), "a style is registered");
    let i0 = need(x.get_style_id_mut(StyleSetting::default()), "the default style is registered");
    sym::check(i1.get_id() == i3.get_id(), "the same settings give the same style");
    if l1 != l2 {
        sym::check(i1.get_id() != i2.get_id(), "different settings give different styles");
    } else if a == c && av == cv {
        sym::check(i1.get_id() == i2.get_id(), "the same settings give the same style");
    }
    let b = shown(x, &[i1, i2, i3, i0]);
    for (r, l) in [("A1", &plain()), ("B1", &l1), ("C1", &l2), ("D1", &l1), ("E1", &plain())] {
        agree(&cell_look(&b, "Data", r), l, "a cell");
    }
    counts(&b);
    sym::reached();
}
/// two respects in one style
pub fn combined() {
    let a = sym::choose(ASPECTS);
    let av = sym::choose(2);
    let c = sym::choose(ASPECTS);
    let cv = sym::choose(2);
    sym::assume(a < c && !(a == 6 && c == 7) && !(a == 8 && c == 9 && cv == 0) && !(a == 12 && c == 13) && !(a == 4 && c == 15) && !(a == 11 && c == 16 && av == 0));
    let (mut s, mut l) = (StyleSetting::default(), plain());
    one(a, av, &mut s, &mut l);
    one(c, cv, &mut s, &mut l);
    let mut x = blank();
    let i = need(x.get_style_id_mut(s), "a style is registered");
    let b = shown(x, &[i]);
    agree(&cell_look(&b, "Data", "A1"), &plain(), "a cell without style");
    agree(&cell_look(&b, "Data", "B1"), &l, "a cell");
    counts(&b);
    sym::reached();
}
/// the counts of a style part are those of its lists, and its lists stand in order
fn counts(b: &Book) {
    let s = match &b.styles {
        Some(s) => s,
        None => return,
    };
    obs::members_named(s);
    let order = ["numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors", "extLst"];
    let mut last = 0;
    for k in &s.kids {
        if let Some(c) = k.attr("count") {
            sym::check(c == k.kids.len().to_string(), "the counts of a style part are those of its lists");
        }
        match order.iter().position(|o| *o == k.name) {
            Some(i) => {
                sym::check(i + 1 > last, "the lists of a style part stand in order, each once");
                last = i + 1;
            }
            None => sym::check(false, "a style part holds what it may hold"),
        }
    }
    if let Some(f) = s.kid("fonts") {
        for k in f.kids.iter().flat_map(|f| &f.kids) {
            if ["name", "family", "charset", "scheme", "sz"].contains(&k.name.as_str()) {
                sym::check(k.attr("val").is_some(), "what describes a font has a value");
            }
        }
    }
    if let Some(n) = s.kid("numFmts") {
        for i in 0..n.kids.len() {
            for j in 0..i {
                sym::check(n.kids[i].attr("numFmtId") != n.kids[j].attr("numFmtId"), "number formats have ids of their own");
            }
        }
    }
}
/// a custom number format needs its code, and refusing it changes nothing
pub fn refused() {
    let mut st = StyleSetting::default();
    st.number_format = NumberFormatValues::Custom;
    st.is_bold = sym::bool();
    let mut x = blank();
    sym::check(x.get_style_id_mut(st).is_err(), "a custom number format without code is refused");
    let mut s = StyleSetting::default();
    let mut l = plain();
    one(sym::choose(ASPECTS), sym::choose(2), &mut s, &mut l);
    let i = need(x.get_style_id_mut(s), "a style is registered");
    let b = shown(x, &[i]);
    agree(&cell_look(&b, "Data", "B1"), &l, "a cell");
    counts(&b);
    sym::reached();
}
const RICH: &str = "<numFmts count=\"2\"><numFmt numFmtId=\"164\" formatCode=\"0.0\"/><numFmt numFmtId=\"200\" formatCode=\"yyyy\"/></numFmts>\
<fonts count=\"3\" x14ac:knownFonts=\"1\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\"><font><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font><font><b/><strike/><sz val=\"9.5\"/><color rgb=\"FF123456\"/><name val=\"Arial\"/><charset val=\"204\"/></font><font><b val=\"0\"/><i/><u val=\"singleAccounting\"/><vertAlign val=\"superscript\"/><sz val=\"10\"/><color theme=\"3\" tint=\"0.5\"/><name val=\"Calibri\"/></font></fonts>\
<fills count=\"4\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill><fill><patternFill patternType=\"solid\"><fgColor theme=\"4\" tint=\"-0.25\"/><bgColor indexed=\"64\"/></patternFill></fill><fill><gradientFill degree=\"90\"><stop position=\"0\"><color rgb=\"FFFFFFFF\"/></stop><stop position=\"1\"><color rgb=\"FF000000\"/></stop></gradientFill></fill></fills>\
<borders count=\"2\"><border><left/><right/><top/><bottom/><diagonal/></border><border diagonalUp=\"1\"><left style=\"thin\"><color auto=\"1\"/></left><right/><top/><bottom style=\"double\"><color theme=\"2\" tint=\"0.1\"/></bottom><diagonal style=\"hair\"><color indexed=\"10\"/></diagonal></border></borders>\
<cellStyleXfs count=\"2\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/><xf numFmtId=\"9\" fontId=\"1\" fillId=\"2\" borderId=\"0\" applyNumberFormat=\"0\"/></cellStyleXfs>\
<cellXfs count=\"4\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/><xf numFmtId=\"200\" fontId=\"1\" fillId=\"2\" borderId=\"1\" xfId=\"1\" applyNumberFormat=\"1\" applyFont=\"1\" applyFill=\"1\" applyBorder=\"1\" applyAlignment=\"1\" applyProtection=\"1\" quotePrefix=\"1\"><alignment horizontal=\"fill\" vertical=\"justify\" textRotation=\"45\" indent=\"1\"/><protection locked=\"0\"/></xf><xf numFmtId=\"164\" fontId=\"2\" fillId=\"3\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"1\" applyFont=\"1\" applyFill=\"1\"/><xf numFmtId=\"14\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"1\" applyAlignment=\"1\"><alignment wrapText=\"1\"/></xf></cellXfs>\
<cellStyles count=\"2\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/><cellStyle name=\"Percent\" xfId=\"1\" builtinId=\"5\" customBuiltin=\"1\"/></cellStyles>\
<dxfs count=\"1\"><dxf><font><color rgb=\"FF9C0006\"/></font><fill><patternFill><bgColor rgb=\"FFFFC7CE\"/></patternFill></fill></dxf></dxfs>\
<tableStyles count=\"0\" defaultTableStyle=\"TableStyleMedium9\" defaultPivotStyle=\"PivotStyleLight16\"/><colors><mruColors><color rgb=\"FFABCDEF\"/></mruColors></colors>";
/// styles of an opened workbook stay what they are, also beside new ones
pub fn loaded() {
    let a = sym::choose(ASPECTS + 1);
    let av = if a < ASPECTS { sym::choose(2) } else { 0 };
    let twice = sym::bool();
    let mut m = make();
    m.styles = Some(styles(RICH));
    m.sheet1 = sheet("<cols><col min=\"2\" max=\"3\" width=\"12\" style=\"3\"/></cols><sheetData><row r=\"1\" s=\"2\" customFormat=\"1\"><c r=\"A1\" s=\"0\"><v>1</v></c><c r=\"B1\" s=\"1\"><v>1</v></c><c r=\"C1\" s=\"2\"><v>1</v></c><c r=\"D1\" s=\"3\"><v>1</v></c></row></sheetData>");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let first = load(&p);
    let (st, want) = with(a, av);
    let mut y = open(&p, "a valid workbook opens");
    let id = need(y.get_style_id_mut(again_setting(&st)), "a style is registered");
    if twice {
        let mut other = StyleSetting::default();
        other.is_bold = true;
        other.is_italic = true;
        other.custom_number_format = Some("0.0".to_string());
        other.number_format = NumberFormatValues::Custom;
        need(y.get_style_id_mut(other), "a style is registered");
        let again = need(y.get_style_id_mut(again_setting(&st)), "a style is registered");
        sym::check(again.get_id() == id.get_id(), "the same settings give the same style");
    }
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        let mut c = num("5");
        c.style_id = Some(id.clone());
        need(ws.set_row_value_ref_mut("B3", vec![c]), "write a cell");
    }
    let q = pkg::path("b.xlsx");
    need(y.save_as(&q), "saving succeeds");
    let b = load(&q);
    kept(&first, &b);
    agree(&cell_look(&b, "Data", "B3"), &want, "a new cell");
    if twice {
        // and once more through a saved file
        let mut z = open(&q, "a saved workbook opens again");
        let id2 = need(z.get_style_id_mut(st), "a style is registered");
        {
            let mut ws = need(z.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
            let mut c = num("6");
            c.style_id = Some(id2);
            need(ws.set_row_value_ref_mut("C3", vec![c]), "write a cell");
        }
        let c = save(z, "c.xlsx");
        kept(&first, &c);
        agree(&cell_look(&c, "Data", "B3"), &want, "a new cell");
        agree(&cell_look(&c, "Data", "C3"), &want, "a new cell");
    }
    sym::reached();
}
fn kept(first: &Book, b: &Book) {
    let (s0, s1) = match (&first.styles, &b.styles) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            sym::check(false, "an opened workbook keeps its style part");
            return;
        }
    };
    for k in ["cellStyles", "dxfs", "tableStyles", "colors"] {
        sym::check(s0.kid(k) == s1.kid(k), "differential, named and table styles of an opened workbook are kept");
    }
    for k in ["numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs"] {
        let (a, b) = (s0.kid(k).unwrap(), s1.kid(k));
        for i in 0..a.kids.len() {
            let o = b.and_then(|b| b.kids.get(i));
            sym::check(o == Some(&a.kids[i]), "the styles of an opened workbook stay as they are");
        }
    }
    let (d0, d1) = (first.sheet("Data").unwrap(), b.sheet("Data").unwrap());
    for r in ["A1", "B1", "C1", "D1"] {
        sym::check(id_of(first.cell(d0, r)) == id_of(b.cell(d1, r)), "cells of an opened workbook keep their style");
    }
    sym::check(id_of(b.row(d1, "1")) == 2, "rows of an opened workbook keep their style");
    let c = d1.root.kid("cols").and_then(|c| c.kid("col")).and_then(|c| c.attr("style"));
    sym::check(c == Some("3"), "columns of an opened workbook keep their style");
    counts(b);
}
/// a saved style part is read back to the same styles
pub fn again() {
    let a = sym::choose(ASPECTS);
    let av = sym::choose(2);
    let c = sym::choose(ASPECTS);
    sym::assume(a <= c || sym::bound(0, 1) == 1);
    let (s1, l1) = with(a, av);
    let (s2, l2) = with(c, 1);
    let mut x = blank();
    let i1 = need(x.get_style_id_mut(again_setting(&s1)), "a style is registered");
    let b = shown(x, &[i1]);
    agree(&cell_look(&b, "Data", "B1"), &l1, "a cell");
    let mut y = open(&pkg::path("o.xlsx"), "a saved workbook opens again");
    let i2 = need(y.get_style_id_mut(s2), "a style is registered");
    let i3 = need(y.get_style_id_mut(s1), "a style is registered");
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
        let (mut p, mut q) = (num("1"), num("2"));
        p.style_id = Some(i2);
        q.style_id = Some(i3);
        need(ws.set_row_value_ref_mut("C1", vec![p, q]), "write cells");
    }
    let b = save(y, "p.xlsx");
    for (r, l) in [("A1", &plain()), ("B1", &l1), ("C1", &l2), ("D1", &l1)] {
        agree(&cell_look(&b, "Data", r), l, "a cell");
    }
    counts(&b);
    obs::consistent(&b.parts);
    sym::reached();
}
/// styles alike but for one thing, of a kind that is easily taken for another
fn alike(group: usize) -> Vec<(StyleSetting, Look)> {
    let mut all = Vec::new();
    let thin = |k: usize, v: &str| -> BorderSetting {
        let mut b = BorderSetting::default();
        b.style = BorderStyleValues::Thin;
        let (mut c, _) = setting_color(k);
        c.value = v.to_string();
        b.border_color = Some(c);
        b
    };
    match group {
        // every set of one or all but one side
        0 => {
            for i in 0..10 {
                let (mut s, mut l) = (StyleSetting::default(), plain());
                for side in 0..5 {
                    if (i % 5 == side) == (i < 5) {
                        let (b, w) = match side {
                            0 => (&mut s.border_left, &mut l.left),
                            1 => (&mut s.border_right, &mut l.right),
                            2 => (&mut s.border_top, &mut l.top),
                            3 => (&mut s.border_bottom, &mut l.bottom),
                            _ => (&mut s.border_diagonal, &mut l.diagonal),
                        };
                        *b = thin(1, "4");
                        *w = "thin theme 4".to_string();
                    }
                }
                all.push((s, l));
            }
        }
        // every line style
        1 => {
            for i in 0..13 {
                let (mut s, mut l) = (StyleSetting::default(), plain());
                s.border_right = thin(0, "FF000000");
                s.border_right.style = border_style(i).0;
                l.right = format!("{} rgb FF000000", border_style(i).1);
                all.push((s, l));
            }
        }
        // the same number as a color of every kind, for the border, the text, and what fills the cell
        2 => {
            for i in 0..9 {
                let (mut s, mut l) = (StyleSetting::default(), plain());
                let v = ["FF000004", "8", "8"][i % 3];
                let w = format!("{} {}", ["rgb", "theme", "indexed"][i % 3], v);
                let (mut c, _) = setting_color(i % 3);
                c.value = v.to_string();
                match i / 3 {
                    0 => {
                        s.text_color = c;
                        l.color = w;
                    }
                    1 => {
                        s.border_top = thin(i % 3, v);
                        l.top = format!("thin {}", w);
                    }
                    _ => {
                        let f = ["FF000004", "FF000005", "FF000006"][i % 3];
                        s.background_color = Some(f.to_string());
                        l.fill = format!("rgb {}", f);
                    }
                }
                all.push((s, l));
            }
        }
        // every way a font can be bold, italic and underlined
        3 => {
            for i in 0..12 {
                let (mut s, mut l) = (StyleSetting::default(), plain());
                s.is_bold = i % 2 == 1;
                s.is_italic = i / 2 % 2 == 1;
                s.is_underline = i / 4 == 1;
                s.is_double_underline = i / 4 == 2;
                l.bold = s.is_bold;
                l.italic = s.is_italic;
                l.underline = ["", "single", "double"][i / 4].to_string();
                all.push((s, l));
            }
        }
        // every alignment
        4 => {
            for i in 0..40 {
                let (mut s, mut l) = (StyleSetting::default(), plain());
                s.is_wrap_text = i % 2 == 1;
                l.wrap = i % 2 == 1;
                let (h, w) = match i / 2 % 5 {
                    0 => (HorizontalAlignmentValues::None, ""),
                    1 => (HorizontalAlignmentValues::LEFT, "left"),
                    2 => (HorizontalAlignmentValues::CENTER, "center"),
                    3 => (HorizontalAlignmentValues::RIGHT, "right"),
                    _ => (HorizontalAlignmentValues::JUSTIFY, "justify"),
                };
                s.horizontal_alignment = h;
                l.horizontal = w.to_string();
                let (v, w) = match i / 10 {
                    0 => (VerticalAlignmentValues::None, ""),
                    1 => (VerticalAlignmentValues::Top, "top"),
                    2 => (VerticalAlignmentValues::Middle, "center"),
                    _ => (VerticalAlignmentValues::Bottom, "bottom"),
                };
                s.vertical_alignment = v;
                l.vertical = w.to_string();
                all.push((s, l));
            }
        }
        // every number format
        _ => {
            for (f, w) in FORMATS.iter() {
                let (mut s, mut l) = (StyleSetting::default(), plain());
                s.number_format = f.clone();
                l.format = w.to_string();
                all.push((s, l));
            }
        }
    }
    all
}
/// the saved workbook with the same styles, written in another way
fn respell(parts: obs::Parts, how: usize) {
    let mut parts = parts;
    for (n, b) in parts.iter_mut() {
        if n == "xl/styles.xml" {
            let mut t = String::from_utf8(b.clone()).unwrap();
            let flags = ["applyFont", "applyFill", "applyBorder", "applyNumberFormat", "applyAlignment", "wrapText"];
            let tags = [("<b />", "<b val=\"1\"/>", "<b val=\"true\"/>"), ("<i />", "<i val=\"1\"/>", "<i val=\"true\"/>"), ("<u />", "<u val=\"single\"/>", "<u></u>"), ("<b/>", "<b></b>", "<b val=\"true\"/>")];
            match how {
                1 => {
                    for f in flags {
                        t = t.replace(&format!("{}=\"1\"", f), &format!("{}=\"true\"", f));
                    }
                }
                2 => {
                    for f in &flags[..5] {
                        t = t.replace(&format!(" {}=\"1\"", f), "");
                    }
                }
                _ => {
                    for (f, one, two) in tags {
                        t = t.replace(f, if how == 3 { one } else { two });
                    }
                    if how == 4 {
                        t = t.replace("wrapText=\"1\"", "wrapText='true'");
                    }
                }
            }
            *b = t.into_bytes();
        }
    }
    pkg::write(&pkg::path("o.xlsx"), &parts);
}
/// every style of an opened workbook is told from each that is like it but for one thing
pub fn sides() {
    let g = sym::choose(6);
    let mut all = alike(g);
    let a = sym::choose(all.len());
    let mut x = blank();
    let i1 = need(x.get_style_id_mut(again_setting(&all[a].0)), "a style is registered");
    let o = shown(x, &[i1]);
    // as saved, or as other programs spell the same
    let spelled = sym::choose(5);
    if spelled > 0 {
        respell(o.parts, spelled);
    }
    let mut y = open(&pkg::path("o.xlsx"), "a saved workbook opens again");
    let mut ids = Vec::new();
    for (s, _) in &all {
        ids.push(need(y.get_style_id_mut(again_setting(s)), "a style is registered"));
    }
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
        let mut cells = Vec::new();
        for i in &ids {
            let mut c = num("2");
            c.style_id = Some(i.clone());
            cells.push(c);
        }
        need(ws.set_row_value_ref_mut("A2", cells), "write cells");
    }
    let b = save(y, "p.xlsx");
    agree(&cell_look(&b, "Data", "B1"), &all[a].1, "a cell of the opened workbook");
    let mut col = 0;
    while let Some((_, l)) = all.pop() {
        let i = all.len();
        let r = if i < 26 { format!("{}2", (b'A' + i as u8) as char) } else { format!("A{}2", (b'A' + (i - 26) as u8) as char) };
        agree(&cell_look(&b, "Data", &r), &l, "a cell");
        col += 1;
    }
    sym::check(col == ids.len(), "every style is seen");
    counts(&b);
    sym::reached();
}
const FONT: &str = "<sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/>";
/// parts of a style another program may write: what kind of list it belongs to, and the element
const FOREIGN: [(usize, &str); 94] = [
    (0, "<font><b/></font>"),
    (0, "<font/>"),
    (0, "<font><b/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (0, "<font><b/><sz val=\"11\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (0, "<font><b/><sz val=\"11\"/><color theme=\"1\"/><family val=\"2\"/></font>"),
    (0, "<font><b/><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/></font>"),
    (0, "<font><b val=\"0\"/>@</font>"),
    (0, "<font><b val=\"1\"/>@</font>"),
    (0, "<font><b val=\"false\"/>@</font>"),
    (0, "<font><b val=\"true\"/>@</font>"),
    (0, "<font><i val=\"0\"/>@</font>"),
    (0, "<font><i/>@</font>"),
    (0, "<font><b/><i val=\"false\"/>@</font>"),
    (0, "<font><u/>@</font>"),
    (0, "<font><u val=\"single\"/>@</font>"),
    (0, "<font><u val=\"none\"/>@</font>"),
    (0, "<font><u val=\"double\"/>@</font>"),
    (0, "<font><u val=\"singleAccounting\"/>@</font>"),
    (0, "<font><u val=\"doubleAccounting\"/>@</font>"),
    (0, "<font><strike/>@</font>"),
    (0, "<font><b/><outline/>@</font>"),
    (0, "<font><shadow/>@</font>"),
    (0, "<font>@<vertAlign val=\"superscript\"/></font>"),
    (0, "<font><b/><sz val=\"11.5\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (0, "<font><b/><sz val=\"12\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (0, "<font><b/><sz val=\"11\"/><color auto=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (0, "<font><b/><sz val=\"11\"/><color theme=\"1\" tint=\"0.5\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (0, "<font><b/><sz val=\"11\"/><color indexed=\"8\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (0, "<font><sz val=\"11\"/><color rgb=\"FF00FF00\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"none\"/></font>"),
    (0, "<font><b/><sz val=\"11\"/><color theme=\"1\"/><name val=\"Arial\"/><family val=\"2\"/></font>"),
    (0, "<font><sz val=\"11\"/><color indexed=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/></font>"),
    (1, "<fill/>"),
    (1, "<fill><patternFill/></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"/></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FF00FF00\"/><bgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FFFF0000\"/><bgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"><bgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><patternFill patternType=\"none\"><fgColor rgb=\"FF00FF00\"/><bgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><patternFill patternType=\"darkGray\"><fgColor rgb=\"FF00FF00\"/><bgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><patternFill><fgColor rgb=\"FF00FF00\"/><bgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FF00FF00\" tint=\"0.5\"/><bgColor rgb=\"FF00FF00\"/></patternFill></fill>"),
    (1, "<fill><gradientFill degree=\"90\"><stop position=\"0\"><color rgb=\"FF00FF00\"/></stop><stop position=\"1\"><color rgb=\"FF00FF00\"/></stop></gradientFill></fill>"),
    (1, "<fill><patternFill patternType=\"lightUp\"/></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"><fgColor theme=\"4\"/><bgColor theme=\"5\"/></patternFill></fill>"),
    (1, "<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FF00FF00\"/><bgColor indexed=\"5\"/></patternFill></fill>"),
    (2, "<border/>"),
    (2, "<border><left style=\"thin\"><color theme=\"4\"/></left><right/><top/><bottom/></border>"),
    (2, "<border><right style=\"thin\"><color theme=\"4\"/></right></border>"),
    (2, "<border><left style=\"thin\"/><right/><top/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"dashDot\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"dashDotDot\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"dashed\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"dotted\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"double\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"hair\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"medium\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"mediumDashDot\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"mediumDashDotDot\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"mediumDashed\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"slantDashDot\"/><bottom/><diagonal/></border>"),
    (2, "<border><left/><right/><top style=\"thick\"/><bottom/><diagonal/></border>"),
    (2, "<border><left style=\"none\"><color theme=\"4\"/></left><right/><top/><bottom/><diagonal/></border>"),
    (2, "<border><left><color theme=\"4\"/></left><right/><top/><bottom/><diagonal/></border>"),
    (2, "<border><left style=\"thin\"><color auto=\"1\"/></left><right/><top/><bottom/><diagonal/></border>"),
    (2, "<border><left style=\"thin\"><color theme=\"4\" tint=\"0.5\"/></left><right/><top/><bottom/><diagonal/></border>"),
    (2, "<border><left style=\"thin\"><color indexed=\"4\"/></left><right/><top/><bottom/><diagonal/></border>"),
    (2, "<border outline=\"0\"><left style=\"thin\"><color theme=\"4\"/></left><right/><top/><bottom/><diagonal/></border>"),
    (2, "<border diagonalDown=\"1\"><left/><right/><top/><bottom/><diagonal style=\"thin\"><color theme=\"4\"/></diagonal></border>"),
    (2, "<border><left/><right/><top style=\"thin\"><color theme=\"4\"/></top><bottom/><diagonal/><vertical style=\"thin\"/></border>"),
    (2, "<border><left/><right/><top style=\"mediumDashed\"><color theme=\"4\"/></top><bottom style=\"thin\"><color theme=\"4\"/></bottom><diagonal/></border>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" quotePrefix=\"1\"/>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" pivotButton=\"1\"/>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyProtection=\"1\"><protection locked=\"0\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"><protection hidden=\"1\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment wrapText=\"1\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment wrapText=\"true\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"0\"><alignment wrapText=\"1\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"><alignment wrapText=\"1\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment horizontal=\"left\" indent=\"2\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment horizontal=\"left\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment horizontal=\"fill\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment vertical=\"justify\" wrapText=\"1\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment textRotation=\"90\"/></xf>"),
    (3, "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyAlignment=\"1\"><alignment wrapText=\"1\" shrinkToFit=\"1\"/></xf>"),
    (3, "<xf/>"),
    (3, "<xf numFmtId=\"9\"/>"),
    (3, "<xf numFmtId=\"9\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"0\"/>"),
    (3, "<xf numFmtId=\"9\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"true\"/>"),
    (3, "<xf numFmtId=\"9\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"false\" applyFont=\"false\"/>"),
    (4, "<numFmt numFmtId=\"164\" formatCode=\"0.000\"/>"),
    (4, "<numFmt numFmtId=\"165\" formatCode=\"0.0000\"/>"),
    (4, "<numFmt numFmtId=\"4000\" formatCode=\"0.000\"/>"),
    (4, "<numFmt formatCode=\"0.000\" numFmtId=\"170\"/><numFmt formatCode=\"0.000\" numFmtId=\"169\"/>"),
];
/// styles asked for beside them
fn requests() -> Vec<(StyleSetting, Look)> {
    let mut all: Vec<(StyleSetting, Look)> = Vec::new();
    all.extend(alike(0).into_iter().take(5));
    all.extend(alike(3));
    all.extend(alike(4).into_iter().take(10));
    all.extend(alike(4).into_iter().filter(|(_, l)| l.horizontal.is_empty() && !l.wrap));
    all.extend(alike(2).into_iter().take(3));
    for k in 0..6 {
        let (mut s, mut l) = (StyleSetting::default(), plain());
        match k {
            0 | 1 => {
                s.background_color = Some("FF00FF00".to_string());
                if k == 1 {
                    s.foreground_color = Some("FF00FF00".to_string());
                }
                l.fill = "rgb FF00FF00".to_string();
            }
            2 => {
                s.text_color = setting_color(0).0;
                l.color = "rgb FF00FF00".to_string();
            }
            3 => {
                s.number_format = NumberFormatValues::Percentage;
                l.format = "9".to_string();
            }
            4 => {
                s.number_format = NumberFormatValues::Custom;
                s.custom_number_format = Some("0.000".to_string());
                l.format = "0.000".to_string();
            }
            _ => {
                s.border_left.style = BorderStyleValues::Thin;
                l.left = "thin ".to_string();
            }
        }
        all.push((s, l));
    }
    all
}
/// the styles of other programs stay as they are, and are not taken for styles they are not
pub fn foreign() {
    let (kind, xml) = FOREIGN[sym::choose(FOREIGN.len())];
    let first = sym::bool();
    let xml = xml.replace('@', FONT);
    let at = |k: usize, base: &[&str]| -> String {
        let mut v: Vec<&str> = base.to_vec();
        if k == kind {
            // the first entry of a list is what cells without a style take
            if first {
                v[0] = &xml;
            } else {
                v.push(&xml);
            }
        }
        v.concat()
    };
    let last = |k: usize, n: usize| if k == kind && !first { n } else { 0 };
    let font = format!("<font>{}</font>", FONT);
    let font2 = "<font><sz val=\"14\"/><name val=\"Arial\"/></font>";
    let xf2 = format!("<xf numFmtId=\"0\" fontId=\"{}\" fillId=\"{}\" borderId=\"{}\" xfId=\"0\" applyFont=\"1\" applyFill=\"1\" applyBorder=\"1\"/>", last(0, 2), last(1, 2), last(2, 1));
    let plain_xf = "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/>";
    let formats = if kind == 4 { format!("<numFmts>{}</numFmts>", xml) } else { String::new() };
    let body = format!(
        "{}<fonts>{}</fonts><fills>{}</fills><borders>{}</borders><cellStyleXfs><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs><cellXfs>{}</cellXfs>",
        formats,
        at(0, &[&font, font2]),
        at(1, &["<fill><patternFill patternType=\"none\"/></fill>", "<fill><patternFill patternType=\"gray125\"/></fill>"]),
        at(2, &["<border><left/><right/><top/><bottom/><diagonal/></border>"]),
        at(3, &[plain_xf, &xf2]),
    );
    let mut m = make();
    m.styles = Some(styles(&body));
    m.sheet1 = sheet("<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c><c r=\"B1\" s=\"1\"><v>1</v></c></row></sheetData>");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let old = load(&p);
    let all = requests();
    let mut y = open(&p, "a valid workbook opens");
    let mut ids = Vec::new();
    for (s, _) in &all {
        ids.push(need(y.get_style_id_mut(again_setting(s)), "a style is registered"));
    }
    {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a valid sheet opens");
        let mut cells = Vec::new();
        for i in &ids {
            let mut c = num("2");
            c.style_id = Some(i.clone());
            cells.push(c);
        }
        need(ws.set_row_value_ref_mut("A2", cells), "write cells");
    }
    let b = save(y, "p.xlsx");
    for r in ["A1", "B1"] {
        agree(&cell_look(&b, "Data", r), &cell_look(&old, "Data", r), "a cell of the opened workbook");
    }
    for (i, (_, l)) in all.iter().enumerate() {
        let r = if i < 26 { format!("{}2", (b'A' + i as u8) as char) } else { format!("A{}2", (b'A' + (i - 26) as u8) as char) };
        let mut got = cell_look(&b, "Data", &r);
        if got.left == "thin auto 1" {
            // a border without a color of its own
            got.left = "thin ".to_string();
        }
        agree(&got, l, "a cell");
    }
    counts(&b);
    sym::reached();
}

/// many styles in one workbook: each keeps its own look and id, also after opening the saved file
pub fn many() {
    let n = 13;
    let setting = |i: usize| -> (StyleSetting, Look) {
        let (mut s, mut l) = (StyleSetting::default(), plain());
        match i % 4 {
            0 => {
                s.font_size = 20 + i as u8;
                l.size = (20 + i).to_string();
            }
            1 => {
                s.number_format = NumberFormatValues::Custom;
                let t = format!("0.{}", "0".repeat(i));
                s.custom_number_format = Some(t.clone());
                l.format = t;
            }
            2 => {
                let t = format!("FF0000{:02}", i);
                s.background_color = Some(t.clone());
                l.fill = format!("rgb {}", t);
            }
            _ => {
                let mut b = BorderSetting::default();
                b.style = BorderStyleValues::Thin;
                let mut c = setting_color(0).0;
                c.value = format!("FF1111{:02}", i);
                l.bottom = format!("thin rgb {}", c.value);
                b.border_color = Some(c);
                s.border_bottom = b;
            }
        }
        (s, l)
    };
    let a = sym::choose(n);
    let extra = sym::choose(ASPECTS);
    let reopen = sym::bool();
    let mut x = blank();
    let mut ids = Vec::new();
    for i in 0..n {
        ids.push(need(x.get_style_id_mut(setting(i).0), "a style is registered"));
    }
    for i in 0..n {
        for j in 0..i {
            sym::check(ids[i].get_id() != ids[j].get_id(), "different settings give different styles");
        }
    }
    let mut b = shown(x, &ids);
    let mut y = if reopen {
        open(&pkg::path("o.xlsx"), "a saved workbook opens again")
    } else {
        let mut y = blank();
        for i in 0..n {
            need(y.get_style_id_mut(setting(i).0), "a style is registered");
        }
        y
    };
    let (s, l) = with(extra, 0);
    let more = need(y.get_style_id_mut(s), "a style is registered");
    let again = need(y.get_style_id_mut(setting(a).0), "a style is registered");
    if reopen {
        let mut ws = need(y.get_worksheet_mut("Data".to_string()), "a saved sheet opens again");
        let (mut p, mut q) = (num("1"), num("2"));
        p.style_id = Some(more);
        q.style_id = Some(again);
        need(ws.set_row_value_ref_mut("A2", vec![p, q]), "write cells");
        drop(ws);
        b = save(y, "p.xlsx");
        agree(&cell_look(&b, "Data", "A2"), &l, "a cell");
        agree(&cell_look(&b, "Data", "B2"), &setting(a).1, "a cell");
    } else {
        sym::check(again.get_id() == ids[a].get_id(), "the same settings give the same style");
    }
    for i in 0..n {
        let r = format!("{}1", ["B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N"][i]);
        agree(&cell_look(&b, "Data", &r), &setting(i).1, "a cell");
    }
    agree(&cell_look(&b, "Data", "A1"), &plain(), "a cell");
    counts(&b);
    sym::reached();
}
/// a style part with more of everything than a byte counts: a new style and an old one, side by side
pub fn wide() {
    let n = 260;
    let [mut fonts, mut fills, mut borders, mut formats, mut xfs] = [String::new(), String::new(), String::new(), String::new(), String::new()];
    for i in 0..n {
        let size = 20 + i % 200;
        let color = format!("FF00{:04X}", i);
        fonts.push_str(&if i == 0 { "<font><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font>".to_string() } else { format!("<font><sz val=\"{size}\"/><color rgb=\"{color}\"/><name val=\"Calibri\"/></font>") });
        fills.push_str(&match i {
            0 => "<fill><patternFill patternType=\"none\"/></fill>".to_string(),
            1 => "<fill><patternFill patternType=\"gray125\"/></fill>".to_string(),
            _ => format!("<fill><patternFill patternType=\"solid\"><fgColor rgb=\"{color}\"/><bgColor indexed=\"64\"/></patternFill></fill>"),
        });
        borders.push_str(&if i == 0 { "<border><left/><right/><top/><bottom/><diagonal/></border>".to_string() } else { format!("<border><left/><right/><top/><bottom style=\"thin\"><color rgb=\"{color}\"/></bottom><diagonal/></border>") });
        formats.push_str(&format!("<numFmt numFmtId=\"{}\" formatCode=\"0&quot;{}&quot;\"/>", 164 + i, i));
        xfs.push_str(&if i == 0 { "<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/>".to_string() } else { format!("<xf numFmtId=\"{}\" fontId=\"{i}\" fillId=\"{i}\" borderId=\"{i}\" xfId=\"0\" applyNumberFormat=\"1\" applyFont=\"1\" applyFill=\"1\" applyBorder=\"1\"/>", 164 + i) });
    }
    let mut m = make();
    m.styles = Some(styles(&format!(
        "<numFmts count=\"{n}\">{formats}</numFmts><fonts count=\"{n}\">{fonts}</fonts><fills count=\"{n}\">{fills}</fills><borders count=\"{n}\">{borders}</borders><cellStyleXfs count=\"1\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs><cellXfs count=\"{n}\">{xfs}</cellXfs><cellStyles count=\"1\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/></cellStyles>"
    )));
    m.sheet1 = sheet("<sheetData><row r=\"1\"><c r=\"A1\" s=\"1\"><v>1</v></c><c r=\"B1\" s=\"255\"><v>1</v></c><c r=\"C1\" s=\"256\"><v>1</v></c><c r=\"D1\" s=\"259\"><v>1</v></c></row></sheetData>");
    let p = pkg::path("a.xlsx");
    pkg::write(&p, &m.parts());
    let old = load(&p);
    let mut x = open(&p, "a valid workbook opens");
    let (a, v) = (sym::choose(ASPECTS), sym::choose(2));
    let (s, l) = with(a, v);
    let new = need(x.get_style_id_mut(s), "a style is registered");
    {
        let mut ws = need(x.get_worksheet_mut("Data".to_string()), "a sheet of the list can be opened");
        let mut c = num("2");
        c.style_id = Some(new);
        need(ws.set_row_value_ref_mut("A2", vec![c]), "write cells");
    }
    let b = save(x, "o.xlsx");
    for r in ["A1", "B1", "C1", "D1"] {
        agree(&cell_look(&b, "Data", r), &cell_look(&old, "Data", r), "a cell of the opened workbook");
    }
    agree(&cell_look(&b, "Data", "A2"), &l, "a cell");
    sym::reached();
}
