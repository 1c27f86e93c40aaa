//! Stand-in for the code `flatc` generates from /repo/fbs: the tables the foreign interface reads.
//! A table is a byte string that starts with 7; see the scenarios in `scen/ffi.rs`.
pub mod openxml_office_fbs {
    pub mod spreadsheet_2007 {
        use draviavemal_openxml_office::spreadsheet_2007::models::BorderSetting;

        pub struct ExcelPropertiesModel<'a>(&'a [u8]);
        impl<'a> flatbuffers::Table<'a> for ExcelPropertiesModel<'a> {
            fn read(b: &'a [u8]) -> Option<Self> {
                if b.len() == 3 && b[0] == 7 {
                    Some(ExcelPropertiesModel(b))
                } else {
                    None
                }
            }
        }
        impl<'a> ExcelPropertiesModel<'a> {
            pub fn is_in_memory(&self) -> bool {
                self.0[1] != 0
            }
            pub fn is_editable(&self) -> bool {
                self.0[2] != 0
            }
        }

        pub struct StyleSetting<'a>(&'a [u8]);
        impl<'a> flatbuffers::Table<'a> for StyleSetting<'a> {
            fn read(b: &'a [u8]) -> Option<Self> {
                if b.len() > 8 && b[0] == 7 {
                    Some(StyleSetting(b))
                } else {
                    None
                }
            }
        }
        impl<'a> StyleSetting<'a> {
            fn text(&self, n: usize) -> Option<&'a str> {
                let mut i = 5;
                for _ in 0..n {
                    i += 1 + if self.0[i] == 255 { 0 } else { self.0[i] as usize };
                }
                if self.0[i] == 255 {
                    None
                } else {
                    std::str::from_utf8(&self.0[i + 1..i + 1 + self.0[i] as usize]).ok()
                }
            }
            fn flag(&self, n: u8) -> bool {
                self.0[3] & (1 << n) != 0
            }
            pub fn number_format(&self) -> u16 {
                self.0[1] as u16 + 256 * self.0[2] as u16
            }
            pub fn custom_number_format(&self) -> Option<&'a str> {
                self.text(0)
            }
            pub fn font_family(&self) -> Option<&'a str> {
                self.text(1)
            }
            pub fn background_color(&self) -> Option<&'a str> {
                self.text(2)
            }
            pub fn foreground_color(&self) -> Option<&'a str> {
                self.text(3)
            }
            pub fn font_size(&self) -> u8 {
                self.0[4]
            }
            pub fn text_color(&self) -> Option<()> {
                None
            }
            pub fn border_left(&self) -> BorderSetting {
                BorderSetting::default()
            }
            pub fn border_top(&self) -> BorderSetting {
                BorderSetting::default()
            }
            pub fn border_right(&self) -> BorderSetting {
                BorderSetting::default()
            }
            pub fn border_bottom(&self) -> BorderSetting {
                BorderSetting::default()
            }
            pub fn border_diagonal(&self) -> BorderSetting {
                BorderSetting::default()
            }
            pub fn is_bold(&self) -> bool {
                self.flag(0)
            }
            pub fn is_italic(&self) -> bool {
                self.flag(1)
            }
            pub fn is_underline(&self) -> bool {
                self.flag(2)
            }
            pub fn is_double_underline(&self) -> bool {
                self.flag(3)
            }
            pub fn is_wrap_text(&self) -> bool {
                self.flag(4)
            }
            pub fn protect(&self) -> bool {
                self.flag(5)
            }
        }
    }
    pub mod presentation_2007 {
        pub struct PresentationPropertiesModel<'a>(&'a [u8]);
        impl<'a> flatbuffers::Table<'a> for PresentationPropertiesModel<'a> {
            fn read(b: &'a [u8]) -> Option<Self> {
                if b.len() == 3 && b[0] == 7 {
                    Some(PresentationPropertiesModel(b))
                } else {
                    None
                }
            }
        }
        impl<'a> PresentationPropertiesModel<'a> {
            pub fn is_in_memory(&self) -> bool {
                self.0[1] != 0
            }
        }
    }
    pub mod document_2007 {
        pub struct DocumentPropertiesModel<'a>(&'a [u8]);
        impl<'a> flatbuffers::Table<'a> for DocumentPropertiesModel<'a> {
            fn read(b: &'a [u8]) -> Option<Self> {
                if b.len() == 3 && b[0] == 7 {
                    Some(DocumentPropertiesModel(b))
                } else {
                    None
                }
            }
        }
        impl<'a> DocumentPropertiesModel<'a> {
            pub fn is_in_memory(&self) -> bool {
                self.0[1] != 0
            }
        }
    }
}
