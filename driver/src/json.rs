//! minimal JSON value: writer and parser
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

pub fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
pub fn i(x: usize) -> J {
    J::I(x as i128)
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    J::S(n.to_string()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    J::S(n.to_string()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::M(v) => v.iter().find(|(n, _)| n == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn st(&self, k: &str) -> String {
        match self.get(k) {
            Some(J::S(s)) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn us(&self, k: &str) -> usize {
        match self.get(k) {
            Some(J::I(s)) => *s as usize,
            _ => usize::MAX,
        }
    }
    pub fn arr(&self, k: &str) -> Vec<J> {
        match self.get(k) {
            Some(J::A(s)) => s.clone(),
            _ => vec![],
        }
    }
}

pub fn parse(t: &str) -> J {
    let c: Vec<char> = t.chars().collect();
    let mut p = 0;
    val(&c, &mut p)
}
fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1
    }
}
fn val(c: &[char], p: &mut usize) -> J {
    ws(c, p);
    if *p >= c.len() {
        return J::Null;
    }
    match c[*p] {
        '{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(c, p);
                if c[*p] == '}' {
                    *p += 1;
                    break;
                }
                if c[*p] == ',' {
                    *p += 1;
                    continue;
                }
                let k = match val(c, p) {
                    J::S(s) => s,
                    _ => panic!("json key"),
                };
                ws(c, p);
                assert!(c[*p] == ':');
                *p += 1;
                v.push((k, val(c, p)));
            }
            J::M(v)
        }
        '[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(c, p);
                if c[*p] == ']' {
                    *p += 1;
                    break;
                }
                if c[*p] == ',' {
                    *p += 1;
                    continue;
                }
                v.push(val(c, p));
            }
            J::A(v)
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            while c[*p] != '"' {
                if c[*p] == '\\' {
                    *p += 1;
                    match c[*p] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'u' => {
                            let h: String = c[*p + 1..*p + 5].iter().collect();
                            s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap_or('?'));
                            *p += 4;
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(c[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::S(s)
        }
        't' => {
            *p += 4;
            J::B(true)
        }
        'f' => {
            *p += 5;
            J::B(false)
        }
        'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < c.len() && (c[*p] == '-' || c[*p].is_ascii_digit()) {
                *p += 1
            }
            let n: String = c[st..*p].iter().collect();
            J::I(n.parse().unwrap())
        }
    }
}
