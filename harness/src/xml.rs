//! An independent, strict XML reader used as oracle.  Under the symbolic executor `parse` is a primitive
//! with the same definition.
#[derive(Debug, Clone)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub text: String,
    pub kids: Vec<Node>,
}

/// the order of attributes means nothing
impl PartialEq for Node {
    fn eq(&self, o: &Node) -> bool {
        self.name == o.name && self.attrs.len() == o.attrs.len() && self.attrs.iter().all(|a| o.attr(&a.0) == Some(a.1.as_str())) && self.text == o.text && self.kids == o.kids
    }
}
impl Node {
    pub fn attr(&self, n: &str) -> Option<&str> {
        let mut i = 0;
        while i < self.attrs.len() {
            if self.attrs[i].0 == n {
                return Some(&self.attrs[i].1);
            }
            i += 1;
        }
        None
    }
    pub fn kid(&self, n: &str) -> Option<&Node> {
        let mut i = 0;
        while i < self.kids.len() {
            if self.kids[i].name == n {
                return Some(&self.kids[i]);
            }
            i += 1;
        }
        None
    }
    pub fn all(&self, n: &str) -> Vec<&Node> {
        let mut v = Vec::new();
        let mut i = 0;
        while i < self.kids.len() {
            if self.kids[i].name == n {
                v.push(&self.kids[i]);
            }
            i += 1;
        }
        v
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

fn is_space(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r'
}
fn is_name_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_' || c == b':' || c >= 0x80
}
fn is_name(c: u8) -> bool {
    is_name_start(c) || c.is_ascii_digit() || c == b'-' || c == b'.'
}
fn legal_char(c: u8) -> bool {
    c >= 0x20 || c == b'\t' || c == b'\n' || c == b'\r'
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        if self.i < self.b.len() {
            Some(self.b[self.i])
        } else {
            None
        }
    }
    fn starts(&self, s: &[u8]) -> bool {
        self.b[self.i..].starts_with(s)
    }
    fn ws(&mut self) {
        while self.peek().map(is_space).unwrap_or(false) {
            self.i += 1;
        }
    }
    fn until(&mut self, s: &[u8]) -> Result<Vec<u8>, String> {
        let st = self.i;
        while self.i < self.b.len() {
            if self.starts(s) {
                let r = self.b[st..self.i].to_vec();
                self.i += s.len();
                return Ok(r);
            }
            self.i += 1;
        }
        Err("unterminated".to_string())
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => {}
            _ => return Err("name expected".to_string()),
        }
        while self.peek().map(is_name).unwrap_or(false) {
            self.i += 1;
        }
        String::from_utf8(self.b[st..self.i].to_vec()).map_err(|_| "utf8".to_string())
    }
    /// a reference, after '&'
    fn entity(&mut self, out: &mut Vec<u8>) -> Result<(), String> {
        let st = self.i;
        while let Some(c) = self.peek() {
            if c == b';' {
                break;
            }
            if !(c.is_ascii_alphanumeric() || c == b'#') {
                return Err("bad reference".to_string());
            }
            self.i += 1;
        }
        if self.peek() != Some(b';') {
            return Err("bad reference".to_string());
        }
        let e = self.b[st..self.i].to_vec();
        self.i += 1;
        match e.as_slice() {
            b"amp" => out.push(b'&'),
            b"lt" => out.push(b'<'),
            b"gt" => out.push(b'>'),
            b"quot" => out.push(b'"'),
            b"apos" => out.push(b'\''),
            _ => {
                let n = if e.len() > 2 && e[0] == b'#' && e[1] == b'x' {
                    u32::from_str_radix(std::str::from_utf8(&e[2..]).map_err(|_| "ref")?, 16)
                } else if e.len() > 1 && e[0] == b'#' {
                    std::str::from_utf8(&e[1..]).map_err(|_| "ref")?.parse::<u32>()
                } else {
                    return Err("unknown entity".to_string());
                };
                let c = n.ok().and_then(char::from_u32).ok_or("bad character reference")?;
                if (c as u32) < 0x80 && !legal_char(c as u32 as u8) {
                    return Err("reference to an illegal character".to_string());
                }
                let mut buf = [0u8; 4];
                out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
            }
        }
        Ok(())
    }
    fn element(&mut self, depth: usize) -> Result<Node, String> {
        // at '<' + name start
        self.i += 1;
        let name = self.name()?;
        let mut node = Node { name, attrs: Vec::new(), text: String::new(), kids: Vec::new() };
        loop {
            let had = self.peek().map(is_space).unwrap_or(false);
            self.ws();
            match self.peek() {
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                Some(b'/') => {
                    if !self.starts(b"/>") {
                        return Err("stray /".to_string());
                    }
                    self.i += 2;
                    return Ok(node);
                }
                Some(_) => {
                    if !had {
                        return Err("space expected before attribute".to_string());
                    }
                    let an = self.name()?;
                    self.ws();
                    if self.peek() != Some(b'=') {
                        return Err("= expected".to_string());
                    }
                    self.i += 1;
                    self.ws();
                    let q = match self.peek() {
                        Some(q) if q == b'"' || q == b'\'' => q,
                        _ => return Err("quote expected".to_string()),
                    };
                    self.i += 1;
                    let mut v = Vec::new();
                    loop {
                        match self.peek() {
                            None => return Err("unterminated attribute".to_string()),
                            Some(c) if c == q => {
                                self.i += 1;
                                break;
                            }
                            Some(b'<') => return Err("< in attribute".to_string()),
                            Some(b'&') => {
                                self.i += 1;
                                self.entity(&mut v)?;
                            }
                            Some(c) => {
                                if !legal_char(c) {
                                    return Err("illegal character".to_string());
                                }
                                self.i += 1;
                                // attribute-value normalisation
                                v.push(if c == b'\n' || c == b'\t' || c == b'\r' { b' ' } else { c });
                            }
                        }
                    }
                    if node.attrs.iter().any(|a| a.0 == an) {
                        return Err("duplicate attribute".to_string());
                    }
                    node.attrs.push((an, String::from_utf8(v).map_err(|_| "utf8".to_string())?));
                }
                None => return Err("unterminated tag".to_string()),
            }
        }
        let mut text = Vec::new();
        loop {
            match self.peek() {
                None => return Err("unterminated element".to_string()),
                Some(b'<') => {
                    if self.starts(b"</") {
                        self.i += 2;
                        let n = self.name()?;
                        self.ws();
                        if self.peek() != Some(b'>') || n != node.name {
                            return Err("mismatched end tag".to_string());
                        }
                        self.i += 1;
                        break;
                    } else if self.starts(b"<!--") {
                        self.i += 4;
                        self.until(b"-->")?;
                    } else if self.starts(b"<![CDATA[") {
                        self.i += 9;
                        let t = self.until(b"]]>")?;
                        text.extend_from_slice(&t);
                    } else if self.starts(b"<?") {
                        self.i += 2;
                        self.until(b"?>")?;
                    } else {
                        if depth > 60 {
                            return Err("too deep".to_string());
                        }
                        let k = self.element(depth + 1)?;
                        node.kids.push(k);
                    }
                }
                Some(b'&') => {
                    self.i += 1;
                    self.entity(&mut text)?;
                }
                Some(c) => {
                    if !legal_char(c) {
                        return Err("illegal character".to_string());
                    }
                    self.i += 1;
                    // end-of-line normalisation
                    if c == b'\r' {
                        if self.peek() == Some(b'\n') {
                            self.i += 1;
                        }
                        text.push(b'\n');
                    } else {
                        text.push(c);
                    }
                }
            }
        }
        node.text = String::from_utf8(text).map_err(|_| "utf8".to_string())?;
        Ok(node)
    }
}

/// Parse a document; None when it is not well formed.
pub fn parse(b: &[u8]) -> Option<Node> {
    let mut p = P { b, i: 0 };
    if p.starts(b"\xef\xbb\xbf") {
        p.i += 3;
    }
    let mut root: Option<Node> = None;
    loop {
        p.ws();
        match p.peek() {
            None => break,
            Some(b'<') => {
                if p.starts(b"<?") {
                    p.i += 2;
                    p.until(b"?>").ok()?;
                } else if p.starts(b"<!--") {
                    p.i += 4;
                    p.until(b"-->").ok()?;
                } else {
                    if root.is_some() {
                        return None;
                    }
                    root = Some(p.element(0).ok()?);
                }
            }
            Some(_) => return None,
        }
    }
    root
}
