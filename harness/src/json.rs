//! A strict JSON reader that keeps member order and duplicates, and the views of it that the
//! traces use.

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { s: s.as_bytes(), i: 0, t: s };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing characters at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    s: &'a [u8],
    t: &'a str,
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == c && self.i < self.s.len() {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.i))
        }
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b']')?;
                        return Ok(J::Arr(v));
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::Obj(v));
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                if self.peek() == b'-' {
                    self.i += 1;
                }
                let d0 = self.i;
                while self.peek().is_ascii_digit() {
                    self.i += 1;
                }
                if self.i == d0 || (self.s[d0] == b'0' && self.i > d0 + 1) {
                    return Err(format!("bad number at {}", st));
                }
                if self.peek() == b'.' {
                    self.i += 1;
                    let d = self.i;
                    while self.peek().is_ascii_digit() {
                        self.i += 1;
                    }
                    if self.i == d {
                        return Err(format!("bad number at {}", st));
                    }
                }
                if matches!(self.peek(), b'e' | b'E') {
                    self.i += 1;
                    if matches!(self.peek(), b'+' | b'-') {
                        self.i += 1;
                    }
                    let d = self.i;
                    while self.peek().is_ascii_digit() {
                        self.i += 1;
                    }
                    if self.i == d {
                        return Err(format!("bad number at {}", st));
                    }
                }
                Ok(J::Num(self.t[st..self.i].to_string()))
            }
            _ => Err(format!("unexpected character at {}", self.i)),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.t.get(self.i..self.i + 4).ok_or("short escape")?;
        if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Err("bad escape".into());
        }
        self.i += 4;
        u32::from_str_radix(h, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut o = String::new();
        loop {
            let c = self.t[self.i..].chars().next().ok_or("open string")?;
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' => o.push('"'),
                        b'\\' => o.push('\\'),
                        b'/' => o.push('/'),
                        b'b' => o.push('\u{8}'),
                        b'f' => o.push('\u{c}'),
                        b'n' => o.push('\n'),
                        b'r' => o.push('\r'),
                        b't' => o.push('\t'),
                        b'u' => {
                            let a = self.hex4()?;
                            let cp = if (0xd800..0xdc00).contains(&a) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return Err("lone surrogate".into());
                                }
                                0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                            } else {
                                a
                            };
                            o.push(char::from_u32(cp).ok_or("lone surrogate")?);
                        }
                        _ => return Err("bad escape".into()),
                    }
                }
                c if (c as u32) < 0x20 => return Err("control character in string".into()),
                c => o.push(c),
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    pub fn obj(&self) -> &[(String, J)] {
        match self {
            J::Obj(v) => v,
            _ => &[],
        }
    }
    pub fn str(&self) -> String {
        match self {
            J::Str(s) => s.clone(),
            x => format!("<not a string: {:?}>", x).chars().take(60).collect(),
        }
    }
    /// An integer that TLC can hold, or -1.
    pub fn int(&self) -> i64 {
        match self {
            J::Num(n) => n.parse::<i64>().ok().filter(|v| v.abs() < 1 << 30).unwrap_or(-1_000_001),
            _ => -1_000_002,
        }
    }
    pub fn f64(&self) -> f64 {
        match self {
            J::Num(n) => n.parse().unwrap_or(f64::NAN),
            _ => f64::NAN,
        }
    }
}

/// The n with tf == sqrt(n) to the last bit, or -1.
pub fn root_of(tf: f64) -> i64 {
    let n = (tf * tf).round();
    if n.is_finite() && n >= 0.0 && n < 1e9 && n.sqrt().to_bits() == tf.to_bits() {
        n as i64
    } else {
        -1
    }
}

/// The number that serde_json reads for this text, if it is not the number it denotes.
fn misread(t: &str) -> Option<f64> {
    let exact: f64 = t.parse().ok()?;
    let read: f64 = serde_json::from_str(t).ok()?;
    if read.to_bits() == exact.to_bits() { None } else { Some(read) }
}

/// The document as serde_json reads it: with the numbers that it misreads replaced. These are
/// collected as well.
pub fn as_read(j: &J, moved: &mut Vec<(f64, f64)>) -> J {
    match j {
        J::Num(t) => match misread(t) {
            None => j.clone(),
            Some(x) => {
                moved.push((t.parse().unwrap(), x));
                J::Num(serde_json::to_string(&x).unwrap())
            }
        },
        J::Arr(v) => J::Arr(v.iter().map(|x| as_read(x, moved)).collect()),
        J::Obj(v) => J::Obj(v.iter().map(|(k, x)| (k.clone(), as_read(x, moved))).collect()),
        _ => j.clone(),
    }
}
