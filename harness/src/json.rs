//! A small JSON reader/writer (the sandbox is offline and the harness needs no more).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        *self.get(k) != J::Null
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => *b as i64,
            _ => panic!("harness: not an int: {:?}", self),
        }
    }
    pub fn usz(&self) -> usize {
        self.int() as usize
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: not a string: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => panic!("harness: not an array: {:?}", self),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
    pub fn push(&mut self, k: &str, v: impl Into<J>) {
        if let J::Obj(o) = self {
            o.push((k.to_string(), v.into()));
        }
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                out.push_str(&format!("\\u{:04x}", u));
                            }
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

impl From<i64> for J {
    fn from(x: i64) -> J {
        J::Int(x)
    }
}
impl From<i32> for J {
    fn from(x: i32) -> J {
        J::Int(x as i64)
    }
}
impl From<u32> for J {
    fn from(x: u32) -> J {
        J::Int(x as i64)
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::Int(x as i64)
    }
}
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::Str(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::Str(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::Arr(x.into_iter().map(|y| y.into()).collect())
    }
}
impl<T: Into<J> + Clone> From<&[T]> for J {
    fn from(x: &[T]) -> J {
        J::Arr(x.iter().cloned().map(|y| y.into()).collect())
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i);
    ws(b, &mut i);
    assert!(i == b.len(), "harness: trailing JSON");
    v
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i) {
                    J::Str(s) => s,
                    _ => panic!("harness: bad key"),
                };
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                let x = val(b, i);
                v.push((k, x));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut s: Vec<u8> = vec![];
            loop {
                let c = b[*i];
                *i += 1;
                match c {
                    b'"' => return J::Str(String::from_utf8(s).unwrap()),
                    b'\\' => {
                        let e = b[*i];
                        *i += 1;
                        let ch = match e {
                            b'n' => '\n',
                            b't' => '\t',
                            b'r' => '\r',
                            b'b' => '\u{8}',
                            b'f' => '\u{c}',
                            b'u' => {
                                let h = |i: &mut usize| {
                                    let x =
                                        u32::from_str_radix(std::str::from_utf8(&b[*i..*i + 4]).unwrap(), 16).unwrap();
                                    *i += 4;
                                    x
                                };
                                let u = h(i);
                                if (0xD800..0xDC00).contains(&u) {
                                    *i += 2;
                                    let l = h(i);
                                    char::from_u32(0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00)).unwrap()
                                } else {
                                    char::from_u32(u).unwrap()
                                }
                            }
                            x => x as char,
                        };
                        let mut buf = [0u8; 4];
                        s.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                    }
                    c => s.push(c),
                }
            }
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::Int(
                std::str::from_utf8(&b[st..*i])
                    .unwrap()
                    .parse()
                    .expect("harness: bad int"),
            )
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*])
    };
}
