use crate::error::Error;
use crate::error::{err, ErrorKind};

pub trait FromJwk: Sized {
    fn from_jwk(jwk: &str) -> Result<Self, Error> {
        let p = parse(jwk)?;
        Self::from_jwk_parts(&p)
    }
    #[doc(hidden)]
    fn from_jwk_parts(p: &JwkParts) -> Result<Self, Error>;
}
pub trait ToJwk {
    fn to_jwk_public(&self, alg: Option<()>) -> Result<String, Error>;
}
#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct JwkParts {
    pub kty: Option<String>,
    pub crv: Option<String>,
    pub x: Option<String>,
    pub y: Option<String>,
    pub d: Option<String>,
}

/// Minimal JSON object reader: string members by name, everything else skipped.
fn parse(s: &str) -> Result<JwkParts, Error> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let mut out = JwkParts::default();
    match p.object(&mut out) {
        Some(()) => {
            p.ws();
            if p.i != p.b.len() || out.kty.is_none() {
                return err(ErrorKind::Invalid);
            }
            Ok(out)
        }
        None => err(ErrorKind::Invalid),
    }
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut v = Vec::new();
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(v).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => v.push(b'\n'),
                        b't' => v.push(b'\t'),
                        b'r' => v.push(b'\r'),
                        b'b' => v.push(8),
                        b'f' => v.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
                            self.i += 4;
                            let cp = u32::from_str_radix(h, 16).ok()?;
                            let ch = char::from_u32(cp).unwrap_or('\u{fffd}');
                            v.extend_from_slice(ch.to_string().as_bytes());
                        }
                        x => v.push(x),
                    }
                }
                x => v.push(x),
            }
        }
    }
    fn skip(&mut self, depth: usize) -> Option<()> {
        if depth > 200 {
            return None;
        }
        self.ws();
        match *self.b.get(self.i)? {
            b'"' => self.string().map(|_| ()),
            b'{' => {
                self.i += 1;
                self.ws();
                if self.eat(b'}').is_some() {
                    return Some(());
                }
                loop {
                    self.string()?;
                    self.eat(b':')?;
                    self.skip(depth + 1)?;
                    if self.eat(b',').is_none() {
                        return self.eat(b'}');
                    }
                }
            }
            b'[' => {
                self.i += 1;
                if self.eat(b']').is_some() {
                    return Some(());
                }
                loop {
                    self.skip(depth + 1)?;
                    if self.eat(b',').is_none() {
                        return self.eat(b']');
                    }
                }
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && !matches!(self.b[self.i], b',' | b'}' | b']' | b' ' | b'\n' | b'\r' | b'\t') {
                    self.i += 1;
                }
                if st == self.i {
                    None
                } else {
                    Some(())
                }
            }
        }
    }
    fn object(&mut self, out: &mut JwkParts) -> Option<()> {
        self.eat(b'{')?;
        if self.eat(b'}').is_some() {
            return Some(());
        }
        loop {
            let k = self.string()?;
            self.eat(b':')?;
            let slot = match k.as_str() {
                "kty" => Some(&mut out.kty),
                "crv" => Some(&mut out.crv),
                "x" => Some(&mut out.x),
                "y" => Some(&mut out.y),
                "d" => Some(&mut out.d),
                _ => None,
            };
            match slot {
                Some(s) => *s = Some(self.string()?),
                None => self.skip(0)?,
            }
            if self.eat(b',').is_none() {
                return self.eat(b'}');
            }
        }
    }
}
