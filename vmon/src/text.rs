//! Compact textual form of [`Ty`] and [`Def`], so that generated programs stay
//! small:
//! `I` independent, `P` the parameter, `t(x,y)` tuple, `a(x)` array, and for
//! named types `s(..)` sequence, `r(..)` Result, `c(..)` ControlFlow, `p(..)`
//! phantom, `h(..)` heap, `os(..)`, `om(..)`, `hs(..)`, `hm(..)` ordered and
//! hashed sets and maps, `u<i>(..)` user-defined; `_` is an argument that does
//! not depend on the parameter.

use crate::model::{Con, Def, Ty};

struct P<'a>(&'a [u8], usize);

impl P<'_> {
    fn peek(&self) -> u8 {
        self.0.get(self.1).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) {
        assert_eq!(self.peek(), c, "monitor: bad type text {:?} at {}", String::from_utf8_lossy(self.0), self.1);
        self.1 += 1;
    }
    fn word(&mut self) -> String {
        let a = self.1;
        while self.peek().is_ascii_alphanumeric() {
            self.1 += 1;
        }
        String::from_utf8_lossy(&self.0[a..self.1]).into_owned()
    }
    fn args(&mut self) -> Vec<Option<Ty>> {
        let mut v = Vec::new();
        self.eat(b'(');
        while self.peek() != b')' {
            if self.peek() == b'_' {
                self.1 += 1;
                v.push(None);
            } else {
                v.push(Some(self.ty()));
            }
            if self.peek() == b',' {
                self.1 += 1;
            }
        }
        self.eat(b')');
        v
    }
    fn ty(&mut self) -> Ty {
        let w = self.word();
        let con = match w.as_str() {
            "I" => return Ty::Indep,
            "P" => return Ty::Param,
            "t" => return Ty::Tuple(self.args().into_iter().map(|t| t.unwrap_or(Ty::Indep)).collect()),
            "a" => return Ty::Array(Box::new(self.args().remove(0).unwrap())),
            "s" => Con::Seq,
            "r" => Con::Variant(0),
            "c" => Con::Variant(1),
            "p" => Con::Phantom,
            "h" => Con::Heap,
            "os" => Con::OrdSet,
            "om" => Con::OrdMap,
            "hs" => Con::HashSet,
            "hm" => Con::HashMap,
            u => Con::User(u.strip_prefix('u').and_then(|n| n.parse().ok()).expect("monitor: bad type text")),
        };
        Ty::App(con, self.args())
    }
}

impl Ty {
    pub fn parse(s: &str) -> Ty {
        let mut p = P(s.as_bytes(), 0);
        let t = p.ty();
        assert_eq!(p.1, s.len(), "monitor: bad type text {s:?}");
        t
    }
}

impl Def {
    /// `params`: per type or const parameter; variants are separated by `/`,
    /// fields by `;`
    pub fn parse(name: &'static str, params: &[&str]) -> Def {
        Def {
            name,
            params: params
                .iter()
                .map(|p| {
                    p.split('/')
                        .map(|v| v.split(';').filter(|f| !f.is_empty()).map(Ty::parse).collect())
                        .collect()
                })
                .collect(),
        }
    }
}
