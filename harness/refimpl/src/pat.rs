//! Generator of flex patterns, and the syntax they stay within (see DESIGN.md, P18).
use crate::gen::Rng;
use crate::rx::{byte, class, Re};

/// Is this pattern text within the supported flex syntax? (see DESIGN.md, P18)
pub fn valid(p: &str, defs: &[(String, String)]) -> bool {
    struct V<'a> { s: &'a [u8], i: usize, defs: &'a [(String, String)] }
    impl V<'_> {
        fn peek(&self) -> Option<u8> { self.s.get(self.i).copied() }
        fn esc(&mut self) -> Option<u8> {
            let c = self.peek()?;
            self.i += 1;
            Some(match c {
                b'n' => b'\n', b't' => b'\t', b'r' => b'\r', b'f' => 0x0c, b'v' => 0x0b, b'b' => 8, b'a' => 7,
                b'x' => { let mut v = 0u32; let mut k = 0; while k < 2 && self.peek().map_or(false, |c| c.is_ascii_hexdigit()) { v = v * 16 + (self.peek()? as char).to_digit(16)?; self.i += 1; k += 1; } if k == 0 || v == 0 { return None; } v as u8 }
                b'0'..=b'7' => { let mut v = (c - b'0') as u32; let mut k = 1; while k < 3 && self.peek().map_or(false, |c| (b'0'..=b'7').contains(&c)) { v = v * 8 + (self.peek()? - b'0') as u32; self.i += 1; k += 1; } if v == 0 || v > 255 { return None; } v as u8 }
                b'8' | b'9' => return None,
                c if c.is_ascii_graphic() && !c.is_ascii_alphabetic() => c,
                b' ' => b' ',
                _ => return None,
            })
        }
        fn alt(&mut self, depth: usize) -> Option<()> {
            if depth > 30 { return None; }
            loop { self.cat(depth)?; if self.peek() == Some(b'|') { self.i += 1; } else { return Some(()); } }
        }
        fn cat(&mut self, depth: usize) -> Option<()> {
            let mut n = 0;
            while let Some(c) = self.peek() {
                if c == b'|' || c == b')' { break; }
                self.atom(depth)?;
                n += 1;
                loop {
                    match self.peek() {
                        Some(b'*') | Some(b'+') | Some(b'?') => self.i += 1,
                        Some(b'{') if self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit()) => {
                            let e = self.s[self.i..].iter().position(|&c| c == b'}')?;
                            let t = std::str::from_utf8(&self.s[self.i + 1..self.i + e]).ok()?;
                            let (a, b) = match t.split_once(',') { Some((a, b)) => (a, b), None => (t, t) };
                            if a.len() > 3 || b.len() > 3 || !b.bytes().all(|c| c.is_ascii_digit()) || !a.bytes().all(|c| c.is_ascii_digit()) { return None; }
                            let (a, b): (u32, u32) = (a.parse().ok()?, b.parse().ok()?);
                            if a > b || b == 0 || b > 300 { return None; }
                            self.i += e + 1;
                        }
                        _ => break,
                    }
                }
            }
            if n == 0 { None } else { Some(()) }
        }
        fn atom(&mut self, depth: usize) -> Option<()> {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'(' => { if self.peek() == Some(b'?') { return None; } self.alt(depth + 1)?; if self.peek()? != b')' { return None; } self.i += 1; }
                b'\\' => { self.esc()?; }
                b'"' => {
                    let mut n = 0;
                    loop { let c = self.peek()?; self.i += 1; match c { b'"' => break, b'\\' => { self.esc()?; } b'\n' => return None, c if c < 0x80 => {} _ => return None } n += 1; }
                    if n == 0 { return None; }
                }
                b'[' => {
                    if self.peek() == Some(b'^') { self.i += 1; }
                    let mut n = 0;
                    loop {
                        let c = self.peek()?;
                        self.i += 1;
                        if c == b']' { if n == 0 { return None; } break; }
                        if c == b'[' && self.peek() == Some(b':') { return None; }
                        // a hyphen in the middle that opens no range is not flex
                        if c == b'-' && n > 0 && self.peek() != Some(b']') { return None; }
                        let lo = if c == b'\\' { self.esc()? } else { c };
                        if lo == b'\n' && c != b'\\' || c >= 0x80 { return None; }
                        n += 1;
                        if self.peek() == Some(b'-') && *self.s.get(self.i + 1)? != b']' {
                            self.i += 1;
                            let c = self.peek()?;
                            self.i += 1;
                            let hi = if c == b'\\' { self.esc()? } else { c };
                            if hi < lo || c >= 0x80 || c == b'[' { return None; }
                        }
                    }
                }
                b'{' => {
                    let e = self.s[self.i..].iter().position(|&c| c == b'}')?;
                    let n = std::str::from_utf8(&self.s[self.i..self.i + e]).ok()?;
                    if !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') || n.starts_with(|c: char| c.is_ascii_digit()) || !self.defs.iter().any(|d| d.0 == n) { return None; }
                    self.i += e + 1;
                }
                b'*' | b'+' | b'?' | b']' | b'}' | b')' | b'|' | b'/' | b'^' | b'$' | b'<' | b'>' => return None,
                c if c <= b' ' || c >= 0x7f => return None,
                _ => {}
            }
            Some(())
        }
    }
    let mut v = V { s: p.as_bytes(), i: 0, defs };
    v.alt(0).is_some() && v.i == p.len()
}


// ---------------------------------------------------------------- generator
pub struct Gen<'a> { pub r: &'a mut Rng, pub names: Vec<(String, Re)>, pub alpha: Vec<u8> }
const OPS: &[u8] = b"|()[]{}*+?.\"\\/^$<>- ";

impl Gen<'_> {
    fn sym(&mut self) -> u8 {
        match self.r.below(20) { 0 => *self.r.pick(b"\n\t\r\x0c\x0b\x08\x07\x80\xff\xc3\xa9 "), 1 | 2 => *self.r.pick(OPS), 3 => 1 + self.r.below(255) as u8, _ => { let a = self.alpha.clone(); *self.r.pick(&a) } }
    }
    fn next_is_digit(next: u8) -> bool { next.is_ascii_hexdigit() }
    /// an escape for b; `next` is what may follow, to keep numeric escapes apart
    fn esc(&mut self, b: u8, next: u8) -> String {
        let named = match b { b'\n' => "n", b'\t' => "t", b'\r' => "r", 0x0c => "f", 0x0b => "v", 8 => "b", 7 => "a", _ => "" };
        if !named.is_empty() && self.r.chance(2, 3) { return format!("\\{named}"); }
        let plain = b.is_ascii_graphic() && !b.is_ascii_alphanumeric() || b == b' ';
        if plain && self.r.chance(3, 4) { return format!("\\{}", b as char); }
        let _ = next;
        match self.r.below(4) {
            0 => format!("\\x{b:02x}"), 1 => format!("\\x{b:02X}"),
            2 if b < 16 && !Self::next_is_digit(next) => format!("\\x{b:x}"),
            2 if b < 64 && !next.is_ascii_digit() => format!("\\{b:o}"),
            _ => format!("\\{b:03o}"),
        }
    }
    fn chr(&mut self, b: u8, next: u8) -> String {
        if b.is_ascii_graphic() && !OPS.contains(&b) || b == b'-' { if b.is_ascii_alphanumeric() || self.r.chance(2, 3) { return (b as char).to_string(); } }
        if b.is_ascii_alphanumeric() { return (b as char).to_string(); }
        self.esc(b, next)
    }
    fn set(&mut self) -> (Re, String) {
        let neg = self.r.chance(1, 4);
        let mut set = [false; 256];
        let mut t = String::new();
        let n = self.r.range(1, 5);
        let mut first = true;
        if self.r.chance(1, 6) { t.push('-'); set[b'-' as usize] = true; first = false; }
        for k in 0..n {
            let item = |g: &mut Self, b: u8, start: bool| -> String {
                let raw = b.is_ascii_graphic() && b != b'\\' && b != b']' && b != b'-' && b != b'[' && !(b == b'^' && start) || b == b' ' || (b == b'[' && !start);
                if b == b'[' { return "\\[".into(); }
                if raw && (b.is_ascii_alphanumeric() || g.r.chance(3, 4)) { (b as char).to_string() } else { g.esc(b, b'0') }
            };
            if self.r.chance(1, 3) {
                let (x, y) = (self.sym(), self.sym());
                let (x, y) = (x.min(y), x.max(y));
                // the ends of a range: a hyphen may end one unescaped
                let xs = item(self, x, first);
                let ys = if y == b'-' && k + 1 < n && self.r.chance(1, 2) { "-".to_string() } else { item(self, y, false) };
                if ys == "]" { continue; }
                t += &format!("{xs}-{ys}");
                for b in x..=y { set[b as usize] = true; }
            } else {
                let b = self.sym();
                t += &item(self, b, first);
                set[b as usize] = true;
            }
            first = false;
        }
        if !t.is_empty() && self.r.chance(1, 8) { t.push('-'); set[b'-' as usize] = true; }
        if t.is_empty() { t.push('a'); set[b'a' as usize] = true; }
        (class(move |b| b != 0 && set[b as usize] != neg), format!("[{}{t}]", if neg { "^" } else { "" }))
    }
    fn quoted(&mut self) -> (Re, String) {
        let n = self.r.range(1, 4);
        let mut v = vec![];
        let mut t = String::from("\"");
        for _ in 0..n {
            let b = self.sym();
            if b == b'"' || b == b'\\' || !(b.is_ascii_graphic() || b == b' ') { if self.r.chance(1, 2) { t += &self.esc(b, b'0'); v.push(byte(b)); } } else { t.push(b as char); v.push(byte(b)); }
        }
        if v.is_empty() { t.push('a'); v.push(byte(b'a')); }
        t.push('"');
        (Re::Cat(v), t)
    }
    /// an expression and its text at a level: 0 alternation, 1 concatenation, 2 one element
    pub fn re(&mut self, depth: usize, level: usize) -> (Re, String) {
        match level {
            0 => {
                let n = if depth == 0 { 1 } else { *self.r.pick(&[1usize, 1, 1, 2, 2, 3]) };
                let v: Vec<(Re, String)> = (0..n).map(|_| self.re(depth, 1)).collect();
                if n == 1 { return v.into_iter().next().unwrap(); }
                (Re::Alt(v.iter().map(|x| x.0.clone()).collect()), v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("|"))
            }
            1 => {
                let n = *self.r.pick(&[1usize, 1, 2, 2, 3, 4]);
                let v: Vec<(Re, String)> = (0..n).map(|_| self.re(depth, 2)).collect();
                (Re::Cat(v.iter().map(|x| x.0.clone()).collect()), v.iter().map(|x| x.1.clone()).collect::<String>())
            }
            _ => {
                let (mut re, mut t) = match self.r.below(if depth == 0 { 8 } else { 12 }) {
                    0..=3 => { let b = self.sym(); (byte(b), self.chr(b, b'0')) }
                    4 | 5 => self.set(),
                    6 => self.quoted(),
                    7 => if self.r.chance(1, 3) { (class(|b| b != b'\n' && b != 0), ".".to_string()) } else if !self.names.is_empty() { let n = self.names.clone(); let x = self.r.pick(&n); (x.1.clone(), format!("{{{}}}", x.0)) } else { self.set() },
                    _ => { let (r, t) = self.re(depth - 1, 0); (r, format!("({t})")) }
                };
                for _ in 0..*self.r.pick(&[0usize, 0, 0, 0, 1, 1, 2]) {
                    let (lo, hi, q) = match self.r.below(6) {
                        _ if self.r.chance(1, 400) => { let n = *self.r.pick(&[9u32, 16, 40, 63, 64, 65, 90, 128, 255, 256, 257]); let a = if self.r.chance(1, 2) { n } else { self.r.below(n as usize) as u32 }; (a, Some(n), if a == n { format!("{{{n}}}") } else { format!("{{{a},{n}}}") }) }
                        0 => (0, None, "*".to_string()), 1 => (1, None, "+".to_string()), 2 | 3 => (0, Some(1), "?".to_string()),
                        4 => { let n = self.r.range(1, 3) as u32; (n, Some(n), format!("{{{n}}}")) }
                        _ => { let a = self.r.below(3) as u32; let b = (a + self.r.below(3) as u32).max(1); (a, Some(b), format!("{{{a},{b}}}")) }
                    };
                    re = Re::Rep(Box::new(re), lo, hi);
                    t += &q;
                }
                (re, t)
            }
        }
    }
}
pub fn size(r: &Re) -> u64 {
    match r { Re::Cat(v) | Re::Alt(v) => 1 + v.iter().map(size).sum::<u64>(), Re::Rep(r, lo, hi) => 1 + size(r) * (hi.unwrap_or(*lo).max(1) as u64), _ => 1 }
}
pub fn sample(r: &mut Rng, re: &Re, out: &mut Vec<u8>) {
    if out.len() > 400 { return; }
    match re {
        Re::Class(c) => { let v: Vec<u8> = (1..=255u8).filter(|b| c[*b as usize]).collect(); if !v.is_empty() { let g: Vec<u8> = v.iter().copied().filter(|b| b.is_ascii_alphanumeric()).collect(); out.push(if !g.is_empty() && r.chance(3, 4) { *r.pick(&g) } else { *r.pick(&v) }); } }
        Re::Cat(v) => for x in v { sample(r, x, out) },
        Re::Alt(v) => { let x = r.pick(v).clone(); sample(r, &x, out) }
        Re::Rep(x, lo, hi) => { let n = *lo + r.below((hi.unwrap_or(*lo + 3) - *lo + 1) as usize) as u32; for _ in 0..n { sample(r, x, out) } }
        _ => {}
    }
}

