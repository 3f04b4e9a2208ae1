//! C24: every JSON text reads as the JSON value it is.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
use alloc::vec::Vec;

struct P<'a> {
    t: &'a [u8],
    i: usize,
    ev: Vec<Ev>,
}
impl P<'_> {
    fn peek(&self) -> u8 {
        if self.i < self.t.len() { self.t[self.i] } else { 0 }
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn lit(&mut self, l: &[u8]) -> bool {
        if self.t.len() - self.i < l.len() || !bytes_eq(&self.t[self.i..self.i + l.len()], l) {
            return false;
        }
        self.ev.push(scalar(PLAIN, l));
        self.i += l.len();
        true
    }
    fn digits(&mut self) -> bool {
        let s = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        self.i > s
    }
    fn number(&mut self) -> bool {
        let s = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1;
        } else if !self.digits() {
            return false;
        }
        if self.peek() == b'.' {
            self.i += 1;
            if !self.digits() {
                return false;
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if !self.digits() {
                return false;
            }
        }
        let e = scalar(PLAIN, &self.t[s..self.i]);
        self.ev.push(e);
        true
    }
    fn string(&mut self) -> bool {
        if self.peek() != b'"' {
            return false;
        }
        self.i += 1;
        let mut v = Vec::new();
        loop {
            if self.i >= self.t.len() {
                return false;
            }
            let c = self.t[self.i];
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    v.push(match e {
                        b'"' | b'\\' | b'/' => e,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => {
                            let mut n = 0u32;
                            for _ in 0..4 {
                                let h = self.peek();
                                self.i += 1;
                                n = n * 16
                                    + match h {
                                        b'0'..=b'9' => h - b'0',
                                        b'a'..=b'f' => h - b'a' + 10,
                                        b'A'..=b'F' => h - b'A' + 10,
                                        _ => return false,
                                    } as u32;
                            }
                            let Some(ch) = char::from_u32(n) else { assume(false); return false };
                            let mut b = [0; 4];
                            v.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                            continue;
                        }
                        _ => return false,
                    });
                }
                c if c < 0x20 => return false,
                c => v.push(c),
            }
        }
        self.ev.push(scalar(DOUBLE, &v));
        true
    }
    fn value(&mut self) -> bool {
        match self.peek() {
            b'"' => self.string(),
            b'[' => {
                self.ev.push(simple(SEQ));
                self.i += 1;
                self.ws();
                if self.peek() != b']' {
                    loop {
                        self.ws();
                        if !self.value() {
                            return false;
                        }
                        self.ws();
                        if self.peek() != b',' {
                            break;
                        }
                        self.i += 1;
                    }
                }
                if self.peek() != b']' {
                    return false;
                }
                self.i += 1;
                self.ev.push(simple(SEQ_END));
                true
            }
            b'{' => {
                self.ev.push(simple(MAP));
                self.i += 1;
                self.ws();
                if self.peek() != b'}' {
                    loop {
                        self.ws();
                        if !self.string() {
                            return false;
                        }
                        self.ws();
                        if self.peek() != b':' {
                            return false;
                        }
                        self.i += 1;
                        self.ws();
                        if !self.value() {
                            return false;
                        }
                        self.ws();
                        if self.peek() != b',' {
                            break;
                        }
                        self.i += 1;
                    }
                }
                if self.peek() != b'}' {
                    return false;
                }
                self.i += 1;
                self.ev.push(simple(MAP_END));
                true
            }
            b'n' => self.lit(b"null"),
            b't' => self.lit(b"true"),
            b'f' => self.lit(b"false"),
            _ => self.number(),
        }
    }
}
/// [template]
pub fn json() {
    let (v, _) = template(0);
    let mut p = P { t: &v, i: 0, ev: Vec::new() };
    p.ws();
    let mut valid = p.value();
    if valid {
        p.ws();
        valid = p.i == v.len();
    }
    if !valid {
        return;
    }
    cover(1);
    let ev = p.ev;
    let (got, ok) = collect(as_str(&v));
    out_evs(&got);
    out(ok as u64);
    check(ok, "C24: a JSON text is rejected");
    same(&stream(DOC_IMPLICIT, &ev), &got, "C24: a JSON text reads differently");
}
