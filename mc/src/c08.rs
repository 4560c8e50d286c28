//! C08: JSON5 source text is read as the value it denotes.
//!
//! The oracle is a separate reader (`Rd`) written from the JSON5 specification plus the dialect's
//! extensions (undefined, '@' in bare keys, '!' and '?' after a bare key, i64 integers kept apart
//! from floats, no duplicate members). It answers with a value, with "not in the dialect", or with
//! "not specified" for the few texts on which JSON5 and the documented dialect leave room.
use crate::infra::*;
use dochy_json5::JVal;

pub fn check() -> Check {
    Check {
        id: "C08",
        level: "model_checking",
        rule: "every text up to the length bound over four alphabets (structure, numbers, string contents, tokens), every \\u and \\x escape and every boundary surrogate pair, every character up to U+0300 and selected later ones at every lexical place, every value tree up to the size bound in every printing style, and for each of those texts every single-character deletion, insertion and replacement. Each text is read by the real reader and by an independent reference reader, and verdict and value are compared. A state is a distinct value.",
        assumptions: &["texts nest at most 64 levels deep", "not compared: a digit right after \\0, raw U+2028 and U+2029 in strings, bare keys with characters whose identifier class differs between JSON5 and Unicode diacritics, escaped non-letters in bare keys"],
        cases,
        run,
        hang_s: 120,
        max_workers: 64,
    }
}

#[derive(Debug, Clone, PartialEq, Hash)]
pub enum R {
    Null,
    Undef,
    Bool(bool),
    Str(String),
    Int(i64),
    Dbl(u64),
    Arr(Vec<R>),
    Map(Vec<(String, R)>),
}

fn dbl(f: f64) -> R {
    R::Dbl(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() })
}

fn conv(v: &JVal) -> R {
    match v {
        JVal::Null(_) => R::Null,
        JVal::Undefined(_) => R::Undef,
        JVal::Bool(b, _) => R::Bool(*b),
        JVal::String(s, _) => R::Str(s.clone()),
        JVal::Int(i, _) => R::Int(*i),
        JVal::Double(d, _) => dbl(*d),
        JVal::Array(a, _) => R::Arr(a.iter().map(conv).collect()),
        JVal::Map(m, _) => R::Map(m.iter().map(|(k, v)| (k.clone(), conv(v))).collect()),
    }
}

// ---- reference reader ----

struct Rd {
    s: Vec<char>,
    p: usize,
    open: bool, // something unspecified was met
}

type Res<T> = Result<T, ()>;

fn line_end(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

fn white(c: char) -> bool {
    line_end(c) || matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}

#[derive(PartialEq)]
enum Cls {
    Yes,
    No,
    Open,
}

fn id_start(c: char) -> Cls {
    match c {
        '$' | '_' | '@' | 'a'..='z' | 'A'..='Z' => Cls::Yes,
        c if (c as u32) < 0x80 => Cls::No,
        c if (c as u32) < 0x300 => {
            if c.is_alphabetic() {
                Cls::Yes
            } else {
                Cls::No
            }
        }
        'α'..='ω' | 'Α'..='Ρ' | 'あ'..='ん' | '一'..='龥' | 'Ⅳ' => Cls::Yes,
        c if white(c) => Cls::No,
        '\u{300}'..='\u{344}' | '\u{200c}' | '\u{200d}' | '😀' => Cls::No,
        _ => Cls::Open,
    }
}

fn id_part(c: char) -> Cls {
    match c {
        '0'..='9' => Cls::Yes,
        // Unicode diacritics that are no combining marks
        '^' | '`' | '\u{a8}' | '\u{af}' | '\u{b4}' | '\u{b7}' | '\u{b8}' => Cls::Open,
        '\u{300}'..='\u{344}' | '\u{200c}' | '\u{200d}' | '٣' | '‿' => Cls::Yes,
        c if (0x2b0..0x300).contains(&(c as u32)) && id_start(c) == Cls::No => Cls::Open,
        c => id_start(c),
    }
}

impl Rd {
    fn c(&self) -> Option<char> {
        self.s.get(self.p).copied()
    }
    fn at(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(i, c)| self.s.get(self.p + i) == Some(&c))
    }
    fn take(&mut self, t: &str) -> bool {
        let r = self.at(t);
        if r {
            self.p += t.chars().count();
        }
        r
    }
    fn skip(&mut self) -> Res<()> {
        loop {
            match self.c() {
                Some(c) if white(c) => self.p += 1,
                Some('/') if self.at("//") => {
                    while self.c().map_or(false, |c| !line_end(c)) {
                        self.p += 1;
                    }
                }
                Some('/') if self.at("/*") => {
                    self.p += 2;
                    while !self.at("*/") {
                        if self.c().is_none() {
                            return Err(());
                        }
                        self.p += 1;
                    }
                    self.p += 2;
                }
                _ => return Ok(()),
            }
        }
    }
    fn hex(&mut self, n: usize) -> Res<u32> {
        let mut v = 0;
        for _ in 0..n {
            v = v * 16 + self.c().and_then(|c| c.to_digit(16)).ok_or(())?;
            self.p += 1;
        }
        Ok(v)
    }
    /// after "\u": one character, from one escape or a surrogate pair of escapes
    fn unicode(&mut self) -> Res<char> {
        let a = self.hex(4)?;
        if (0xd800..0xdc00).contains(&a) && self.take("\\u") {
            let b = self.hex(4)?;
            if (0xdc00..0xe000).contains(&b) {
                return std::char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).ok_or(());
            }
            return Err(());
        }
        std::char::from_u32(a).ok_or(())
    }
    fn string(&mut self) -> Res<String> {
        let q = self.c().unwrap();
        self.p += 1;
        let mut out = String::new();
        loop {
            let c = self.c().ok_or(())?;
            self.p += 1;
            if c == q {
                return Ok(out);
            }
            if c == '\u{2028}' || c == '\u{2029}' {
                self.open = true;
                return Err(());
            }
            if line_end(c) {
                return Err(());
            }
            if c != '\\' {
                out.push(c);
                continue;
            }
            let e = self.c().ok_or(())?;
            self.p += 1;
            match e {
                'b' => out.push('\u{8}'),
                'f' => out.push('\u{c}'),
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                'v' => out.push('\u{b}'),
                '0' => {
                    if self.c().map_or(false, |c| c.is_ascii_digit()) {
                        self.open = true;
                    }
                    out.push('\0')
                }
                '1'..='9' => return Err(()),
                'x' => {
                    let v = self.hex(2)?;
                    out.push(std::char::from_u32(v).unwrap())
                }
                'u' => {
                    let c = self.unicode()?;
                    out.push(c)
                }
                '\r' => {
                    self.take("\n");
                }
                c if line_end(c) => {}
                c => out.push(c),
            }
        }
    }
    fn ident(&mut self) -> Res<String> {
        let mut out = String::new();
        loop {
            let c = match self.c() {
                None => break,
                Some(c) => c,
            };
            if c == '\\' {
                self.p += 1;
                if !self.take("u") {
                    return Err(());
                }
                let c = self.unicode()?;
                if id_start(c) != Cls::Yes {
                    self.open = true;
                }
                out.push(c);
                continue;
            }
            match if out.is_empty() { id_start(c) } else { id_part(c) } {
                Cls::Yes => {}
                Cls::No => break,
                Cls::Open => self.open = true,
            }
            out.push(c);
            self.p += 1;
        }
        if out.is_empty() {
            return Err(());
        }
        for x in ["!", "?"] {
            if self.take(x) {
                out.push_str(x);
            }
        }
        Ok(out)
    }
    fn digits(&mut self) -> String {
        let mut s = String::new();
        while let Some(c) = self.c().filter(|c| c.is_ascii_digit()) {
            s.push(c);
            self.p += 1;
        }
        s
    }
    fn number(&mut self) -> Res<R> {
        let neg = if self.take("-") {
            true
        } else {
            self.take("+");
            false
        };
        if self.take("Infinity") {
            return Ok(dbl(if neg { f64::NEG_INFINITY } else { f64::INFINITY }));
        }
        if self.take("NaN") {
            return Ok(dbl(f64::NAN));
        }
        let int = |v: u128| -> Res<R> {
            let v = if neg { -(v as i128) } else { v as i128 };
            if v >= i64::MIN as i128 && v <= i64::MAX as i128 {
                Ok(R::Int(v as i64))
            } else {
                Err(())
            }
        };
        if self.at("0x") || self.at("0X") {
            self.p += 2;
            let mut n = 0;
            let mut v: u128 = 0;
            while let Some(d) = self.c().and_then(|c| c.to_digit(16)) {
                v = v.saturating_mul(16).saturating_add(d as u128).min(1 << 100);
                n += 1;
                self.p += 1;
            }
            return if n == 0 { Err(()) } else { int(v) };
        }
        let mut mant = if self.take("0") { "0".to_string() } else { self.digits() };
        let mut float = false;
        let mut exp: i64 = 0;
        let whole = mant.len();
        if self.take(".") {
            float = true;
            let f = self.digits();
            exp -= f.len() as i64;
            if whole == 0 && f.is_empty() {
                return Err(());
            }
            mant += &f;
        } else if whole == 0 {
            return Err(());
        }
        if self.c() == Some('e') || self.c() == Some('E') {
            self.p += 1;
            float = true;
            let m = if self.take("-") {
                -1
            } else {
                self.take("+");
                1
            };
            let d = self.digits();
            if d.is_empty() {
                return Err(());
            }
            exp += m * d.parse::<i64>().unwrap_or(99999).min(99999);
        }
        if !float {
            let mut v: u128 = 0;
            for c in mant.chars() {
                v = v.saturating_mul(10).saturating_add(c.to_digit(10).unwrap() as u128).min(1 << 100);
            }
            return int(v);
        }
        let d = mant.trim_start_matches('0');
        let f = if d.is_empty() {
            0.0
        } else if d.len() <= 15 && exp.abs() <= 22 {
            // both operands exact, so one correctly rounded operation
            let m = d.parse::<u64>().unwrap() as f64;
            let p = (0..exp.abs()).fold(1.0f64, |a, _| a * 10.0);
            if exp < 0 {
                m / p
            } else {
                m * p
            }
        } else {
            format!("{}e{}", d, exp).parse::<f64>().unwrap()
        };
        if !f.is_finite() {
            return Err(());
        }
        Ok(dbl(if neg { -f } else { f }))
    }
    fn value(&mut self) -> Res<R> {
        self.skip()?;
        match self.c().ok_or(())? {
            '"' | '\'' => Ok(R::Str(self.string()?)),
            '[' => {
                self.p += 1;
                let mut l = vec![];
                loop {
                    self.skip()?;
                    if self.take("]") {
                        return Ok(R::Arr(l));
                    }
                    l.push(self.value()?);
                    self.skip()?;
                    if !self.take(",") {
                        return if self.take("]") { Ok(R::Arr(l)) } else { Err(()) };
                    }
                }
            }
            '{' => {
                self.p += 1;
                let mut l: Vec<(String, R)> = vec![];
                loop {
                    self.skip()?;
                    if self.take("}") {
                        return Ok(R::Map(l));
                    }
                    let k = match self.c() {
                        Some('"') | Some('\'') => self.string()?,
                        _ => self.ident()?,
                    };
                    self.skip()?;
                    if !self.take(":") {
                        return Err(());
                    }
                    let v = self.value()?;
                    if l.iter().any(|(n, _)| *n == k) {
                        return Err(());
                    }
                    l.push((k, v));
                    self.skip()?;
                    if !self.take(",") {
                        return if self.take("}") { Ok(R::Map(l)) } else { Err(()) };
                    }
                }
            }
            _ => {
                for (t, v) in [("null", R::Null), ("undefined", R::Undef), ("true", R::Bool(true)), ("false", R::Bool(false))] {
                    if self.take(t) {
                        return Ok(v);
                    }
                }
                self.number()
            }
        }
    }
}

/// Some(Ok) the value, Some(Err) not in the dialect, None unspecified
pub fn reference(s: &str) -> Option<Res<R>> {
    let mut r = Rd { s: s.chars().collect(), p: 0, open: false };
    let v = r.value().and_then(|v| {
        r.skip()?;
        if r.p == r.s.len() {
            Ok(v)
        } else {
            Err(())
        }
    });
    if r.open {
        None
    } else {
        Some(v)
    }
}

fn judge(s: &str, cx: &mut Ctx) -> Result<bool, String> {
    cx.evaluations += 1;
    cx.transitions += s.len() as u64;
    let got = guard(|| dochy_json5::from_str(s).map(|v| conv(&v)).map_err(|e| e.message)).map_err(|e| format!("reading {:?} panicked: {}", s, e))?;
    match (reference(s), got) {
        (None, _) => Ok(false),
        (Some(Ok(a)), Ok(b)) => {
            if a != b {
                return Err(format!("text {:?} denotes {:?} but was read as {:?}", s, a, b));
            }
            cx.state(&a);
            Ok(true)
        }
        (Some(Ok(a)), Err(e)) => Err(format!("text {:?} denotes {:?} but was rejected: {}", s, a, e)),
        (Some(Err(())), Ok(b)) => Err(format!("text {:?} is not in the dialect but was read as {:?}", s, b)),
        (Some(Err(())), Err(_)) => Ok(false),
    }
}

// ---- enumeration ----

const STRUCT: [&str; 14] = ["{", "}", "[", "]", ",", ":", "a", "1", "\"", "'", " ", "/", "*", "\n"];
const NUM: [&str; 13] = ["0", "1", "9", "-", "+", ".", "e", "E", "x", "a", "Infinity", "NaN", " "];
const STR: [&str; 13] = ["a", "\\", "'", "\"", "u", "x", "0", "1", "n", "\n", "\r", "4", "d"];
const TOK: [&str; 17] = ["{", "}", "[", "]", ",", ":", "null", "undefined", "true", "-1", "1.5", "\"s\"", "'b'", "b", "a?", "//c\n", "/**/"];

fn alphabet(n: &str) -> (&'static [&'static str], &'static [(&'static str, &'static str)]) {
    match n {
        "struct" => (&STRUCT, &[("", "")]),
        "num" => (&NUM, &[("", ""), ("[", ",1]")]),
        "str" => (&STR, &[("\"", "\""), ("'", "'")]),
        "key" => (&STR, &[("{\"", "\":1}"), ("{", ":1,}")]),
        "tok" => (&TOK, &[("", "")]),
        "memb" => (&TOK, &[("{", "}"), ("{a:1,", "}"), ("[", "]")]),
        _ => panic!("{}", n),
    }
}

fn depth(n: &str, t: Tier) -> usize {
    match n {
        "struct" => t.pick(6, 7),
        "num" => t.pick(5, 7),
        "str" => t.pick(5, 6),
        "key" => t.pick(4, 5),
        "tok" => t.pick(5, 6),
        "memb" => t.pick(4, 5),
        _ => 0,
    }
}

fn words(cur: &mut String, n: usize, al: &[&str], wraps: &[(&str, &str)], cx: &mut Ctx, ok: &mut u64) -> Result<(), String> {
    for (a, b) in wraps {
        if judge(&format!("{}{}{}", a, cur, b), cx)? {
            *ok += 1;
        }
    }
    if n == 0 {
        return Ok(());
    }
    let l = cur.len();
    for c in al {
        cur.push_str(c);
        words(cur, n - 1, al, wraps, cx, ok)?;
        cur.truncate(l);
    }
    cx.beat();
    Ok(())
}

/// printing styles
#[derive(Clone, Copy)]
struct Style {
    gap: &'static str,
    quote: char,
    bare: bool,
    comma: bool,
}

fn styles() -> Vec<Style> {
    let mut v = vec![];
    for gap in ["", " ", "\n", "\t//x\"{\n", "/*'[*/", "\u{a0}\u{feff}", "\r\n", "/**//***/", "\u{2028}"] {
        for quote in ['"', '\''] {
            for bare in [false, true] {
                for comma in [false, true] {
                    v.push(Style { gap, quote, bare, comma });
                }
            }
        }
    }
    v
}

pub fn quoted(s: &str, q: char) -> String {
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if c == q => {
                o.push('\\');
                o.push(c);
            }
            c => o.push(c),
        }
    }
    o.push(q);
    o
}

fn print(v: &R, st: Style, o: &mut String) {
    let end = |o: &mut String, any: bool, c: char| {
        if any && st.comma {
            o.push(',');
            o.push_str(st.gap);
        }
        o.push(c);
    };
    match v {
        R::Null => o.push_str("null"),
        R::Undef => o.push_str("undefined"),
        R::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        R::Int(i) => o.push_str(&i.to_string()),
        R::Dbl(b) => o.push_str(&format!("{:?}", f64::from_bits(*b))),
        R::Str(s) => o.push_str(&quoted(s, st.quote)),
        R::Arr(l) => {
            o.push('[');
            o.push_str(st.gap);
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    o.push_str(st.gap);
                }
                print(x, st, o);
                o.push_str(st.gap);
            }
            end(o, !l.is_empty(), ']');
        }
        R::Map(l) => {
            o.push('{');
            o.push_str(st.gap);
            for (i, (k, x)) in l.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    o.push_str(st.gap);
                }
                if st.bare {
                    o.push_str(k);
                } else {
                    o.push_str(&quoted(k, st.quote));
                }
                o.push_str(st.gap);
                o.push(':');
                o.push_str(st.gap);
                print(x, st, o);
                o.push_str(st.gap);
            }
            end(o, !l.is_empty(), '}');
        }
    }
}

fn leaves() -> Vec<R> {
    vec![R::Null, R::Undef, R::Bool(true), R::Bool(false), R::Int(7), R::Int(-30), dbl(2.0), dbl(-0.25), R::Str("".into()), R::Str("a'b\"c\\d\n//é😀".into())]
}

/// all trees with exactly n nodes
fn trees(n: usize, leaf: &[R]) -> Vec<R> {
    if n == 1 {
        let mut v = leaf.to_vec();
        v.push(R::Arr(vec![]));
        v.push(R::Map(vec![]));
        return v;
    }
    let mut v = vec![];
    for l in forests(n - 1, leaf) {
        let names = ["b", "a!?", "@c_1", "$x?", "Z!"];
        v.push(R::Map(l.iter().enumerate().map(|(i, x)| (names[i].to_string(), x.clone())).collect()));
        v.push(R::Arr(l));
    }
    v
}

fn forests(n: usize, leaf: &[R]) -> Vec<Vec<R>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for k in 1..=n {
        for h in trees(k, leaf) {
            for mut r in forests(n - k, leaf) {
                r.insert(0, h.clone());
                v.push(r);
            }
        }
    }
    v
}

const EDIT: [char; 25] = ['{', '}', '[', ']', ',', ':', '"', '\'', '\\', '/', '*', 'a', 'u', 'x', '0', '1', '-', '.', 'e', '!', '?', ' ', '\n', 'é', '\u{2028}'];

fn mutate(s: &str, cx: &mut Ctx) -> Result<(), String> {
    let c: Vec<char> = s.chars().collect();
    for i in 0..=c.len() {
        let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
        for e in EDIT {
            judge(&format!("{}{}{}", a, e, b), cx)?;
        }
        if i < c.len() {
            let b: String = c[i + 1..].iter().collect();
            judge(&format!("{}{}", a, b), cx)?;
            for e in EDIT {
                judge(&format!("{}{}{}", a, e, b), cx)?;
            }
            // swap neighbours, and cut here
            if i + 1 < c.len() {
                let mut d = c.clone();
                d.swap(i, i + 1);
                judge(&d.iter().collect::<String>(), cx)?;
            }
            judge(&a, cx)?;
        }
    }
    cx.beat();
    Ok(())
}

fn chars() -> Vec<char> {
    let mut v: Vec<char> = (0..0x300u32).filter_map(std::char::from_u32).collect();
    v.extend(['\u{300}', '\u{344}', 'α', 'あ', '一', '龥', 'Ⅳ', '٣', '‿', '\u{1680}', '\u{2000}', '\u{200a}', '\u{200c}', '\u{200d}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '😀', '\u{10ffff}'].iter());
    v
}

/// text lengths at which buffers or counters end
const LONG: [usize; 12] = [126, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8192, 65535, 65536];

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for n in ["struct", "num", "str", "key", "tok", "memb"] {
        let (al, _) = alphabet(n);
        v.push(format!("words {} 0", n));
        for i in 0..al.len() {
            for j in 0..al.len() {
                v.push(format!("words {} {} {}.{}", n, depth(n, t) - 2, i, j));
            }
        }
    }
    for i in 0..64 {
        v.push(format!("esc {}", i));
    }
    v.push("surrogate".into());
    v.push("char".into());
    v.push("numbers".into());
    v.push("members".into());
    v.push("nest".into());
    for i in 0..LONG.len() {
        v.push(format!("long {}", i));
    }
    for n in 1..=t.pick(3, 4) {
        for i in 0..16 {
            v.push(format!("tree {} {} {}", n, i, 16));
        }
    }
    v
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    match p[0] {
        "text" => {
            let s = &case[5..];
            let s: String = s.parse::<String>().unwrap();
            judge(&s, cx)?;
        }
        "words" => {
            let (al, wraps) = alphabet(p[1]);
            let mut ok = 0;
            if p.len() == 3 {
                words(&mut String::new(), 1, al, wraps, cx, &mut ok)?;
            } else {
                let mut s = String::new();
                for i in p[3].split('.') {
                    s.push_str(al[i.parse::<usize>().unwrap()]);
                }
                words(&mut s, num(2), al, wraps, cx, &mut ok)?;
            }
            cx.outcome(if ok > 0 { "accepted some" } else { "rejected all" });
        }
        "esc" => {
            let b = num(1) as u32 * 1024;
            for u in b..b + 1024 {
                for s in [format!("\"\\u{:04x}\"", u), format!("'x\\u{:04X}y'", u), format!("{{\"\\u{:04x}\":1}}", u), format!("{{\\u{:04x}:1}}", u), format!("{{a\\u{:04X}?:1}}", u)] {
                    judge(&s, cx)?;
                }
                if u < 256 {
                    for s in [format!("\"\\x{:02x}\"", u), format!("'0\\x{:02X}1'", u), format!("{{'\\x{:02x}' : 1}}", u)] {
                        judge(&s, cx)?;
                    }
                }
            }
            cx.outcome("escapes");
        }
        "surrogate" => {
            let l = [0x0041u32, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xe000, 0xffff];
            for a in l {
                for b in l {
                    for s in [
                        format!("'\\u{:04x}\\u{:04x}'", a, b),
                        format!("'\\u{:04x}x\\u{:04x}'", a, b),
                        format!("'\\u{:04x}\\\n\\u{:04x}'", a, b),
                        format!("'\\u{:04x}\\\\u{:04x}'", a, b),
                        format!("{{'\\u{:04x}\\u{:04x}': 1}}", a, b),
                    ] {
                        judge(&s, cx)?;
                    }
                    for c in l {
                        judge(&format!("\"\\u{:04x}\\u{:04x}\\u{:04x}\"", a, b, c), cx)?;
                    }
                }
            }
            cx.outcome("surrogates");
        }
        "char" => {
            for c in chars() {
                for s in [
                    format!("{}", c),
                    format!("\"{}\"", c),
                    format!("'{}'", c),
                    format!("'\\{}'", c),
                    format!("\"\\{}x\"", c),
                    format!("{}1", c),
                    format!("1{}", c),
                    format!("[1{}2]", c),
                    format!("[1{},2]", c),
                    format!("[{}1]", c),
                    format!("{{{}:1}}", c),
                    format!("{{a{}:1}}", c),
                    format!("{{a{}b:1}}", c),
                    format!("{{a{}?:1}}", c),
                    format!("{{a!{}:1}}", c),
                    format!("{{a?{}:1}}", c),
                    format!("{{a!?{}:1}}", c),
                    format!("{{a:1{}}}", c),
                    format!("//{}\n1", c),
                    format!("//x{}1", c),
                    format!("/*{}*/1", c),
                    format!("1//{}", c),
                    format!("null{}", c),
                    format!("{{\"{}\":{{'{}':true}}}}", c, c),
                    format!("{{\"\\{}\":1, '{}':2}}", c, c),
                    format!("0x{}", c),
                    format!("1e{}", c),
                    format!("1.{}", c),
                    format!("-{}", c),
                    format!("'\\x4{}'", c),
                    format!("'\\u004{}'", c),
                ] {
                    judge(&s, cx)?;
                }
            }
            cx.outcome("characters");
        }
        "numbers" => {
            let mut l: Vec<String> = vec![];
            for b in [0i128, 9, 10, 255, 65535, u32::MAX as i128, i32::MAX as i128, 1 << 53, i64::MAX as i128, u64::MAX as i128, i128::MAX / 2] {
                for d in -2..=2 {
                    let x = b + d;
                    if x < 0 {
                        continue;
                    }
                    l.push(x.to_string());
                    l.push(format!("0x{:x}", x));
                    l.push(format!("0X{:X}", x));
                    l.push(format!("0x000{:x}", x));
                    l.push(format!("{}.0", x));
                    l.push(format!("{}e0", x));
                }
            }
            for n in 1..=25 {
                l.push("9".repeat(n));
                l.push(format!("1{}", "0".repeat(n)));
                l.push(format!("0x{}", "f".repeat(n)));
                l.push(format!("0x7{}", "F".repeat(n)));
                l.push(format!("0x8{}", "0".repeat(n)));
            }
            for m in ["0", "1", "9", "12", "0.1", ".5", "5.", "1.7976931348623157", "1.7976931348623159", "4.9406564584124654", "2.4703282292062327", "123456789012345678", "0.000000000000000000001"] {
                l.push(m.to_string());
                for x in ["e0", "e1", "E+1", "e-1", "e22", "e23", "e-22", "E-23", "e307", "e308", "e309", "e-323", "e-324", "e-325", "e-400", "e99999", "e00005", "e+", "e-", "e", "e1.5", "e1e1"] {
                    l.push(format!("{}{}", m, x));
                }
            }
            for x in l {
                for s in ["", "+", "-", "+-", "--", "- "] {
                    judge(&format!("{}{}", s, x), cx)?;
                    judge(&format!("[{}{},{}]", s, x, x), cx)?;
                    judge(&format!("{{a:{}{}}}", s, x), cx)?;
                }
            }
            cx.outcome("numbers");
        }
        "members" => {
            // order of many members, and every pair of places for a duplicate
            for n in (0..40).chain([127, 128, 129, 255, 256, 257, 1000]) {
                let body: Vec<String> = (0..n).map(|i| format!("m{}:{}", (i * 7919) % 10007, i)).collect();
                judge(&format!("{{{}}}", body.join(",")), cx)?;
                let arr: Vec<String> = (0..n).map(|i| ((i * 7919) % 10007).to_string()).collect();
                judge(&format!("[{}]", arr.join(",")), cx)?;
            }
            let forms = ["k", "\"k\"", "'k'", "\"\\u006b\"", "'\\x6b'", "\\u006b", "'\\k'"];
            for n in 2..=6usize {
                for i in 0..n {
                    for j in 0..n {
                        for f in forms {
                            for g in forms {
                                for lvl in 0..3 {
                                    let body: Vec<String> = (0..n).map(|x| if x == i { format!("{}:1", f) } else if x == j { format!("{}:2", g) } else { format!("m{}:3", x) }).collect();
                                    let t = match lvl {
                                        0 => format!("{{{}}}", body.join(",")),
                                        1 => format!("[{{k:0}},{{{},}}]", body.join(",")),
                                        _ => format!("{{k:{{{}}}}}", body.join(",")),
                                    };
                                    judge(&t, cx)?;
                                }
                            }
                        }
                    }
                }
            }
            for (a, b) in [("k", "k?"), ("k!", "k"), ("k?", "k!?"), ("K", "k"), ("k", "k1"), ("k", "\"k \""), ("\"\"", "''"), ("''", "k")] {
                judge(&format!("{{{}:1,{}:2}}", a, b), cx)?;
            }
            cx.outcome("members");
        }
        "nest" => {
            for n in 1..=64usize {
                for (o, c) in [("[", "]"), ("{a:", "}"), ("[{b:", "},]"), ("[/*[*/ ", "]")] {
                    let k = n / o.matches(|c| c == '[' || c == '{').count().min(2).max(1);
                    let full = format!("{}1{}", o.repeat(k), c.repeat(k));
                    judge(&full, cx)?;
                    judge(&format!("{}1{}", o.repeat(k), c.repeat(k - k.min(1))), cx)?;
                    judge(&format!("{}1{}", o.repeat(k), c.repeat(k + 1)), cx)?;
                }
            }
            cx.outcome("nesting");
        }
        "long" => {
            for n in [LONG[num(1)], LONG[num(1)] + 1] {
                cx.beat();
                for c in ["a", "é", "漢", "😀", " ", "\\n", "\\u0041", "\\ud83d\\ude00", "\\\n", "\\x41", "//", "/*"] {
                    for pre in ["", "b", "bc"] {
                        for q in ["'", "\""] {
                            let s = format!("{q}{pre}{}", c.repeat(n));
                            judge(&format!("{s}z{q}"), cx)?;
                            judge(&format!("[{s}{q},{q}z{q}]"), cx)?;
                        }
                        judge(&format!("{{'{pre}{}':1}}", c.repeat(n)), cx)?;
                    }
                    judge(&format!("'{}", c.repeat(n)), cx)?;
                }
                for c in [" ", "\n", "\t", "\r\n", "\u{a0}", "\u{feff}", "\u{2028}", "//\n", "/**/", "/*\n*/"] {
                    let g = c.repeat(n);
                    judge(&format!("{g}1"), cx)?;
                    judge(&format!("[1{g},{g}2]"), cx)?;
                    judge(&format!("{{a{g}:{g}1}}{g}"), cx)?;
                }
                for c in ["x", "*", "/", "é", "'"] {
                    judge(&format!("/*{}*/[1]", c.repeat(n).replace("*/", "")), cx)?;
                    judge(&format!("//{}\n[1]//{}", c.repeat(n), c.repeat(n)), cx)?;
                }
                for c in ["a", "$", "_", "é", "漢", "\\u0061", "1"] {
                    for suf in ["", "?", "!", "!?"] {
                        judge(&format!("{{b{}{suf}:1}}", c.repeat(n)), cx)?;
                    }
                }
                for d in ["0", "1", "9"] {
                    let d = d.repeat(n);
                    for s in [format!("0.{d}1"), format!("1.{d}"), format!("1e-{d}"), format!("1e{d}"), format!("1{d}.5"), format!("1{d}"), format!("0x{d}1"), format!("1.5e0{d}1")] {
                        judge(&s, cx)?;
                    }
                }
                let l: Vec<String> = (0..n).map(|i| (i % 1009).to_string()).collect();
                judge(&format!("[{}]", l.join(",")), cx)?;
                judge(&format!("[{},]", l.join(",")), cx)?;
                if n < 5000 {
                    let l: Vec<String> = (0..n).map(|i| format!("k{}:{}", i, i % 1009)).collect();
                    judge(&format!("{{{}}}", l.join(",")), cx)?;
                    judge(&format!("{{{},k{}:0}}", l.join(","), n / 2), cx)?;
                }
            }
            cx.outcome("long texts");
        }
        "tree" => {
            let (n, i, m) = (num(1), num(2), num(3));
            let all = leaves();
            let few: Vec<R> = vec![all[0].clone(), all[4].clone(), all[9].clone()];
            let (l, st) = if n <= 3 { (trees(n, &all), styles()) } else { (trees(n, &few), styles()) };
            for (x, t) in l.iter().enumerate() {
                if x % m != i {
                    continue;
                }
                for (k, s) in st.iter().enumerate() {
                    let mut o = s.gap.to_string();
                    print(t, *s, &mut o);
                    o.push_str(s.gap);
                    if !judge(&o, cx)? {
                        return Err(format!("machinery: printed text {:?} is not in the dialect", o));
                    }
                    let r = reference(&o);
                    if r != Some(Ok(t.clone())) {
                        return Err(format!("machinery: printed text {:?} denotes {:?}", o, r));
                    }
                    // every edit of every text in one style per tree, all styles in turn
                    if k == x % st.len() || (n <= 2 && k < 8) {
                        mutate(&o, cx)?;
                    }
                }
            }
            cx.outcome("trees");
        }
        _ => return Err(format!("unknown case {}", case)),
    }
    Ok(())
}
