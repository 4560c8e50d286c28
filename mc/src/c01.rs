//! C01: the binary value encoding is lossless.
use crate::infra::*;
use dochy_compaction::basic_compaction::{comp_double, comp_float, comp_int, comp_str};
use dochy_compaction::kval_enum::{Decimal, KVal};
use dochy_compaction::{decode, decode_from_slice, encode, encode_to_vec};
use std::io::{Read, Write};
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C01",
        level: "model_checking",
        rule: "every value of the boundary alphabet alone; every ordered pair of class representatives; every class at every tag bit offset 0..63; every sequence up to the bound over a small alphabet; runs of equal values around the count edges; texts and binaries up to 2^24 bytes; split readers and writers; all f32 bit patterns through float compaction. A state is a distinct encoded byte string.",
        assumptions: &["values outside the boundary alphabet behave like their width/length class", "the byte stream is delivered in order by the reader"],
        cases,
        run,
        hang_s: 120,
        max_workers: 64,
    }
}

fn ints() -> Vec<i64> {
    let mut v: Vec<i64> = (-300..=300).collect();
    for k in 0..63u32 {
        let p = 1i64 << k;
        for d in -2..=2 {
            v.push(p.wrapping_add(d));
            v.push((-p).wrapping_add(d));
        }
    }
    for d in 0..3 {
        v.push(i64::MAX - d);
        v.push(i64::MIN + d);
    }
    v.sort();
    v.dedup();
    v
}
fn i128s() -> Vec<i128> {
    let mut v: Vec<i128> = vec![0];
    for k in 0..127u32 {
        let p = 1i128 << k;
        for d in -1..=1 {
            v.push(p + d);
            v.push(-p + d);
        }
    }
    v.push(i128::MAX);
    v.push(i128::MIN);
    v.push(i128::MIN + 1);
    v.sort();
    v.dedup();
    v
}
pub fn floats() -> Vec<f32> {
    let mut v = vec![];
    for s in 0..2u32 {
        for e in 0..=255u32 {
            for m in [0u32, 1, 0x400000, 0x7fffff, 0x555555] {
                v.push(f32::from_bits(s << 31 | e << 23 | m));
            }
        }
    }
    v
}
pub fn doubles(all_exp: bool) -> Vec<f64> {
    let mut v = vec![];
    let exps: Vec<u64> = if all_exp {
        (0..2048).collect()
    } else {
        vec![0, 1, 896, 897, 1022, 1023, 1024, 1029, 1030, 1037, 1046, 1047, 1053, 1054, 1055, 1074, 1075, 1076, 1084, 1085, 1086, 1087, 1150, 1151, 2046, 2047]
    };
    for s in 0..2u64 {
        for e in &exps {
            for m in [0u64, 1, 1 << 51, (1 << 52) - 1, 1 << 29, 1 << 28, 0x5555555555555] {
                v.push(f64::from_bits(s << 63 | e << 52 | m));
            }
        }
    }
    for i in ints() {
        v.push(i as f64);
        v.push(i as f64 + 0.5);
    }
    v
}
fn text(len: usize, kind: usize) -> String {
    let mut s = String::new();
    match kind {
        0 => {
            for i in 0..len {
                s.push((b'a' + (i % 26) as u8) as char);
            }
        }
        _ => {
            while s.len() + 3 <= len {
                s.push('あ');
            }
            while s.len() < len {
                s.push('\0');
            }
        }
    }
    s
}
fn bytes(len: usize) -> Vec<u8> {
    (0..len).map(|i| (i * 7 + 0x80) as u8).collect()
}

const BIG_LENS: [usize; 15] = [0, 1, 2, 15, 16, 126, 127, 128, 129, 255, 256, 257, 32767, 32768, 65536];

/// name of a group -> its values
fn group(name: &str) -> Vec<KVal> {
    match name {
        "simple" => {
            let mut v = vec![KVal::Null];
            for b in [false, true] {
                v.push(KVal::Bit(b));
                v.push(KVal::Bool(b));
            }
            for u in 0..8 {
                v.push(KVal::Undefined(u));
            }
            for i in -128..=127i32 {
                v.push(KVal::Byte(i as i8));
            }
            v
        }
        "int" => ints().into_iter().map(KVal::Int).collect(),
        "float" => floats().into_iter().map(KVal::Float).collect(),
        "double" => doubles(true).into_iter().map(KVal::Double).collect(),
        "dec" => {
            let mut v = vec![];
            for i in i128s() {
                for d in [0u8, 1, 2, 9, 127, 128, 255] {
                    v.push(KVal::Decimal(Decimal::new(i, d)));
                }
            }
            v
        }
        "str" => {
            let mut v = vec![];
            for l in 0..16 {
                for k in 0..2 {
                    v.push(KVal::Str16(text(l, k)));
                }
            }
            for l in 0..256 {
                for k in 0..2 {
                    v.push(KVal::Str256(text(l, k)));
                }
            }
            for l in BIG_LENS {
                for k in 0..2 {
                    v.push(KVal::BigStr(text(l, k)));
                }
            }
            v
        }
        "bin" => {
            let mut v = vec![];
            for l in BIG_LENS {
                v.push(KVal::Binary(bytes(l)));
                v.push(KVal::BinaryArc(Arc::new(bytes(l))));
                v.push(KVal::Binary8((0..l as u64).map(|i| i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect()));
                v.push(KVal::Binary4((0..l as u32).map(|i| i.wrapping_mul(0x9E37_79B9)).collect()));
                v.push(KVal::Binary2((0..l as u32).map(|i| i.wrapping_mul(0x9E37) as u16).collect()));
            }
            for b in 0..=255u8 {
                v.push(KVal::Binary(vec![b]));
            }
            v.push(KVal::Binary8(vec![0, 1, 255, 256, u64::MAX, 1 << 63]));
            v.push(KVal::Binary4(vec![0, 1, 255, 256, u32::MAX, 1 << 31]));
            v.push(KVal::Binary2(vec![0, 1, 255, 256, u16::MAX, 1 << 15]));
            v
        }
        _ => vec![],
    }
}

/// one or two values of every tag and size class
fn reps() -> Vec<KVal> {
    let mut v = vec![KVal::Null, KVal::Bit(false), KVal::Bit(true), KVal::Bool(false), KVal::Bool(true)];
    for u in 0..8 {
        v.push(KVal::Undefined(u));
    }
    for b in [-128i8, -1, 0, 1, 127] {
        v.push(KVal::Byte(b));
    }
    for k in 1..=8u32 {
        let top = if k == 8 { i64::MAX } else { (1i64 << (8 * k - 1)) - 1 };
        v.push(KVal::Int(top));
        v.push(KVal::Int(-top - 1));
    }
    v.push(KVal::Int(0));
    v.push(KVal::Int(-1));
    for l in [0usize, 1, 7, 8, 15] {
        v.push(KVal::Str16(text(l, 0)));
    }
    for l in [0usize, 1, 16, 255] {
        v.push(KVal::Str256(text(l, 1)));
    }
    for l in [0usize, 127, 128, 256] {
        v.push(KVal::BigStr(text(l, 1)));
    }
    v.push(KVal::Float(-0.0));
    v.push(KVal::Float(f32::from_bits(0x7fc12345)));
    v.push(KVal::Double(-0.0));
    v.push(KVal::Double(f64::from_bits(0x7ff8000000012345)));
    v.push(KVal::Double(1.5));
    for k in 1..=16u32 {
        let top = if k == 16 { i128::MAX } else { (1i128 << (8 * k - 1)) - 1 };
        v.push(KVal::Decimal(Decimal::new(top, (k % 3) as u8)));
    }
    v.push(KVal::Decimal(Decimal::new(i128::MIN, 255)));
    v.push(KVal::Decimal(Decimal::new(0, 0)));
    for l in [0usize, 1, 127, 128, 255, 256] {
        v.push(KVal::Binary(bytes(l)));
    }
    v.push(KVal::BinaryArc(Arc::new(bytes(3))));
    for l in [0usize, 1, 128] {
        v.push(KVal::Binary8(vec![u64::MAX - 1; l]));
        v.push(KVal::Binary4(vec![0x80000001; l]));
        v.push(KVal::Binary2(vec![0x8001; l]));
    }
    v
}

fn small(n: usize) -> Vec<KVal> {
    let mut v = vec![
        KVal::Bit(true),
        KVal::Null,
        KVal::Byte(-1),
        KVal::Int(128),
        KVal::Str16("a".into()),
        KVal::Bool(true),
        KVal::Undefined(3),
        KVal::Double(0.1),
        KVal::Bit(false),
        KVal::Decimal(Decimal::new(-1, 1)),
        KVal::Binary(vec![0, 255]),
        KVal::Str256("".into()),
        KVal::Float(0.5),
        KVal::Binary2(vec![256]),
    ];
    v.truncate(n);
    v
}

fn copy(v: &KVal) -> KVal {
    match v {
        KVal::Null => KVal::Null,
        KVal::Bit(b) => KVal::Bit(*b),
        KVal::Bool(b) => KVal::Bool(*b),
        KVal::Byte(b) => KVal::Byte(*b),
        KVal::Str16(s) => KVal::Str16(s.clone()),
        KVal::Int(i) => KVal::Int(*i),
        KVal::Float(f) => KVal::Float(*f),
        KVal::Str256(s) => KVal::Str256(s.clone()),
        KVal::Double(d) => KVal::Double(*d),
        KVal::Decimal(d) => KVal::Decimal(*d),
        KVal::BigStr(s) => KVal::BigStr(s.clone()),
        KVal::Binary(v) => KVal::Binary(v.clone()),
        KVal::BinaryArc(v) => KVal::BinaryArc(v.clone()),
        KVal::Binary8(v) => KVal::Binary8(v.clone()),
        KVal::Binary4(v) => KVal::Binary4(v.clone()),
        KVal::Binary2(v) => KVal::Binary2(v.clone()),
        KVal::Undefined(u) => KVal::Undefined(*u),
    }
}

/// the same variant (a shared binary reads back as an owned one) and the same bits
fn same(a: &KVal, b: &KVal) -> bool {
    match (a, b) {
        (KVal::Float(x), KVal::Float(y)) => x.to_bits() == y.to_bits(),
        (KVal::Double(x), KVal::Double(y)) => x.to_bits() == y.to_bits(),
        (KVal::BinaryArc(x), KVal::Binary(y)) => **x == *y,
        _ => a == b,
    }
}

fn short(v: &[KVal]) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

fn compare(a: &[KVal], b: &[KVal], how: &str) -> Result<(), String> {
    if a.len() != b.len() || !a.iter().zip(b).all(|(x, y)| same(x, y)) {
        return Err(format!("{}: encoded {} decoded {}", how, short(a), short(b)));
    }
    Ok(())
}

struct Drip<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    flip: bool,
}
impl<'a> Read for Drip<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.flip = !self.flip;
        if self.flip {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Sip(Vec<u8>, usize);
impl Write for Sip {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn round(v: &[KVal], cx: &mut Ctx) -> Result<Vec<u8>, String> {
    cx.eval();
    cx.transitions += v.len() as u64 + 2;
    let b = encode_to_vec(v).map_err(|e| format!("encode failed: {} for {}", e, short(v)))?;
    let (d, n) = decode_from_slice(&b).map_err(|e| format!("decode failed: {} for {}", e, short(v)))?;
    compare(v, &d, "round trip")?;
    if n != b.len() {
        return Err(format!("decoder read {} of {} bytes for {}", n, b.len(), short(v)));
    }
    cx.state(&b);
    Ok(b)
}

/// with bytes following, through a slice reader and slow readers and writers
fn round_env(v: &[KVal], cx: &mut Ctx) -> Result<(), String> {
    let b = round(v, cx)?;
    let mut follow = b.clone();
    follow.extend_from_slice(&[0xff, 0x00, 0x80]);
    let mut sl: &[u8] = &follow;
    let (d, n) = decode(&mut sl).map_err(|e| format!("decode failed: {}", e))?;
    compare(v, &d, "followed by other bytes")?;
    if n != b.len() || sl.len() != 3 {
        return Err(format!("reader consumed {} (reported {}) of {} for {}", follow.len() - sl.len(), n, b.len(), short(v)));
    }
    for chunk in [1usize, 3] {
        let mut r = Drip { data: &b, pos: 0, chunk, flip: false };
        let (d, n) = decode(&mut r).map_err(|e| format!("slow reader: {} for {}", e, short(v)))?;
        compare(v, &d, "slow reader")?;
        if n != b.len() || r.pos != b.len() {
            return Err(format!("slow reader consumed {} of {}", r.pos, b.len()));
        }
        let mut w = Sip(vec![], chunk);
        let n = encode(v, &mut w).map_err(|e| format!("slow writer: {}", e))?;
        if w.0 != b || n != b.len() {
            return Err(format!("slow writer got {} bytes, reported {}, expected {} for {}", w.0.len(), n, b.len(), short(v)));
        }
    }
    Ok(())
}

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for g in ["simple", "int", "float", "double", "dec", "str", "bin"] {
        v.push(format!("single {}", g));
    }
    v.push("runs".into());
    v.push("concat".into());
    v.push("comp".into());
    let n = reps().len();
    for i in 0..n {
        v.push(format!("pairs {}", i));
        v.push(format!("offset {}", i));
    }
    let (k, len) = t.pick((10, 4), (14, 5));
    for i in 0..k {
        for j in 0..k {
            v.push(format!("seq {} {} {} {}", k, len, i, j));
        }
    }
    for i in 0..256 {
        v.push(format!("f32 {}", i));
    }
    if t.thorough() {
        for i in 0..n {
            v.push(format!("triples {}", i));
        }
    }
    v
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    match p[0] {
        "single" => {
            for x in group(p[1]) {
                let v = [x];
                cx.sample(|| short(&v));
                round_env(&v, cx)?;
            }
            cx.outcome("single");
        }
        "pairs" => {
            let r = reps();
            for j in 0..r.len() {
                round_env(&[copy(&r[num(1)]), copy(&r[j])], cx)?;
            }
            cx.outcome("pairs");
        }
        "triples" => {
            let r = reps();
            for j in 0..r.len() {
                for k in 0..r.len() {
                    round(&[copy(&r[num(1)]), copy(&r[j]), copy(&r[k])], cx)?;
                }
            }
            cx.outcome("triples");
        }
        "offset" => {
            // Null is 5 tag bits and Bit is 2: every bit offset up to 64 is reached
            let r = reps();
            for nulls in 0..8usize {
                for bits in 0..16usize {
                    let mut v: Vec<KVal> = vec![];
                    for _ in 0..nulls {
                        v.push(KVal::Null);
                    }
                    for b in 0..bits {
                        v.push(KVal::Bit(b % 2 == 0));
                    }
                    v.push(copy(&r[num(1)]));
                    v.push(KVal::Bit(true));
                    round(&v, cx)?;
                }
            }
            cx.outcome("offset");
        }
        "seq" => {
            let (k, len, a, b) = (num(1), num(2), num(3), num(4));
            let al = small(k);
            fn rec(al: &[KVal], cur: &mut Vec<KVal>, len: usize, cx: &mut Ctx) -> Result<(), String> {
                round(cur, cx)?;
                if cur.len() == len {
                    return Ok(());
                }
                for x in al {
                    cur.push(copy(x));
                    rec(al, cur, len, cx)?;
                    cur.pop();
                }
                Ok(())
            }
            if b == 0 {
                round(&[copy(&al[a])], cx)?;
            }
            let mut cur = vec![copy(&al[a]), copy(&al[b])];
            cx.sample(|| format!("all sequences of length 2..={} starting with {}", len, short(&cur)));
            rec(&al, &mut cur, len, cx)?;
            cx.outcome("seq");
        }
        "runs" => {
            round_env(&[], cx)?;
            let kinds: Vec<KVal> = vec![KVal::Bit(true), KVal::Null, KVal::Byte(5), KVal::Bool(false), KVal::Undefined(7), KVal::Int(1000), KVal::Str16("x".into())];
            for k in &kinds {
                for n in (0..=300usize).chain([511, 512, 1023, 1024, 2047, 2048, 4096, 32766, 32767, 32768, 32769]) {
                    let v: Vec<KVal> = (0..n).map(|_| copy(k)).collect();
                    round(&v, cx)?;
                }
            }
            cx.outcome("runs");
        }
        "concat" => {
            let r = reps();
            for a in 0..r.len() {
                let mut all = vec![];
                let mut seqs: Vec<Vec<KVal>> = vec![];
                for s in [vec![copy(&r[a])], vec![], vec![copy(&r[(a + 1) % r.len()]), copy(&r[a])], vec![copy(&r[(a + 7) % r.len()])]] {
                    let n0 = all.len();
                    let n = encode(&s, &mut all).map_err(|e| e.to_string())?;
                    if all.len() - n0 != n {
                        return Err(format!("encode reported {} bytes, wrote {}", n, all.len() - n0));
                    }
                    seqs.push(s);
                }
                let mut sl: &[u8] = &all;
                for s in &seqs {
                    let (d, _) = decode(&mut sl).map_err(|e| format!("concatenated: {}", e))?;
                    compare(s, &d, "concatenated")?;
                    cx.step();
                }
                if !sl.is_empty() {
                    return Err(format!("{} bytes left after concatenated encodings", sl.len()));
                }
                cx.eval();
                cx.state(&all);
            }
            cx.outcome("concat");
        }
        "comp" => {
            for i in ints().into_iter().chain(-70000..70000) {
                let k = comp_int(i);
                let b = round(&[k], cx)?;
                let (d, _) = decode_from_slice(&b).map_err(|e| e.to_string())?;
                if d[0].as_i64() != Some(i) {
                    return Err(format!("comp_int({}) reads back {:?}", i, d[0]));
                }
            }
            for f in doubles(true) {
                let b = round(&[comp_double(f)], cx)?;
                let (d, _) = decode_from_slice(&b).map_err(|e| e.to_string())?;
                let g = d[0].as_f64();
                if g.map(|g| g.to_bits()) != Some(f.to_bits()) {
                    return Err(format!("comp_double({:?} {:x}) reads back {:?}", f, f.to_bits(), d[0]));
                }
            }
            for f in floats() {
                let b = round(&[comp_float(f)], cx)?;
                let (d, _) = decode_from_slice(&b).map_err(|e| e.to_string())?;
                if d[0].as_f32().map(|g| g.to_bits()) != Some(f.to_bits()) {
                    return Err(format!("comp_float({:?} {:x}) reads back {:?}", f, f.to_bits(), d[0]));
                }
            }
            for l in [65535, 65537, 1 << 17, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1] {
                cx.beat();
                round(&[KVal::Binary(bytes(l)), KVal::Int(5), comp_str(text(l, 0))], cx)?;
            }
            for l in (0..=600).chain([32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1]) {
                for k in 0..2 {
                    let s = text(l, k);
                    let b = round(&[comp_str(s.clone())], cx)?;
                    let (d, _) = decode_from_slice(&b).map_err(|e| e.to_string())?;
                    if d[0].as_string().as_deref() != Some(&s) {
                        return Err(format!("comp_str of {} bytes reads back {}", l, short(&d)));
                    }
                }
            }
            for b in [false, true] {
                for k in [KVal::Bool(b), KVal::Bit(b)] {
                    if k.as_bool() != Some(b) {
                        return Err("as_bool".into());
                    }
                }
            }
            cx.outcome("comp");
        }
        "f32" => {
            let hi = (num(1) as u32) << 24;
            for lo in 0..(1u32 << 24) {
                let f = f32::from_bits(hi | lo);
                let k = comp_float(f);
                if k.as_f32().map(|g| g.to_bits()) != Some(f.to_bits()) {
                    return Err(format!("comp_float({:?} {:x}) is {:?}", f, f.to_bits(), k));
                }
            }
            cx.evaluations += 1 << 24;
            cx.outcome("all f32 of one sign/exponent block");
        }
        _ => return Err(format!("unknown case {}", case)),
    }
    Ok(())
}
