//! C02: numeric-string and URL-string compaction are lossless.
use crate::infra::*;
use dochy_compaction::string_compaction::{compress_strings, decompress};
use dochy_compaction::url_string::{get_bytes, get_url_string};

pub fn check() -> Check {
    Check {
        id: "C02",
        level: "model_checking",
        rule: "every string up to the bound over the characters the number recogniser distinguishes, every digit pattern around the integer width edges with every dot position and sign, every list up to length 3 of representatives; every byte string up to length 2, every boundary-byte string of length 3 and 4, every length up to 40 with every single bit set or cleared; patterned byte strings up to 600 bytes and at the length edges up to 1 MB; long numbers, texts and lists. A state is a distinct compressed form.",
        assumptions: &["characters outside the alphabet behave like the letter or the multi-byte character in it"],
        cases,
        run,
        hang_s: 120,
        max_workers: 64,
    }
}

const AL: [char; 12] = ['0', '1', '9', '-', '.', 'a', 'é', '+', 'e', ' ', '\n', '5'];

fn special() -> Vec<String> {
    let mut v: Vec<String> = ["", "true", "false", "null", "undefined0", "undefined7", "True", "NaN", "inf", "-inf", "Infinity", "0x10", "1_000", "1,000", "１", "٣", "0-1", "--1", "-", "."]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for i in [i64::MAX as i128, i64::MIN as i128, i128::MAX, i128::MIN, 127, -128, 255, 32767, -32768] {
        for d in [-1i128, 0, 1] {
            if let Some(x) = i.checked_add(d) {
                v.push(x.to_string());
            }
        }
    }
    // one digit beyond what 128 bits hold
    v.push("170141183460469231731687303715884105728".into());
    v.push("-170141183460469231731687303715884105729".into());
    v
}

/// digit strings of n digits
fn digits(n: usize) -> Vec<String> {
    let mut v = vec!["9".repeat(n), "1".repeat(n), "0".repeat(n), format!("1{}", "0".repeat(n - 1)), format!("{}1", "0".repeat(n - 1))];
    let max = i128::MAX.to_string();
    if n <= max.len() {
        v.push(max[..n].to_string());
    }
    v
}

fn roundtrip(l: &[String], cx: &mut Ctx) -> Result<(), String> {
    cx.eval();
    cx.transitions += l.len() as u64;
    let b = compress_strings(l.iter().cloned()).map_err(|e| format!("compress {:?}: {}", l, e))?;
    let (r, n) = decompress(&b).map_err(|e| format!("decompress {:?}: {}", l, e))?;
    if let Some(i) = (0..l.len().max(r.len())).find(|i| l.get(*i) != r.get(*i)) {
        return Err(format!("string {:?} came back as {:?}", l.get(i), r.get(i)));
    }
    if n != b.len() {
        return Err(format!("decompress read {} of {} bytes", n, b.len()));
    }
    cx.state(&b);
    Ok(())
}

fn url(b: &[u8], cx: &mut Ctx) -> Result<(), String> {
    cx.eval();
    cx.step();
    let s = get_url_string(b);
    if let Some(c) = s.chars().find(|c| !(c.is_ascii_alphanumeric() || *c == '-' || *c == '_')) {
        return Err(format!("url string of {:?} has {:?}", b, c));
    }
    match get_bytes(&s) {
        Some(r) if r == b => {}
        r => return Err(format!("bytes {:?} -> {:?} -> {:?}", b, s, r)),
    }
    cx.state(&s);
    Ok(())
}

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    let len = t.pick(6, 7);
    v.push("short".into());
    for i in 0..AL.len() {
        for j in 0..AL.len() {
            v.push(format!("all {} {} {}", len, i, j));
        }
    }
    for n in 1..=60 {
        v.push(format!("digits {}", n));
    }
    for n in 240..=270 {
        v.push(format!("digits {}", n));
    }
    v.push("lists".into());
    for i in 0..16 {
        v.push(format!("url2 {}", i));
    }
    v.push("url3".into());
    v.push("urlbits".into());
    v.push("urlbad".into());
    v
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    match p[0] {
        "short" => {
            roundtrip(&[], cx)?;
            for s in special() {
                roundtrip(&[s], cx)?;
            }
            for a in AL {
                roundtrip(&[a.to_string()], cx)?;
            }
            for c in 0..0x300u32 {
                if let Some(c) = std::char::from_u32(c) {
                    for s in [format!("{}", c), format!("1{}", c), format!("1{}2", c), format!("{}1", c), format!("-{}1", c)] {
                        roundtrip(&[s], cx)?;
                    }
                }
            }
            cx.outcome("special");
        }
        "all" => {
            let (len, a, b) = (num(1), num(2), num(3));
            fn rec(cur: &mut String, n: usize, len: usize, cx: &mut Ctx, buf: &mut Vec<String>) -> Result<(), String> {
                buf.push(cur.clone());
                if buf.len() == 64 {
                    roundtrip(buf, cx)?;
                    buf.clear();
                }
                if n == len {
                    return Ok(());
                }
                for c in AL {
                    cur.push(c);
                    rec(cur, n + 1, len, cx, buf)?;
                    cur.pop();
                }
                Ok(())
            }
            let mut cur = String::new();
            cur.push(AL[a]);
            cur.push(AL[b]);
            cx.sample(|| format!("all strings of length 2..={} starting with {:?}", len, cur));
            let mut buf = vec![];
            rec(&mut cur, 2, len, cx, &mut buf)?;
            roundtrip(&buf, cx)?;
            cx.outcome("all strings with one prefix");
        }
        "digits" => {
            let n = num(1);
            for d in digits(n) {
                let mut forms = vec![d.clone()];
                for p in 0..=d.len() {
                    forms.push(format!("{}.{}", &d[..p], &d[p..]));
                }
                forms.push(format!("0.{}", d));
                forms.push(format!("0.0{}", d));
                forms.push(format!("{}.0", d));
                forms.push(format!("{}a", d));
                for f in forms {
                    let m = format!("-{}", f);
                    roundtrip(&[f], cx)?;
                    roundtrip(&[m], cx)?;
                }
            }
            cx.sample(|| format!("{} digits, every dot position", n));
            cx.outcome("digit patterns");
        }
        "lists" => {
            let mut reps = special();
            reps.push("a".repeat(15));
            reps.push("a".repeat(16));
            reps.push("a".repeat(255));
            reps.push("a".repeat(256));
            reps.push("1.5".into());
            reps.push("0.05".into());
            for a in &reps {
                for b in &reps {
                    roundtrip(&[a.clone(), b.clone()], cx)?;
                }
            }
            let small: Vec<String> = ["", "0", "1", "true", "127", "128", "1.5", "-0", "x", "12345678901234567890"].iter().map(|s| s.to_string()).collect();
            for a in &small {
                for b in &small {
                    for c in &small {
                        roundtrip(&[a.clone(), b.clone(), c.clone()], cx)?;
                    }
                }
            }
            for n in [15, 16, 17, 31, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 65537] {
                cx.beat();
                roundtrip(&(0..n).map(|i| small[i * 3 % small.len()].clone()).collect::<Vec<String>>(), cx)?;
                for c in ["1", "9", "a", "é"] {
                    roundtrip(&[c.repeat(n)], cx)?;
                    roundtrip(&[format!("0.{}", c.repeat(n)), format!("{}.5", c.repeat(n)), format!("-{}", c.repeat(n))], cx)?;
                }
            }
            cx.outcome("lists");
        }
        "url2" => {
            let hi = num(1) as u16;
            if hi == 0 {
                url(&[], cx)?;
                for a in 0..=255u8 {
                    url(&[a], cx)?;
                }
            }
            for lo in 0..4096u16 {
                let x = hi << 12 | lo;
                url(&x.to_be_bytes(), cx)?;
            }
            cx.outcome("all 2-byte strings of one block");
        }
        "url3" => {
            let bs = [0u8, 1, 2, 3, 0x0f, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xf0, 0xfc, 0xfe, 0xff, 0x55];
            for a in bs {
                for b in bs {
                    for c in bs {
                        url(&[a, b, c], cx)?;
                        for d in bs {
                            url(&[a, b, c, d], cx)?;
                        }
                    }
                }
            }
            cx.outcome("boundary byte strings");
        }
        "urlbits" => {
            for n in 0..=40usize {
                url(&vec![0u8; n], cx)?;
                url(&vec![255u8; n], cx)?;
                for bit in 0..n * 8 {
                    let mut v = vec![0u8; n];
                    v[bit / 8] = 1 << (bit % 8);
                    url(&v, cx)?;
                    for x in v.iter_mut() {
                        *x = !*x;
                    }
                    url(&v, cx)?;
                }
            }
            for n in (41..=600).chain([4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]) {
                url(&vec![0u8; n], cx)?;
                url(&vec![255u8; n], cx)?;
                for k in [1usize, 7, 85] {
                    url(&(0..n).map(|i| (i * k + n) as u8).collect::<Vec<u8>>(), cx)?;
                }
                for at in [0, n / 2, n - 2, n - 1] {
                    let mut v = vec![0u8; n];
                    v[at] = 0x81;
                    url(&v, cx)?;
                }
            }
            cx.outcome("single bits");
        }
        "urlbad" => {
            for c in 0..0x250u32 {
                if let Some(c) = std::char::from_u32(c) {
                    let ok = c.is_ascii_alphanumeric() || c == '-' || c == '_';
                    for s in [format!("A{}", c), format!("{}AAA", c)] {
                        let r = get_bytes(&s);
                        if r.is_some() != ok {
                            return Err(format!("get_bytes({:?}) = {:?}", s, r));
                        }
                        cx.eval();
                    }
                }
            }
            cx.outcome("foreign characters");
        }
        _ => return Err(format!("unknown case {}", case)),
    }
    Ok(())
}
