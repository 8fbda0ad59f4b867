//! Seeded input generators for the recording direction.
use crate::j::J;
use serde_json::json;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

fn digits(r: &mut Rng, n: usize, radix: u32) -> String {
    (0..n)
        .map(|_| {
            let c = char::from_digit(r.below(radix as usize) as u32, radix).unwrap();
            if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }
        })
        .collect()
}

pub fn int_text(r: &mut Rng) -> String {
    let bounds: [u128; 16] = [
        0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 4294967295,
        9223372036854775807, 18446744073709551615, 170141183460469231731687303715884105727,
        340282366920938463463374607431768211455,
    ];
    let sign = *r.pick(&["", "", "", "+", "-", "-"]);
    if r.chance(1, 6) {
        let n = r.range(1, 44);
        return format!("{sign}{}", digits(r, n, 10));
    }
    let v = if r.chance(2, 3) {
        let b = *r.pick(&bounds);
        let d = r.below(3) as u128;
        if r.chance(1, 2) { b.saturating_add(d) } else { b.saturating_sub(d) }
    } else {
        let bits = r.below(128);
        (((r.next() as u128) << 64) | r.next() as u128) >> bits
    };
    let zeros = if r.chance(1, 5) { "00" } else { "" };
    match r.below(6) {
        0 => format!("{sign}0x{zeros}{v:x}"),
        1 => format!("{sign}0x{zeros}{v:X}"),
        2 => format!("{sign}0o{zeros}{v:o}"),
        3 => format!("{sign}0b{zeros}{v:b}"),
        _ => format!("{sign}{}{v}", if r.chance(1, 12) { "0" } else { "" }),
    }
}

pub fn float_text(r: &mut Rng) -> String {
    let sign = *r.pick(&["", "", "+", "-"]);
    let a = r.range(0, 8);
    let b = r.range(0, 8);
    let mut s = format!("{sign}{}", digits(r, a, 10));
    if r.chance(3, 4) {
        s.push('.');
        s.push_str(&digits(r, b, 10));
    }
    if r.chance(1, 2) {
        s.push(*r.pick(&['e', 'E']));
        s.push_str(*r.pick(&["", "+", "-"]));
        let e = *r.pick(&[0, 1, 2, 5, 10, 17, 22, 23, 100, 250, 280, 330, 340, 400, 999]);
        s.push_str(&e.to_string());
    }
    s
}

pub fn word(r: &mut Rng) -> String {
    let words = [
        "null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", ".Inf", ".INF", "-.inf",
        "+.inf", ".nan", ".NaN", ".NAN", "yes", "no", "on", "off", "y", "n", "inf", "nan", "NaN", "infinity", "-inf",
        "0x", "0o", "0b", "1_000", "1e", "e1", ".", "..", "+", "0.", ".0", "-.", "1.2.3", "0777", "00", "-0", "+0", "-00",
        "08", "1e400", "-1e400", "0x1p3", "nULL", "TrUE", "+.nan", "-.nan", ".iNf", "=", "<<", "!", "12e03", "1:30", "0b12",
        "0o8", "0xg", "+-1", "--1", "-+1", "0x-1", "-0x-1", "+0x+1", "1 ", "0x 1",
        "0€", "+é", "-0€", ".€", "0x€", "0oé", "-0b€", "€", "1é", "0\u{1F600}", "+0\u{1F600}", "~é", "nul\u{e9}",
    ];
    let mut s: String = (*r.pick(&words)).to_owned();
    if r.chance(1, 3) && !s.is_empty() {
        let mut cs: Vec<char> = s.chars().collect();
        let i = r.below(cs.len());
        match r.below(3) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, *r.pick(&['0', '.', '-', '+', 'e', 'x', '_', 'N'])),
            _ => {
                cs[i] = if cs[i].is_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() };
            }
        }
        s = cs.into_iter().collect();
    }
    s
}

/// Arbitrary text, with a bias to what is delicate in YAML.
pub fn any_text(r: &mut Rng) -> String {
    let frags = [
        "a", "b", "Z", "0", "1", " ", "  ", "\n", "\n\n", "\t", "\r", "\r\n", ":", ": ", " #", "#", "-", "- ", "?", "? ", ",", "[", "]",
        "{", "}", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", "\\", "\\n", "\u{0}", "\u{7}", "\u{1b}", "\u{7f}", "\u{85}",
        "\u{a0}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{d7ff}", "\u{e000}", "é", "日本", "\u{1f600}",
        "\u{10ffff}", "---", "...", "--- ", "\n---\n", "\n...\n", "null", "true", "1.5", "<<", "key: value", "a: b", " a", "a ", "\n a", "a\n", "%YAML 1.2",
        "long words that go on for quite a while so that any folding at eighty columns would have to happen somewhere in here ",
    ];
    let n = *r.pick(&[1usize, 2, 2, 3, 3, 4, 5, 6, 8, 12, 30]);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 12) {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                s.push(c);
            }
        } else {
            s.push_str(*r.pick(&frags));
        }
    }
    if r.chance(1, 200) {
        s = s.repeat(200);
    }
    s
}

pub fn scalar(r: &mut Rng) -> J {
    let s = match r.below(10) {
        0..=2 => int_text(r),
        3 | 4 => float_text(r),
        5 => word(r),
        _ => any_text(r),
    };
    json!({"s": s})
}
