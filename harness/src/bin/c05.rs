//! C05: BigInt text: decimal, hexadecimal and binary rendering, parsing in every radix, and the
//! refusal of malformed text.
#[path = "../support/bi.rs"]
mod bi;
use bi::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::BigInt;
use numeric_traits::cast::FromStrRadix;

fn sign(b: &Big) -> &'static str {
    if b.neg {
        "-"
    } else {
        ""
    }
}

/// A value through arithmetic on primitives only, so that neither printing nor parsing is needed to know it
fn value(m: &mut Mon, b: &Big, how: usize) -> Option<BigInt> {
    let how = [1, 2, 3][how % 3];
    m.attempt("construct", || make(b, how)).ok()
}

fn format_all(m: &mut Mon, r: &mut Rng, b: &Big) {
    let Some(x) = value(m, b, r.below(3)) else { return };
    // The value is what it should be as far as equality with primitives and differences can tell
    m.seen(&("format", b));
    let dec = format!("{}{}", sign(b), b.abs().to_radix(10));
    let hex = b.abs().to_radix(16);
    let Some(got) = m.run("format", || show(b), || {
        (format!("{x}"), format!("{x:?}"), format!("{x:x}"), format!("{x:X}"), format!("{x:b}"), x.to_string())
    }) else {
        return;
    };
    // All renderings agree on another number: the construction went wrong, not the text
    if let (Some(bin), Some(dec)) = (parse_bin(&got.4), Big::from_radix(&got.0, 10)) {
        let hex = got.2.replace("0x", "");
        if bin == dec && Big::from_radix(&hex, 16).as_ref() == Some(&dec) && dec != *b {
            m.count("values constructed wrongly (not judged here)", 1);
            return;
        }
    }
    m.event(53, || format!("radix 10 {} {}", got.0, b.hex()));
    m.check("decimal", got.0 == dec && got.5 == dec, || format!("{}: printed {:?}, expected {dec:?}", show(b), got.0));
    m.check("debug", got.1 == dec, || format!("{}: debug printed {:?}, expected {dec:?}", show(b), got.1));
    let want = format!("{}0x{hex}", sign(b));
    m.check("lower hex", got.2 == want, || format!("{}: printed {:?}, expected {want:?}", show(b), got.2));
    let want = format!("{}0x{}", sign(b), hex.to_uppercase());
    m.check("upper hex", got.3 == want, || format!("{}: printed {:?}, expected {want:?}", show(b), got.3));
    m.check("binary", parse_bin(&got.4).as_ref() == Some(b), || format!("{}: printed {:?}", show(b), got.4));
    // Round trip through its own text
    let back = m.run("print then parse", || show(b), || BigInt::from_str_radix(&got.0, 10).map(|y| y == x).ok());
    m.check("print then parse", back == Some(Some(true)), || {
        format!("{}: {:?} does not parse back to the same value", show(b), got.0)
    });
}

/// The text of a number of exactly `n` digits, in one radix only: lengths matter to code that works in blocks
fn exact_length(m: &mut Mon, r: &mut Rng, n: usize) {
    let radix = if m.kind_slow() || r.chance(1, 3) { 16 } else { 10 };
    let low = Big::from_u128(radix).pow(n as u64 - 1);
    let b = match r.below(4) {
        0 => low.clone(),
        1 => low.mul(&Big::from_u128(radix)).sub(&Big::one()),
        _ => {
            let text: String = (0..n).map(|i| char::from_digit(if i == 0 { r.range(1, 9) } else { r.below(radix as usize) } as u32, 16).unwrap()).collect();
            Big::from_radix(&text, radix as u32).unwrap()
        }
    };
    let b = if r.chance(1, 4) { b.neg() } else { b };
    let Some(x) = value(m, &b, r.below(3)) else { return };
    m.seen(&("length", radix, &b));
    m.max("longest number printed in digits", n as u64);
    let Some(got) = m.run("exact lengths", || show(&b), || if radix == 10 { format!("{x}") } else { format!("{x:x}").replace("0x", "") }) else { return };
    let want = format!("{}{}", sign(&b), b.abs().to_radix(radix as u32));
    m.check("exact lengths", got == want, || format!("{} of {n} digits in radix {radix}: printed {got:?}", show(&b)));
}

/// Reading text of exactly `n` digits
fn exact_parse(m: &mut Mon, r: &mut Rng, n: usize) {
    let radix = radix(r);
    let text: String = (0..n).map(|i| char::from_digit(if i == 0 { 1 } else { r.below(radix as usize) as u32 }, radix).unwrap()).collect();
    let Some(want) = Big::from_radix(&text, radix) else { return };
    m.seen(&("parse length", radix, n, &want));
    m.max("longest number read in digits", n as u64);
    let got = m.run("exact lengths read", || format!("{text:?} in radix {radix}"), || BigInt::from_str_radix(&text, radix).ok());
    let Some(got) = got else { return };
    let obs = got.as_ref().and_then(observe);
    m.check("exact lengths read", obs.as_ref() == Some(&want), || {
        format!("{text:?} ({n} digits) in radix {radix}: expected {}, got {}", show(&want), if got.is_none() { "an error".into() } else { show_res(&obs) })
    });
    // The same with one wrong character anywhere
    let mut bad: Vec<char> = text.chars().collect();
    bad[r.below(n)] = *r.pick(&['_', '~', ' ', '-', '\u{e9}']);
    if bad[0] == '-' {
        return;
    }
    let bad: String = bad.into_iter().collect();
    let got = m.run("refuse", || format!("{bad:?} in radix {radix}"), || BigInt::from_str_radix(&bad, radix).is_err());
    m.check("refuse", got == Some(true), || format!("{bad:?} in radix {radix} was accepted"));
}

/// Lengths at which code working in blocks changes its mind
fn length(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(4) {
        0 => 1usize << r.below(14),
        1 => 64 * r.range(1, 40),
        2 => *r.pick(&[10, 100, 1000, 50, 200, 500, 9, 18, 19, 27, 36, 38]) * r.range(1, 4),
        _ => r.range(1, max),
    };
    (n + r.below(3)).saturating_sub(1).clamp(1, max)
}

fn radix(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 10,
        1 => *r.pick(&[2, 8, 16, 36]),
        _ => r.range(2, 36) as u32,
    }
}

fn parse(m: &mut Mon, r: &mut Rng, b: &Big) {
    let radix = radix(r);
    let mut text = String::new();
    text += sign(b);
    for _ in 0..(if r.chance(1, 3) { r.below(5) } else { 0 }) {
        text.push('0');
    }
    text += &b.abs().to_radix(radix);
    let text: String = match r.below(3) {
        0 => text.to_uppercase(),
        1 => text.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => text,
    };
    m.seen(&("parse", b, radix));
    let got = m.run("parse", || format!("{text:?} in radix {radix}"), || BigInt::from_str_radix(&text, radix).ok());
    let Some(got) = got else { return };
    let obs = got.as_ref().and_then(observe);
    m.event(53, || format!("radix {radix} {text} {}", obs.as_ref().map_or("?".into(), |o| o.hex())));
    m.check("parse", obs.as_ref() == Some(b), || {
        format!("{text:?} in radix {radix}: expected {}, got {}", show(b), if got.is_none() { "an error".into() } else { show_res(&obs) })
    });
    // Spoil one character: must be refused
    let mut chars: Vec<char> = text.chars().collect();
    let at = r.below(chars.len());
    let bad = match r.below(6) {
        0 => ' ',
        1 => '.',
        2 => *r.pick(&['_', '+', '-', '/', ':', '@', '[', '`', '{', '\0', 'é', '٣', '０', 'ﬀ', '\u{212A}']),
        3 => char::from_u32(r.range(128, 0x2FFF) as u32).unwrap_or('…'),
        _ if radix < 36 => {
            // The smallest digits that are too large, or any of the others
            let n = if r.bool() { radix } else { r.range(radix as usize, 35) as u32 };
            char::from_digit(n, 36).unwrap()
        }
        _ => '!',
    };
    if bad == '-' && at == 0 {
        return;
    }
    if r.bool() || (at == 0 && b.neg) {
        chars.insert(at.max(usize::from(b.neg)), bad);
    } else {
        chars[at] = bad;
    }
    let spoilt: String = chars.into_iter().collect();
    m.seen(&("spoilt", &spoilt, radix));
    let got = m.run("refuse", || format!("{spoilt:?} in radix {radix}"), || BigInt::from_str_radix(&spoilt, radix).is_err());
    m.check("refuse", got == Some(true), || format!("{spoilt:?} in radix {radix} was accepted"));
}

fn main() {
    run("C05", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let d = m.dict.clone();
        // Every character against every radix
        if m.shard == 0 {
            for radix in 2..=36u32 {
                for c in (0u32..0x250).filter_map(char::from_u32).chain("\u{FF11}\u{0661}\u{212A}\u{1D7CE}".chars()) {
                    let text = c.to_string();
                    let want = if c.is_ascii() { c.to_digit(36).filter(|&v| v < radix) } else { None };
                    let got = m.run("every character", || format!("{text:?} in radix {radix}"), || BigInt::from_str_radix(&text, radix).ok());
                    let Some(got) = got else { continue };
                    m.seen(&("char", c, radix));
                    let ok = match (&got, want) {
                        (Some(g), Some(v)) => *g == v,
                        (None, None) => true,
                        _ => false,
                    };
                    m.check("every character", ok, || format!("{text:?} in radix {radix}: got {got:?}, expected {want:?}"));
                }
            }
            for radix in [37u32, 38, 64, 255, 256, u32::MAX] {
                for t in ["0", "1", "z", "10", "", "-", "-1", " "] {
                    let got = m.run("bad radix", || format!("{t:?} in radix {radix}"), || BigInt::from_str_radix(t, radix).is_err());
                    m.check("bad radix", got == Some(true), || format!("{t:?} in radix {radix} was accepted"));
                }
            }
            for t in ["-", "--1", "1-", "+", "0x10", "1 ", " 1", "-0x1", "1e3", "1.0"] {
                let got = m.run("refuse", || format!("{t:?}"), || BigInt::from_str_radix(t, 10).is_err());
                m.check("refuse", got == Some(true), || format!("{t:?} in radix 10 was accepted"));
            }
            for t in ["-0", "-00000", "0", "000"] {
                let got = m.run("zero text", || format!("{t:?}"), || BigInt::from_str_radix(t, 10).map(|z| z.to_string()).ok());
                m.check("zero text", got == Some(Some("0".into())), || format!("{t:?} read back as {got:?}"));
            }
        }
        // Powers of ten and of other radixes, and their neighbours
        for i in 0..60u64 {
            if m.mine(i as usize) && m.go_until(50) {
                let p = Big::from_u128(10).pow(i);
                for v in [p.clone(), p.sub(&Big::one()), p.neg(), p.add(&Big::one()).neg()] {
                    format_all(m, r, &v);
                    parse(m, r, &v);
                }
            }
        }
        // Every number of digits, then the lengths around round ones
        for n in 1..=(if m.kind_slow() { 40 } else { 140 }) {
            if m.mine(n) && m.go_until(60) {
                exact_length(m, r, n);
            }
        }
        if m.profile == "release" {
            let round = [160, 192, 200, 250, 255, 256, 257, 300, 320, 383, 384, 385, 400, 448, 500, 511, 512, 513, 576, 600, 640, 768, 1000, 1023, 1024, 1025];
            for (i, n) in round.into_iter().enumerate() {
                if m.mine(i) && m.go_until(70) {
                    exact_length(m, r, n);
                }
            }
        }
        for v in -300i128..300 {
            if m.mine((v + 300) as usize) && m.go_until(60) {
                format_all(m, r, &Big::from_i128(v));
            }
        }
        while m.go() {
            let max = gen::reach(r, 5, 20, 36);
            let a = gen::big(r, &d, max);
            let a = match r.below(4) {
                // Many zero digits in the middle
                0 => Big::from_u128(10).pow(r.below(50) as u64).mul(&Big::from_limbs(r.bool(), &[gen::limb(r, &d)])).add(&Big::from_u128(r.below(1000) as u128)),
                _ => a,
            };
            format_all(m, r, &a);
            for _ in 0..3 {
                parse(m, r, &a);
            }
            if r.chance(1, 8) {
                let n = length(r, if m.kind_slow() { 300 } else { 3000 });
                exact_parse(m, r, n);
            }
            if r.chance(1, 60) && m.profile == "release" {
                let n = length(r, 700);
                exact_length(m, r, n);
            }
            m.sample(|| show(&a));
        }
    });
}
