//! Symbols: a command or a character stands for the symbol which unicode-math says it does, and for an atom of its class.
use crate::*;
use symbols::{NAMES, RAW};
use xml::El;

const CHUNK: usize = 8;
const NJOBS: usize = NAMES.len().div_ceil(CHUNK);
const CLASSES: [u8; 7] = *b"orbplc?";
const RCHUNK: usize = 40;
const PLACES: usize = 6;

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    let all = 0..NJOBS + (RJOBS + 1) * PLACES;
    // As arguments, the quick tier has the characters without a class only.
    let raw = |k: &usize| (NJOBS..NJOBS + RJOBS * PLACES).contains(k) && (k - NJOBS) % PLACES > 3;
    let other = |k: &usize| *k >= NJOBS + RJOBS * PLACES && !matches!(k - NJOBS - RJOBS * PLACES, 0 | 2 | 5);
    all.filter(|k| tier > 0 || !raw(k) && !other(k)).map(|k| k as u32 + t).collect()
}

/// What is to be seen of a neighbour at the places 0 to 3 if the symbol between is of the class.
/// A plus sign is an ordinary symbol without space where a binary operator cannot be; an operator name keeps its distance
/// from ordinary symbols only.
fn expected(class: u8, place: usize) -> bool {
    match (class, place) {
        (b'r', _) => true,
        (b'p', 0) | (b'p', 3) | (b'b', 0) => true,
        (b'l', 0) | (b'l', 2) | (b'l', 3) => true,
        (b'c', 1) | (b'c', 2) => true,
        _ => false,
    }
}

fn find<'a, 'b>(e: &'b El<'a>, tag: &str, text: &str) -> Option<&'b El<'a>> {
    if e.tag == tag && e.text() == text {
        return Some(e);
    }
    for k in e.els() {
        if let Some(f) = find(k, tag, text) {
            return Some(f);
        }
    }
    None
}
/// How often the character is shown, apart from variation selectors.
fn shown(e: &El, c: u32) -> usize {
    let mut n = e.els().map(|k| shown(k, c)).sum();
    if matches!(e.tag, "mi" | "mo" | "mn" | "mtext") {
        let t = xml::unescape(e.text());
        let mut it = t.chars().filter(|c| !matches!(*c as u32, 0xfe00..=0xfe0f));
        if it.next().map(|x| x as u32) == Some(c) && it.next().is_none() {
            n += 1;
        }
    }
    n
}

/// The symbol `s` among others: what is shown and what that does to the neighbours.
fn look(s: &str, c: u32, class: u8, place: usize) {
    let mut tex = Buf::new();
    match place {
        0 => tex.s("x").s(s).s("+y"),
        1 => tex.s("x+").s(s).s("y"),
        2 => tex.s("x\\log ").s(s).s("y"),
        3 => tex.s(s).s("\\log y"),
        4 => tex.s("\\sqrt ").s(s).s("y"),
        _ => tex.s("x_").s(s).s("y"),
    };
    sx::show(tex.as_str());
    let conv = std();
    let out = match crate::conv(&conv, tex.as_str(), false) {
        Ok(o) => o,
        Err(_) => return sx::fail("a symbol is rejected"),
    };
    sx::note(&out);
    let root = match xml::parse(&out) {
        Ok(r) => r,
        Err(_) => return sx::fail("the result is not well-formed"),
    };
    // The neighbours are no symbols in question.
    if c != b'+' as u32 && shown(&root, c) != 1 + matches!((place, c), (0..=2 | 5, 0x78) | (_, 0x79)) as usize {
        return sx::fail("the symbol which is shown is not the one of the command or character");
    }
    if class != b'?' {
        let zero = |e: &El, a: &str| e.attr(a).is_some_and(|v| v == "0");
        let got = match place {
            0 | 1 => find(&root, "mo", "+").map(|e| zero(e, "lspace") && zero(e, "rspace")),
            2 => find(&root, "mo", "log").map(|e| zero(e, "rspace")),
            3 => find(&root, "mo", "log").map(|e| zero(e, "lspace")),
            _ => Some(false),
        };
        match got {
            None => return sx::fail("a neighbour of a symbol is lost"),
            Some(g) if place < 4 && g != expected(class, place) => return sx::fail("a symbol is not of its class to its neighbours"),
            _ => {}
        }
    }
    sx::cover(1);
}

pub fn run(k: u32) {
    let (_deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    if k < NJOBS {
        let n = CHUNK.min(NAMES.len() - k * CHUNK);
        let (name, c, class) = NAMES[k * CHUNK + sx::choose(n)];
        let place = sx::choose(PLACES + 1);
        let mut s = Buf::of("\\");
        s.s(name);
        if place < PLACES {
            s.s(" ");
            return look(s.as_str(), c, class, place);
        }
        // The name ends with its last letter, whatever follows.
        let f = sx::byte();
        let letter = (f | 32).wrapping_sub(b'a') < 26;
        let special = (f == b'\\') | (f == b'{') | (f == b'}') | (f == b'^') | (f == b'_') | (f == b'&') | (f == b'#') | (f == b'$') | (f == b'%') | (f == b'~') | (f == b'\'');
        sx::assume((f > b' ') & (f < 0x7f) & !special & !letter);
        let mut apart = Buf::of(s.as_str());
        s.b(f);
        apart.s(" ").b(f);
        sx::show(s.as_str());
        let conv = std();
        let (a, b) = (crate::conv(&conv, s.as_str(), false), crate::conv(&conv, apart.as_str(), false));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                sx::note(&a);
                sx::check(a == b, "a symbol depends on a space before what follows it");
                sx::cover(2);
            }
            _ => sx::fail("a symbol is rejected for what follows it"),
        }
    } else if k < NJOBS + RJOBS * PLACES {
        // One of the characters of a class.
        let (at, place) = ((k - NJOBS) / PLACES, (k - NJOBS) % PLACES);
        let (class, part) = part_of_class(at);
        let c = sx::any_char();
        let mut of_class = false;
        let (mut i, mut at) = (0, 0);
        while i < RAW.len() {
            let j = run_end(i, true);
            if RAW[i].1 == class {
                if at / RCHUNK == part {
                    of_class |= (c as u32).wrapping_sub(RAW[i].0) <= RAW[j].0 - RAW[i].0;
                }
                at += 1;
            }
            i = j + 1;
        }
        // A prime is a script of its own; it cannot be one's argument.
        let prime = matches!(c as u32, 0x2032..=0x2037 | 0x2057) & (place == 5);
        sx::assume(of_class & !prime);
        let mut s = Buf::new();
        s.c(c);
        look(s.as_str(), c as u32, class, place);
        sx::cover(3);
    } else {
        // All other characters are ordinary symbols.
        let place = k - NJOBS - RJOBS * PLACES;
        let c = sx::any_char();
        let mut other = (c as u32 > 0x7f) & !matches!(c as u32, 0xfe00..=0xfe0f);
        let mut i = 0;
        while i < RAW.len() {
            let j = run_end(i, false);
            other &= (c as u32).wrapping_sub(RAW[i].0) > RAW[j].0 - RAW[i].0;
            i = j + 1;
        }
        sx::assume(other);
        let mut s = Buf::new();
        s.c(c);
        look(s.as_str(), c as u32, b'o', place);
        sx::cover(4);
    }
}

/// The end of the run of successive characters (of the same class) from the entry `i` on.
const fn run_end(i: usize, same: bool) -> usize {
    let mut j = i;
    while j + 1 < RAW.len() && RAW[j + 1].0 == RAW[j].0 + 1 && (!same || RAW[j + 1].1 == RAW[i].1) {
        j += 1;
    }
    j
}
/// The characters of the classes in parts of equal size.
fn part_of_class(at: usize) -> (u8, usize) {
    let mut at = at;
    for (k, n) in PARTS.iter().enumerate() {
        if at < *n {
            return (CLASSES[k], at);
        }
        at -= n;
    }
    (b'?', 0)
}
const PARTS: [usize; CLASSES.len()] = {
    let mut n = [0; CLASSES.len()];
    let mut k = 0;
    while k < CLASSES.len() {
        let mut i = 0;
        while i < RAW.len() {
            if RAW[i].1 == CLASSES[k] {
                n[k] += 1;
            }
            i = run_end(i, true) + 1;
        }
        n[k] = (n[k] as usize).div_ceil(RCHUNK);
        k += 1;
    }
    n
};
const RJOBS: usize = {
    let (mut n, mut k) = (0, 0);
    while k < CLASSES.len() {
        n += PARTS[k];
        k += 1;
    }
    n
};
