//! Booleans about the entry state, and which combinations of them exist.
pub const NK: u16 = 28;
pub const MAXE: u16 = 4;

/// (positive literals, negative literals)
pub type Clause = (u128, u128);

pub fn bit(f: u16) -> u128 {
    1u128 << f
}

pub fn k(w: u8) -> u16 { w as u16 }
pub fn a(w: u8) -> u16 { 2 + w as u16 }
pub fn d(w: u8) -> u16 { 4 + w as u16 }
pub fn l(w: u8) -> u16 { 6 + w as u16 }
/// An entry for dependents / dependencies
pub fn t(w: u8) -> u16 { 8 + w as u16 }
pub fn c(w: u8) -> u16 { 10 + w as u16 }
/// The dependents of w contain the other witness
pub fn e(w: u8) -> u16 { 12 + w as u16 }
pub fn dto(w: u8, cl: u8) -> u16 { 14 + 3 * w as u16 + cl as u16 }
pub fn dco(w: u8, cl: u8) -> u16 { 20 + 3 * w as u16 + cl as u16 }
pub fn al(w: u8) -> u16 { 26 + w as u16 }

pub fn name(f: u16) -> String {
    let n = match f % NK {
        x @ 0..=1 => format!("w{} is known", x + 1),
        x @ 2..=3 => format!("artifact of w{} stored", x - 1),
        x @ 4..=5 => format!("dynamic state of w{} stored", x - 3),
        x @ 6..=7 => format!("w{} is in the leaf set", x - 5),
        x @ 8..=9 => format!("w{} has a dependents entry", x - 7),
        x @ 10..=11 => format!("w{} has a dependencies entry", x - 9),
        12 => "w2 depends on w1".into(),
        13 => "w1 depends on w2".into(),
        x @ 14..=19 => format!("another builder (class {}) depends on w{}", (x - 14) % 3, (x - 14) / 3 + 1),
        x @ 20..=25 => format!("w{} depends on another builder (class {})", (x - 20) / 3 + 1, (x - 20) % 3),
        x => format!("w{} is referenced from outside", x - 25),
    };
    if f >= NK { format!("{} (after user code {})", n, f / NK) } else { n }
}

/// Adds what follows directly.
pub fn propagate(known: &mut u128, vals: &mut u128, cl: &[Clause]) {
    loop {
        let mut ch = false;
        for (p, n) in cl {
            if (p & *known & *vals) != 0 || (n & *known & !*vals) != 0 { continue }
            let rest = (p | n) & !*known;
            if rest.count_ones() == 1 {
                *known |= rest;
                if p & rest != 0 { *vals |= rest }
                ch = true;
            }
        }
        if !ch { return }
    }
}

pub fn sat(mut known: u128, mut vals: u128, cl: &[Clause]) -> bool {
    loop {
        let mut ch = false;
        let mut split = None;
        for (p, n) in cl {
            if (p & known & vals) != 0 || (n & known & !vals) != 0 { continue }
            let rest = (p | n) & !known;
            match rest.count_ones() {
                0 => return false,
                1 => {
                    known |= rest;
                    if p & rest != 0 { vals |= rest }
                    ch = true;
                }
                _ => split = Some(rest & rest.wrapping_neg()),
            }
        }
        if ch { continue }
        return match split {
            None => true,
            Some(b) => sat(known | b, vals | b, cl) || sat(known | b, vals & !b, cl),
        };
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum T {
    F,
    True,
    /// fact
    Lit(u16),
    /// Not determined
    Free,
}

/// Whether all the terms can have the given truth values together.
pub fn sat_terms(mut known: u128, mut vals: u128, cl: &[Clause], conds: &[(T, bool)]) -> bool {
    for (t, b) in conds {
        match t {
            T::F => if *b { return false },
            T::True => if !*b { return false },
            T::Free => {}
            T::Lit(f) => {
                let m = bit(*f);
                if known & m != 0 {
                    if (vals & m != 0) != *b { return false }
                } else {
                    known |= m;
                    if *b { vals |= m }
                }
            }
        }
    }
    sat(known, vals, cl)
}
