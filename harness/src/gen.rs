//! Generators shared by the properties.
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

/// A label set, sorted by name; names are unique and there is at least one.
pub type Ls = Vec<(String, String)>;

const NAMES: &[&str] = &[
    "a", "b", "c", "job", "R", "Rx", "L", "I1", "I", "__name__", "le", "ab", "A", "_", "Ra", "R_1", "instance", "LR", "TS1", "a1",
];

pub fn plain_value() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(&["1", "2", "3", "x", "y", "up", "localhost:9090"][..]).prop_map(|s| s.to_string()),
        1 => "[a-z]{1,6}",
    ]
    .boxed()
}

/// Values that a textual encoding of label sets could trip over.
pub fn odd_value() -> BoxedStrategy<String> {
    prop_oneof![
        10 => select(
            &[
                "1", "2", "x", "1,b=2", "1,c=3", ",", "=", "==", "a=1", ",a=1", "\\", "\\\\", "\\,", "\\=", "1\\", "\\,b=2", "1\\,b=2", "1\\\\,b=2",
                ",,", "é", "日本", "\n", "\"", "'", " ", " 1", "1 ", "\u{0}", "R", "LRa=1", "I1", "x,", "=x", "1=1", "%2C", "&#44;", "\u{fffd}", "\u{202e}",
                "b=2", "1,", "{}", "/", "1,b", ",b=2", "\\n", "\\0", "\t", "a,b=c\\,d\\\\,e=f", "\u{1}", "\u{1f}", "\u{7f}", "1\u{0}b=2", "1;b=2", "1|b=2",
                "1\u{ff}",
            ][..]
        ).prop_map(|s| s.to_string()),
        2 => "[,=\\\\1ab]{1,8}",
        2 => proptest::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => ".{1,40}",
    ]
    .boxed()
}

/// The same without the empty value, which a read over HTTP takes for no label at all.
pub fn some_odd_value() -> BoxedStrategy<String> {
    odd_value().prop_map(|v| if v.is_empty() { "1".to_string() } else { v }).boxed()
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(&NAMES[..6]).prop_map(|s| s.to_string()),
        4 => select(NAMES).prop_map(|s| s.to_string()),
        1 => "[a-zA-Z_][a-zA-Z0-9_]{0,8}",
    ]
    .boxed()
}

pub fn label_set(value: BoxedStrategy<String>, max: usize) -> BoxedStrategy<Ls> {
    btree_map(name(), value, 1..=max).prop_map(|m| m.into_iter().collect()).boxed()
}

/// Label sets that share labels, contain one another and differ in single places.
pub fn universe(value: BoxedStrategy<String>, sets: std::ops::RangeInclusive<usize>, max_labels: usize) -> BoxedStrategy<Vec<Ls>> {
    related(value, sets, max_labels, 8)
}

/// The same, with sets that some way of writing label sets as text would take for one another.
pub fn odd_universe(value: BoxedStrategy<String>, sets: std::ops::RangeInclusive<usize>, max_labels: usize) -> BoxedStrategy<Vec<Ls>> {
    related(value, sets, max_labels, 13)
}

const BETWEEN: &[(&str, &str)] =
    &[(",", "="), (", ", "="), (";", "="), ("\u{0}", "\u{0}"), ("", ""), ("", "="), (" ", "="), ("|", "|"), ("\u{ff}", "\u{ff}"), ("\",", "=\""), ("\", ", "=\""), (",", ":"), ("\n", "="), ("&", "="), ("/", "/"), ("\u{1}", "\u{2}"), ("\u{1f}", "\u{1f}"), ("\u{1e}", "\u{1f}"), ("\u{1f}", "="), ("\t", "="), ("\t", "\t"), ("\u{fffd}", "\u{fffd}"), ("\u{10ffff}", "\u{10ffff}"), ("\u{2028}", "="), ("\r\n", ": "), ("::", ":"), ("#", "#"), ("$", "="), ("@", "="), ("~", "~"), ("{", "}"), ("\\", "\\")];

fn related(value: BoxedStrategy<String>, sets: std::ops::RangeInclusive<usize>, max_labels: usize, hows: u8) -> BoxedStrategy<Vec<Ls>> {
    let v2 = value.clone();
    vec((label_set(value.clone(), max_labels), any::<u16>(), any::<u16>(), 0u8..hows, label_set(v2, 2)), sets)
        .prop_map(|raw| {
            let mut out: Vec<Ls> = vec![];
            for (fresh, pick, at, how, extra) in raw {
                let mut ls = if out.is_empty() || how < 2 {
                    fresh
                } else {
                    let base = out[pick as usize % out.len()].clone();
                    let k = at as usize % base.len();
                    let mut b = base;
                    match how {
                        2 | 3 => {
                            // superset
                            for (n, v) in extra {
                                if !b.iter().any(|l| l.0 == n) {
                                    b.push((n, v));
                                }
                            }
                        }
                        4 | 5 => {
                            // another value for one label
                            b[k].1 = extra[0].1.clone();
                        }
                        6 => {
                            // subset
                            if b.len() > 1 {
                                b.remove(k);
                            }
                        }
                        8 | 9 => {
                            // a label and the next one become one label
                            let (before, between) = BETWEEN[if at & 3 < 2 { 0 } else { at as usize / 16 % BETWEEN.len() }];
                            if b.len() == 1 {
                                // of which the other half is made first
                                let n = extra[0].clone();
                                if b[0].0 != n.0 {
                                    b.push(n);
                                    b.sort();
                                    if !out.contains(&b) && out.len() < 15 {
                                        out.push(b.clone());
                                    }
                                }
                            }
                            if b.len() > 1 {
                                let k = k.min(b.len() - 2);
                                let next = b.remove(k + 1);
                                b[k].1 = format!("{}{}{}{}{}", b[k].1, before, next.0, between, next.1);
                            }
                        }
                        10 => {
                            // the end of a name becomes the beginning of its value
                            if b[k].0.len() > 1 {
                                let c = b[k].0.pop().unwrap();
                                if b.iter().filter(|l| l.0 == b[k].0).count() == 1 {
                                    b[k].1.insert(0, c);
                                } else {
                                    b[k].0.push(c);
                                }
                            }
                        }
                        11 => {
                            // the values of two labels change places
                            let j = (k + 1) % b.len();
                            let v = b[k].1.clone();
                            b[k].1 = b[j].1.clone();
                            b[j].1 = v;
                        }
                        12 => {
                            // a value grows by what may be taken off again
                            let more = ["\\", "\\,", ",", "=", " ", "\u{0}", "\"", "0", "\u{301}", "="][at as usize / 16 % 10];
                            b[k].1.push_str(more);
                        }
                        _ => {
                            // another name for one label
                            let n = extra[0].0.clone();
                            if !b.iter().any(|l| l.0 == n) {
                                b[k].0 = n;
                            }
                        }
                    }
                    b
                };
                ls.sort();
                if !out.contains(&ls) && out.len() < 16 {
                    out.push(ls);
                }
            }
            out
        })
        .boxed()
}

/// 64-bit patterns of floats.
pub fn value_bits() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => (0i32..2000).prop_map(|v| (v as f64 / 8.0).to_bits()),
        3 => any::<f64>().prop_map(|v| v.to_bits()),
        2 => any::<u64>(),
        2 => select(&SPECIAL[..]),
    ]
    .boxed()
}

pub const SPECIAL: &[u64] = &[
    0,
    0x8000_0000_0000_0000,
    0x7ff0_0000_0000_0000,
    0xfff0_0000_0000_0000,
    0x7ff8_0000_0000_0000,
    0x7ff0_0000_0000_0001,
    0xffff_ffff_ffff_ffff,
    0x7ff0_0000_0000_0002, // Prometheus staleness marker
    0x3ff0_0000_0000_0000,
    1,
    0x7fef_ffff_ffff_ffff,
    0x0010_0000_0000_0000,
    0x7fff_ffff_ffff_ffff,
];

/// A timestamp anchor: one of the interesting times of a history, and a small distance from it.
pub type Anchor = (u16, i8);

pub fn anchor() -> BoxedStrategy<Anchor> {
    (any::<u16>(), prop_oneof![4 => Just(0i8), 2 => Just(1i8), 2 => Just(-1i8), 1 => -5i8..=5]).boxed()
}

pub fn resolve(a: Anchor, times: &[u64]) -> u64 {
    if times.is_empty() {
        return 0;
    }
    // the first entries of `times` are the general ones; scale the pick over the whole list
    let t = times[(a.0 as usize * times.len()) >> 16];
    if a.1 >= 0 {
        t.saturating_add(a.1 as u64)
    } else {
        t.saturating_sub(a.1.unsigned_abs() as u64)
    }
}
