//! Text strategies.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// What the event-id grammar allows in a <text>.
pub fn allowed(c: char) -> bool {
    !(c.is_ascii() && (c as u32) < 0x20 || c as u32 == 0x7F) || matches!(c, '\t' | '\n' | '\x0B' | '\x0C' | '\r')
}

pub fn conforming(s: &str) -> bool {
    !s.is_empty() && s.chars().all(allowed)
}

fn fix(c: char) -> char {
    // (The vertical tab is allowed, too, but the released decoder for v8 files refuses it.)
    if allowed(c) && c != '\x0B' {
        c
    } else {
        // keep the distribution wide: map controls to something rare
        char::from_u32(0x100 + c as u32).unwrap()
    }
}

/// Texts that look like syntax of something.
pub const LOOKALIKES: &[&str] = &[
    "foo (bar)", "a::b::{closure#0}", "(x)", "[x]", "x #1", "a->b", "--x", "-x", "x=y", "\"x\"", "'x'", "//x", "%d", "%s%n", "{}", "{0}", "$x", "null",
    "true", "NaN", "0", "-1", "1e5", "007", "x.y", "a/b", "..", "~", "*", "x[0]", "<a as b>::c", "&amp;", "<b>", "a, b", "x: y", "#", "@x", "x(", "x)",
    "rustc", "all", "arg0", "Totals", "\\n", "\\u0041", "\\", "x\\", "all;", "a;b", "foo (bar) (baz)", "total", "Query", "?", "a b c", "x 1x",
];

/// Characters that some treat as nothing, as blanks, as ends of lines, or as more than one.
pub const SPECIAL: &[char] = &[
    '\u{FEFF}', '\u{200B}', '\u{200C}', '\u{200D}', '\u{2060}', '\u{AD}', '\u{85}', '\u{A0}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{2003}', '\u{1680}',
    '\u{301}', '\u{202E}', '\u{200F}', '\u{FE0F}', '\u{1F600}', '\u{FFFE}', '\u{FDD0}', '\u{E0001}', '\u{130}', '\u{DF}', '\u{1F1E6}', '\u{D7FF}', '\u{FF1B}', ' ', '\t',
];

/// Any conforming text, biased to boundaries of the encoding.
pub fn grammar_text() -> BoxedStrategy<String> {
    prop_oneof![
        60 => "[a-zA-Z_][a-zA-Z0-9_:<>]{0,12}",
        30 => proptest::collection::vec(any::<char>().prop_map(fix), 1..12).prop_map(|v| v.into_iter().collect()),
        20 => proptest::collection::vec(prop_oneof![
                Just(' '), Just('\t'), Just('\n'), Just('\r'), Just('\x0C'), Just('a'), Just(';'), Just('"'), Just('\\'), Just('\''),
                Just('\u{80}'), Just('\u{9f}'), Just('\u{a0}'), Just('\u{ff}'), Just('\u{fe}'), Just('\u{7ff}'), Just('\u{800}'), Just('\u{ffff}'),
                Just('\u{10000}'), Just('\u{10ffff}'), Just('\u{e000}'), Just('\u{fffd}'), Just('!'), Just('~'), Just('{'), Just(',')], 1..8)
             .prop_map(|v| v.into_iter().collect()),
        10 => proptest::collection::vec(prop_oneof![2 => proptest::sample::select(SPECIAL), 1 => Just('x')], 1..4).prop_map(|v| v.into_iter().collect()),
        10 => prop_oneof![Just("<unknown>".to_string()), Just("<parse error>".to_string()), Just("<invalid>".to_string()),
                Just("Query".to_string()), Just("rustc".to_string()), Just("a".to_string()), Just("\u{e9}\u{e9}".to_string())],
        12 => proptest::sample::select(LOOKALIKES).prop_map(str::to_string),
        10 => (20usize..400, any::<char>()).prop_map(|(n, c)| std::iter::repeat(fix(c)).take(n).collect()),
        1 => (1000usize..9000, "[a-z]{1,9}").prop_map(|(n, c)| c.chars().cycle().take(n).collect()),
    ]
    .boxed()
}

/// Any text at all, conforming or not, possibly empty.
pub fn any_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => grammar_text(),
        1 => Just(String::new()),
        2 => proptest::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect()),
        2 => proptest::collection::vec(prop_oneof![
                (0u8..0x21).prop_map(|b| b as char), Just('\x7f'), Just('\x1e'), Just('\x1e'), Just('x'), Just('\u{80}'), Just('\u{ff}'), Just('\x11'), Just('\x1f'), Just('\x1d')], 0..8)
             .prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

/// Text for line and table oriented tools: no line breaks, no edge blanks.
pub fn table_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z_][a-zA-Z0-9_:<>]{0,14}",
        2 => "[a-z][a-z0-9 _.,()-]{0,10}[a-z]",
        1 => "[a-zàéößλ中あ_]{1,6}",
        1 => Just("a".to_string()),
        1 => prop_oneof![Just("|"), Just("a|b"), Just("||x"), Just("x | 1 |"), Just("x |")].prop_map(str::to_string),
        1 => ("[a-z]{1,3}", proptest::sample::select(SPECIAL.iter().filter(|c| !"\t\u{85}\u{2028}\u{2029}".contains(**c)).copied().collect::<Vec<_>>()), "[a-z]{1,3}").prop_map(|(a, c, b)| format!("{a}{c}{b}")),
        1 => (prop_oneof![5 => 60usize..300, 1 => 300usize..3000], "[a-z]{1,9}").prop_map(|(n, c)| c.chars().cycle().take(n).collect()),
        2 => proptest::sample::select(LOOKALIKES.iter().filter(|s| !s.contains(';')).copied().collect::<Vec<_>>()).prop_map(str::to_string),
    ]
    .boxed()
}

/// Is it such a text?
pub fn table_safe(s: &str) -> bool {
    !s.is_empty() && s.trim() == s && !s.chars().any(|c| matches!(c, '\t' | '\n' | '\x0B' | '\x0C' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}'))
}

/// 64-bit values biased to the given boundaries and to powers of two.
pub fn boundary_u64(bounds: &'static [u64]) -> BoxedStrategy<u64> {
    prop_oneof![
        3 => (proptest::sample::select(bounds), -3i64..=3).prop_map(|(b, d)| b.wrapping_add(d as u64)),
        3 => (0u32..64, -2i64..=2).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
        2 => any::<u64>(),
        2 => 0u64..1000,
    ]
    .boxed()
}
