//! C28: the naming rule and the reporting of findings.

use crate::sym::*;
use crate::{check, harness};
use kicad_parse_gen::checkfix::*;

fn good(b: u8) -> bool { (b >= b'A' && b <= b'Z') || (b >= b'a' && b <= b'z') || (b >= b'0' && b <= b'9') || b == b'_' || b == b'-' || b == b'.' }

/// the findings about a name that has the given number of characters that are not permitted
fn judged(s: &str, bad: usize) {
    check!(is_allowed_1_7(s) == (bad == 0));
    let v = allowed_1_7_items(s);
    check!(v.len() == bad);
    for d in &v {
        match *d {
            CheckFixData::Item(ref i) => {
                check!(i.section == 1);
                check!(i.rule == 7);
                check!(!i.info);
                check!(i.item.as_bytes() == s.as_bytes());
            }
            CheckFixData::More(_) => check!("a finding" == "a list"),
        }
    }
    goal(1);
    if bad == 0 { goal(2) } else { goal(3) }
}
fn bad(b: &[u8]) -> usize { let mut n = 0; for x in b { if !good(*x) { n += 1; } } n }

// every single character of ASCII, and names of none
harness!(h_c28_one, {
    expect(3);
    let n = pick(2);
    let mut s = String::new();
    if n == 1 { s.push(byte_range(0, 127) as char); }
    judged(&s, bad(s.as_bytes()));
});

// any character of ASCII at one place of a name and any (quick tier: one of 7) at another, next to others
harness!(h_c28_two, {
    expect(3);
    let mut s = String::from(["", "R", "a/b"][pick(3)]);
    s.push(byte_range(0, 127) as char);
    s.push_str(["", "_x-1.", " "][pick(if thorough() { 3 } else { 2 })]);
    s.push(if thorough() { byte_range(0, 127) } else { byte("/ ~aZ_.") } as char);
    judged(&s, bad(s.as_bytes()));
});

// a character outside ASCII of two, three or four bytes counts once
harness!(h_c28_wide, {
    expect(1);
    let mut v = b"a".to_vec();
    match pick(3) {
        0 => { v.push(0xc3); v.push(byte_range(0x80, 0xbf)); }
        1 => { v.push(0xe2); v.push(0x82); v.push(byte_range(0x80, 0xbf)); }
        _ => { v.extend_from_slice(&[0xf0, 0x9f, 0x98]); v.push(byte_range(0x80, 0xbf)); }
    }
    v.push(byte_range(32, 126));
    let n = if good(*v.last().unwrap()) { 1 } else { 2 };
    let s = String::from_utf8(v).unwrap();
    judged(&s, n);
});

// long names with one character that may be anything
harness!(h_c28_long, {
    expect(3);
    let n = [8, 16, 33, 64][pick(4)];
    let mut s = String::new();
    let k = pick(3) * (n - 1) / 2;
    for i in 0..n { s.push(if i == k { byte_range(32, 126) as char } else { (b'a' + (i % 26) as u8) as char }); }
    judged(&s, bad(s.as_bytes()));
});

fn item(i: i64, info: bool) -> CheckFixData { if info { CheckFixData::info(i, i + 1, "part", format!("m{}", i)) } else { CheckFixData::new(i, i + 1, "part", format!("m{}", i)) } }
fn flat(d: &CheckFixData, v: &mut Vec<(i64, i64, bool, String, String)>) {
    match *d {
        CheckFixData::Item(ref i) => v.push((i.section, i.rule, i.info, i.item.clone(), i.message.clone())),
        CheckFixData::More(ref m) => for x in m { flat(x, v); },
    }
}
/// a tree of findings of some shape
fn tree(shape: usize, info: bool) -> CheckFixData {
    let it = |i| item(i, info);
    match shape {
        0 => it(1),
        1 => CheckFixData::More(vec![]),
        2 => CheckFixData::More(vec![it(1)]),
        3 => CheckFixData::More(vec![it(1), it(2)]),
        4 => CheckFixData::More(vec![CheckFixData::More(vec![it(1)])]),
        5 => CheckFixData::More(vec![CheckFixData::More(vec![it(1), it(2)])]),
        6 => CheckFixData::More(vec![CheckFixData::More(vec![]), it(1)]),
        7 => CheckFixData::More(vec![it(1), CheckFixData::More(vec![it(2), item(3, true), CheckFixData::More(vec![it(4)])]), it(5)]),
        _ => CheckFixData::More(vec![it(1), it(2), it(3), it(4), it(5)]),
    }
}

// a finding carries the section, rule, part and message it was made with
harness!(h_c28_item, {
    expect(1);
    let (s, r) = (int(i64::MIN, i64::MAX), int(i64::MIN, i64::MAX));
    let m = string(crate::gen::TEXT_TAB, 0, 3);
    let info = pick(2) == 1;
    let d = if info { CheckFixData::info(s, r, m.clone(), "msg") } else { CheckFixData::new(s, r, "part", m.clone()) };
    match d {
        CheckFixData::Item(i) => {
            check!(i.section == s);
            check!(i.rule == r);
            check!(i.info == info);
            if info { check!(i.item.as_bytes() == m.as_bytes()); check!(i.message == "msg"); } else { check!(i.item == "part"); check!(i.message.as_bytes() == m.as_bytes()); }
        }
        CheckFixData::More(_) => check!("a finding" == "a list"),
    }
    goal(1);
});

// simplifying a tree of findings keeps all of them in order; a list of one becomes that one
harness!(h_c28_flatter, {
    expect(1);
    let t = tree(pick(9), boolean());
    let mut want = vec![];
    flat(&t, &mut want);
    let one = match t { CheckFixData::More(ref v) => v.len() == 1, _ => false };
    let inner = match t { CheckFixData::More(ref v) if v.len() == 1 => match v[0] { CheckFixData::Item(_) => true, _ => false }, CheckFixData::Item(_) => true, _ => false };
    let f = t.flatter();
    let mut got = vec![];
    flat(&f, &mut got);
    check!(want == got);
    if one || inner { match f { CheckFixData::Item(_) => check!(inner), CheckFixData::More(_) => check!(!inner) } }
    goal(1);
});

struct Lines;
static LINES: Lines = Lines;
static mut SEEN: Vec<(bool, String)> = vec![];
impl log::Log for Lines {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        let t = format!("{}", r.args());
        // findings that are no mere information are warnings
        let loud = r.level() <= log::Level::Warn;
        unsafe { (*std::ptr::addr_of_mut!(SEEN)).push((loud, t)); }
    }
    fn flush(&self) {}
}

// reporting a tree of findings: one line per finding, in order, as loud as the finding, naming its rule, part and message
harness!(h_c28_report, {
    expect(1);
    let _ = log::set_logger(&LINES);
    log::set_max_level(log::LevelFilter::Trace);
    unsafe { (*std::ptr::addr_of_mut!(SEEN)).clear(); }
    let t = tree(pick(9), boolean());
    let mut want = vec![];
    flat(&t, &mut want);
    t.dump_on_logger(pick(3));
    let seen = unsafe { (*std::ptr::addr_of!(SEEN)).clone() };
    check!(seen.len() == want.len());
    for (w, s) in want.iter().zip(seen.iter()) {
        check!(s.0 == !w.2);
        check!(s.1.contains(&format!("{}.{}", w.0, w.1)));
        check!(s.1.contains(&w.3));
        check!(s.1.contains(&w.4));
    }
    goal(1);
});

// names of 8, 16, 33 or 64 characters, all or every second of which is one character that may be anything
harness!(h_c28_many, {
    expect(3);
    let n = [8, 16, 33, 64][pick(4)];
    let c = byte_range(32, 126);
    let step = 1 + pick(2);
    let mut s = String::new();
    let mut k = 0;
    for i in 0..n { if i % step == 0 { s.push(c as char); k += 1; } else { s.push('a'); } }
    judged(&s, if good(c) { 0 } else { k });
});

/// 5, 9, 17, 33 or 67 findings in one list, in lists of one each, or in lists as deep
fn many() -> CheckFixData {
    let n = crate::gen::length();
    let info = boolean();
    match pick(3) {
        0 => CheckFixData::More((0..n).map(|i| item(i as i64, (i % 2 == 0) == info)).collect()),
        1 => CheckFixData::More((0..n).map(|i| CheckFixData::More(vec![item(i as i64, (i % 3 == 0) == info)])).collect()),
        _ => { let mut d = CheckFixData::More(vec![item(0, info)]); for i in 1..n { d = CheckFixData::More(vec![item(i as i64, info), d]); } d }
    }
}

// 5, 9, 17, 33 or 67 findings simplified and reported: all of them, in order
harness!(h_c28_report_many, {
    expect(1);
    let _ = log::set_logger(&LINES);
    log::set_max_level(log::LevelFilter::Trace);
    unsafe { (*std::ptr::addr_of_mut!(SEEN)).clear(); }
    let mut t = many();
    let mut want = vec![];
    flat(&t, &mut want);
    if boolean() {
        t = t.flatter();
        let mut got = vec![];
        flat(&t, &mut got);
        check!(want == got);
    }
    t.dump_on_logger(0);
    let seen = unsafe { (*std::ptr::addr_of!(SEEN)).clone() };
    check!(seen.len() == want.len());
    for (w, s) in want.iter().zip(seen.iter()) {
        check!(s.0 == !w.2);
        check!(s.1.contains(&format!("{}.{}", w.0, w.1)));
        check!(s.1.contains(&w.3));
        check!(s.1.contains(&w.4));
    }
    goal(1);
});

/// the numbers in a text
fn numbers(s: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut n = None;
    for b in s.bytes() {
        if b >= b'0' && b <= b'9' { n = Some(n.unwrap_or(0) * 10 + (b - b'0') as usize); } else if let Some(x) = n.take() { v.push(x); }
    }
    if let Some(x) = n { v.push(x); }
    v
}

// findings come in the order of the characters, each with the character and its place in the name counted in characters (names without digits, with characters of one to four bytes)
harness!(h_c28_place, {
    expect(1);
    let mut name: Vec<char> = "abc_defghijklm-nop".chars().collect();
    name.truncate([2, 4, 12, 18][pick(4)]);
    let n = name.len();
    let k = pick(n);
    name[k] = ['/', '\u{e9}', '\u{20ac}', '\u{1f600}'][pick(4)];
    let j = [0, n / 2, n - 1][pick(3)];
    if j != k { name[j] = byte("/ :~@") as char; }
    let s: String = name.iter().cloned().collect();
    let mut want = vec![];
    for (i, c) in name.iter().enumerate() { if i == k || i == j { want.push((i, *c)); } }
    let v = allowed_1_7_items(&s);
    check!(v.len() == want.len());
    for (d, w) in v.iter().zip(want.iter()) {
        match *d {
            CheckFixData::Item(ref i) => {
                check!(numbers(&i.message).contains(&w.0));
                // the message without the name still has the character
                let rest = i.message.replace(s.as_str(), "");
                check!(rest.contains(w.1));
            }
            CheckFixData::More(_) => check!("a finding" == "a list"),
        }
    }
    goal(1);
});

// the sections are numbered from 1 to 10
harness!(h_c28_sections, {
    expect(1);
    let k = pick(10);
    let s = match k {
        0 => KLCSection::General,
        1 => KLCSection::SymbolLibraryNames,
        2 => KLCSection::SymbolNames,
        3 => KLCSection::SymbolRules,
        4 => KLCSection::FootprintLibraryNames,
        5 => KLCSection::FootprintNames,
        6 => KLCSection::FootprintRules,
        7 => KLCSection::SMDRules,
        8 => KLCSection::THTRules,
        _ => KLCSection::FootprintProperties,
    };
    let n: i64 = s.into();
    check!(n == k as i64 + 1);
    goal(1);
});
