//! C09: footprint library tables are read faithfully and survive a round trip.

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::fp_lib_table::*;

const BARE: &str = "!#$%&'*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~";

fn lib(t: &mut Texts) -> Lib {
    let (name, type_, uri, options, descr) = (t.text(), t.text(), t.text(), t.text(), t.text());
    Lib { name, type_, uri, options, descr }
}
fn same(a: &Lib, b: &Lib) {
    check!(a.name == b.name);
    check!(a.type_ == b.type_);
    check!(a.uri == b.uri);
    check!(a.options == b.options);
    check!(a.descr == b.descr);
}
fn same_table(a: &FpLibTable, b: &FpLibTable) {
    check!(a.libs.len() == b.libs.len());
    for (x, y) in a.libs.iter().zip(b.libs.iter()) { same(x, y); }
}
fn round_trip(t: &FpLibTable, indent: i64) {
    match to_string(t, indent) {
        Ok(s) => match parse(&s) {
            Ok(u) => { goal(1); same_table(t, &u); }
            Err(_) => check!("reading back" == "failed"),
        },
        Err(_) => check!("writing" == "failed"),
    }
}

// round trip of a library: one of its five texts symbolic with up to 4 characters, the others fixed
harness!(h_c09_round_trip, {
    expect(1);
    let mut t = Texts::one_of(5, if thorough() { 6 } else { 4 });
    let l = lib(&mut t);
    round_trip(&FpLibTable { libs: vec![l] }, 0);
});

// round trip of 0 to 3 libraries (4 in the thorough tier), one text of one of them symbolic with up to 2 characters; three indent levels for fewer than 2
harness!(h_c09_many, {
    expect(1);
    let n = pick(if thorough() { 5 } else { 4 });
    let which = if n == 0 { 0 } else { pick(n) };
    let mut libs = vec![];
    for i in 0..n {
        let mut t = if i == which { Texts::one_of(5, 2) } else { Texts::none() };
        if i != which { t.next = i; }
        libs.push(lib(&mut t));
    }
    let indent = if n < 2 { pick(3) } else { 1 };
    round_trip(&FpLibTable { libs }, indent as i64);
});

// round trip of two libraries that share a text and differ in another
harness!(h_c09_twins, {
    expect(1);
    let s = string(TEXT_TAB, 0, 2);
    let a = Lib { name: s.clone(), type_: s.clone(), uri: s.clone(), options: s.clone(), descr: s.clone() };
    let mut b = a.clone();
    match pick(5) { 0 => b.name = "x".into(), 1 => b.type_ = "x".into(), 2 => b.uri = "x".into(), 3 => b.options = "x".into(), _ => b.descr = "x".into() }
    round_trip(&FpLibTable { libs: vec![a, b] }, 0);
});

fn text_word(quoted: bool) -> (String, String) {
    if quoted {
        let s = string(TEXT_TAB, 0, 3);
        let q = format!("\"{}\"", s);
        (s, q)
    } else {
        let s = string(BARE, 1, 3);
        (s.clone(), s)
    }
}

// reading: two libraries, one attribute symbolic (bare word of 1 to 3 characters or quoted text of up to 3), two layouts of white space
harness!(h_c09_read, {
    expect(1);
    let (which, slot, quoted) = (pick(2), pick(5), boolean());
    let (s, q) = text_word(quoted);
    let fixed = [["A1", "KiCad", "${KISYSMOD}/A.pretty", "", "first lib"], ["B", "Github", "https://x/B", "o=1", ""]];
    let sep = ["", " ", "\n    "][pick(3)];
    let mut text = String::from("(fp_lib_table\n");
    for i in 0..2 {
        text.push_str("  (lib ");
        for (j, a) in ["name", "type", "uri", "options", "descr"].iter().enumerate() {
            let v = if i == which && j == slot { q.clone() } else { format!("\"{}\"", fixed[i][j]) };
            text.push_str(&format!("({} {}){}", a, v, sep));
        }
        text.push_str(")\n");
    }
    text.push_str(")\n");
    match parse(&text) {
        Ok(t) => {
            goal(1);
            check!(t.libs.len() == 2);
            for i in 0..2 {
                let want = |j: usize| if i == which && j == slot { s.as_str() } else { fixed[i][j] };
                let l = &t.libs[i];
                check!(l.name == want(0));
                check!(l.type_ == want(1));
                check!(l.uri == want(2));
                check!(l.options == want(3));
                check!(l.descr == want(4));
            }
        }
        Err(_) => check!("reading" == "failed"),
    }
});

// reading: a library with an attribute missing or one of another name is refused or read without putting a value under a wrong name
harness!(h_c09_refused, {
    expect(1);
    let attrs = ["name", "type", "uri", "options", "descr"];
    let (slot, how) = (pick(5), pick(2));
    let mut text = String::from("(fp_lib_table (lib ");
    for (j, a) in attrs.iter().enumerate() {
        if j == slot && how == 0 { continue; }
        if j == slot {
            let w = string(BARE, 1, 2);
            text.push_str(&format!("({} v{})", w, j));
        } else {
            text.push_str(&format!("({} v{})", a, j));
        }
    }
    text.push_str("))");
    let r = parse(&text);
    goal(1);
    if let Ok(t) = r {
        check!(t.libs.len() == 1);
        for l in &t.libs {
            for (j, v) in [&l.name, &l.type_, &l.uri, &l.options, &l.descr].iter().enumerate() {
                if j == slot { check!(!v.starts_with('v')); } else { check!(**v == format!("v{}", j)); }
            }
        }
    }
});

// tables of 5, 9, 17 or 33 libraries
harness!(h_c09_long, {
    expect(1);
    let n = if thorough() { length() } else { [5, 9, 17, 33][pick(4)] };
    let k = pick(n);
    let libs = (0..n).map(|i| Lib { name: word(i), type_: "KiCad".into(), uri: format!("${{X}}/{}.pretty", i), options: if i % 3 == 1 { word(i) } else { String::new() }, descr: if i == k { string(TEXT_TAB, 0, 1) } else { format!("d {}", i) } }).collect();
    round_trip(&FpLibTable { libs }, 0);
});

// texts of 20, 70 or 300 characters
harness!(h_c09_long_texts, {
    expect(1);
    let k = pick(5);
    let s = long_text([20, 70, 300][pick(3)]);
    let t = |i: usize| if i == k { s.clone() } else { "x".to_string() };
    let l = Lib { name: t(0), type_: t(1), uri: t(2), options: t(3), descr: t(4) };
    round_trip(&FpLibTable { libs: vec![l.clone(), l] }, 0);
});

// every text of three libraries at once: in turn any word of 1 to 14 characters and any text with a
// parenthesis or blank behind up to 5 characters and up to 9 behind it; written and read back, and read
// with the words quoted or bare
harness!(h_c09_all_texts, {
    expect(1);
    let (t, q) = sym_texts(pick(ROUNDS), 15, boolean());
    let lib = |i: usize| Lib { name: t[5 * i].clone(), type_: t[5 * i + 1].clone(), uri: t[5 * i + 2].clone(), options: t[5 * i + 3].clone(), descr: t[5 * i + 4].clone() };
    let table = FpLibTable { libs: (0..3).map(lib).collect() };
    round_trip(&table, 0);
    let mut s = String::from("(fp_lib_table\n");
    for i in 0..3 { s.push_str(&format!("  (lib (name {})(type {})(uri {})(options {})(descr {}))\n", q[5 * i], q[5 * i + 1], q[5 * i + 2], q[5 * i + 3], q[5 * i + 4])); }
    s.push_str(")\n");
    match parse(&s) { Ok(u) => same_table(&table, &u), Err(_) => check!("reading" == "failed") }
});
