//! C23: references sort by letter, then by number.

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::reference_ord;

const LETTERS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
const DIGITS: &str = "0123456789";

/// a reference of a letter and up to `n` digits, with its number
fn reference(n: usize) -> (String, i64) {
    let c = byte(LETTERS);
    let mut v = vec![c];
    let mut k = 0i64;
    for _ in 0..n { let d = byte(DIGITS); v.push(d); k = k * 10 + (d - b'0') as i64; }
    (String::from_utf8(v).unwrap(), k)
}

// two references of a letter and up to 4 digits each compare by letter, then by number
harness!(h_c23_two, {
    expect(3);
    let n = if thorough() { 6 } else { 4 };
    let (a, x) = reference(pick(n + 1));
    let (b, y) = reference(pick(n + 1));
    let (ca, cb) = (a.as_bytes()[0], b.as_bytes()[0]);
    let (p, q) = (reference_ord(&a), reference_ord(&b));
    if ca != cb { goal(1); check!((p < q) == (ca < cb)); check!(p != q); }
    else if x != y { goal(2); check!((p < q) == (x < y)); check!(p != q); }
    else { goal(3); check!(p == q); }
});

// references with up to 3 letters before the number: letter and number are those of the reference
harness!(h_c23_parts, {
    expect(1);
    let mut s = string(LETTERS, 1, 3);
    let c = s.as_bytes()[0];
    let mut k = 0i64;
    for _ in 0..pick(6) { let d = byte(DIGITS); s.push(d as char); k = k * 10 + (d - b'0') as i64; }
    let (l, n) = reference_ord(&s);
    goal(1);
    check!(l == c as char);
    check!(n == k);
});

// lists of references: what follows the first comma does not count, up to 4 characters
harness!(h_c23_list, {
    expect(1);
    let (a, _) = reference(pick(4));
    let mut b = a.clone();
    b.push(',');
    b.push_str(&string(TEXT, 0, 4));
    goal(1);
    check!(reference_ord(&a) == reference_ord(&b));
});

// any text of up to 5 characters, the empty one included, has an order
harness!(h_c23_any, {
    expect(2);
    let s = string(TEXT_TAB, 0, 5);
    let (c, n) = reference_ord(&s);
    check!(n >= 0);
    if s.is_empty() { goal(1); check!(n == 0); } else { goal(2); check!(c == s.as_bytes()[0] as char); }
});

// numbers of up to 18 digits
harness!(h_c23_digits, {
    expect(1);
    let n = [17, 18][pick(2)];
    let (a, k) = reference(n);
    goal(1);
    check!(reference_ord(&a).1 == k);
});

// a sorted list of 3 references is in the order of letter and number
harness!(h_c23_sort, {
    expect(1);
    let mut v = vec![reference(pick(3)), reference(pick(3)), reference(2)];
    v.sort_by(|a, b| reference_ord(&a.0).cmp(&reference_ord(&b.0)));
    goal(1);
    for i in 0..2 {
        let (a, b) = (v[i].0.as_bytes()[0], v[i + 1].0.as_bytes()[0]);
        check!(a < b || (a == b && v[i].1 <= v[i + 1].1));
    }
});

// 8, 16 or 33 letters before the number, lists of as many references, and as many zeros in front of the number
harness!(h_c23_long, {
    expect(1);
    let n = [8, 16, 33][pick(3)];
    let c = byte(LETTERS);
    let mut s = String::new();
    s.push(c as char);
    let d = byte(DIGITS);
    let k = (d - b'0') as i64;
    match pick(3) {
        0 => { for i in 0..n { s.push((b'a' + (i % 26) as u8) as char); } s.push(d as char); }
        1 => { s.push(d as char); for i in 0..n { s.push_str(&format!(",Q{}", i)); } }
        _ => { for _ in 0..n { s.push('0'); } s.push(d as char); }
    }
    let (l, m) = reference_ord(&s);
    goal(1);
    check!(l == c as char);
    check!(m == k);
});

// a sorted list of 5, 9, 17 or 33 references, one of which is any of one letter and up to 2 digits, is in the order of letter and number
harness!(h_c23_sort_long, {
    expect(1);
    let n = if thorough() { length() } else { [5, 9, 17, 33][pick(4)] };
    let mut v = vec![];
    for i in 0..n {
        if i == n / 2 { v.push(reference(pick(3))); }
        else { let (c, k) = (b'A' + (i % 3) as u8, (i * 37 % 120) as i64); v.push((format!("{}{}", c as char, k), k)); }
    }
    v.sort_by(|a, b| reference_ord(&a.0).cmp(&reference_ord(&b.0)));
    goal(1);
    for i in 0..n - 1 {
        let (a, b) = (v[i].0.as_bytes()[0], v[i + 1].0.as_bytes()[0]);
        check!(a < b || (a == b && v[i].1 <= v[i + 1].1));
    }
});
