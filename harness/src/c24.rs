//! C24: unnamed nets are recognised and renamed consistently.

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::layout::NetName;

/// what may stand for a reference or a pad
const PART: &str = " !#$%&'*+,./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~";

/// independent reading of the form `Net-(reference-pad)`
fn parts(s: &str) -> Option<(String, String)> {
    let b = s.as_bytes();
    let p = b"Net-(";
    if b.len() < p.len() + 2 { return None; }
    for i in 0..p.len() { if b[i] != p[i] { return None; } }
    if b[b.len() - 1] != b')' { return None; }
    let inner = &b[p.len()..b.len() - 1];
    let mut dash = None;
    for i in 0..inner.len() {
        if inner[i] == b'(' || inner[i] == b')' { return None; }
        if inner[i] == b'-' { if dash.is_some() { return None; } dash = Some(i); }
    }
    let d = dash?;
    let t = |x: &[u8]| unsafe { String::from_utf8_unchecked(x.to_vec()) };
    Some((t(&inner[..d]), t(&inner[d + 1..])))
}
fn same(a: &Option<(String, String)>, b: &Option<(String, String)>) {
    check!(a.is_some() == b.is_some());
    if let (&Some(ref x), &Some(ref y)) = (a, b) { check!(x.0 == y.0); check!(x.1 == y.1); }
}

// names made of a reference and a pad of up to 3 characters each are recognised with both parts
harness!(h_c24_made, {
    expect(1);
    let r = string(PART, 0, 3);
    let p = string(PART, 0, 3);
    let n: NetName = format!("Net-({}-{})", r, p).into();
    goal(1);
    same(&n.is_unnamed_net(), &Some((r, p)));
});

// any text of up to 6 characters after `Net-(`
harness!(h_c24_after_prefix, {
    expect(2);
    let s = format!("Net-({}", string("-()a1", 0, if thorough() { 7 } else { 6 }));
    let n: NetName = s.clone().into();
    let w = parts(&s);
    goal(if w.is_some() { 1 } else { 2 });
    same(&n.is_unnamed_net(), &w);
});

// any text of up to 3 characters in front of, and one in place of each character of the prefix
harness!(h_c24_prefix, {
    expect(2);
    let mut s = "Net-(".to_string();
    let k = pick(6);
    if k < 5 { s.replace_range(k..k + 1, &string_n(TEXT, 1)); } else { s = format!("{}{}", string(TEXT, 0, 3), s); }
    s.push_str("R1-Pad2)");
    let n: NetName = s.clone().into();
    let w = parts(&s);
    goal(if w.is_some() { 1 } else { 2 });
    same(&n.is_unnamed_net(), &w);
});

// any text of up to 7 characters
harness!(h_c24_any, {
    expect(1);
    let s = string(TEXT, 0, 7);
    let n: NetName = s.clone().into();
    goal(1);
    same(&n.is_unnamed_net(), &parts(&s));
});

// something before the end or behind the closing parenthesis
harness!(h_c24_suffix, {
    expect(1);
    let s = format!("Net-(R1-Pad2{}", string(TEXT, 0, 3));
    let n: NetName = s.clone().into();
    goal(1);
    same(&n.is_unnamed_net(), &parts(&s));
});

// a new reference of up to 3 characters keeps the pad; other names are refused and stay as they are
harness!(h_c24_set, {
    expect(2);
    let s = format!("Net-(R1-{}", string("-()a1", 0, 4));
    let r = string(PART, 0, 3);
    let mut n: NetName = s.clone().into();
    let o = n.set_unnamed_net(&r);
    match parts(&s) {
        Some((_, p)) => {
            goal(1);
            check!(o.is_ok());
            check!(n.0 == format!("Net-({}-{})", r, p));
            same(&n.is_unnamed_net(), &Some((r, p)));
        }
        None => { goal(2); check!(o.is_err()); check!(n.0 == s); }
    }
});

// references and pads of 5, 9, 17, 33 or 67 characters
harness!(h_c24_long, {
    expect(1);
    let n = length();
    let r = string_n(PART, n);
    let p = string_n(PART, if boolean() { n } else { 1 });
    let q = string_n(PART, n);
    let mut n: NetName = format!("Net-({}-{})", r, p).into();
    goal(1);
    same(&n.is_unnamed_net(), &Some((r, p.clone())));
    check!(n.set_unnamed_net(&q).is_ok());
    check!(n.0 == format!("Net-({}-{})", q, p));
});

// renaming there and back restores the name: reference and pad of up to 2 characters
harness!(h_c24_back, {
    expect(1);
    let r = string(PART, 1, 2);
    let p = string(PART, 1, 2);
    let mut n: NetName = format!("Net-({}-{})", r, p).into();
    let a = n.set_unnamed_net("U12").is_ok();
    let b = n.set_unnamed_net(&r).is_ok();
    goal(1);
    check!(a && b);
    check!(n.0 == format!("Net-({}-{})", r, p));
});

// names that are no unnamed nets are refused: up to 4 characters
harness!(h_c24_refused, {
    expect(1);
    let s = string(TEXT, 0, 4);
    let mut n: NetName = s.clone().into();
    goal(1);
    check!(n.set_unnamed_net("U1").is_err());
    check!(n.0 == s);
});
