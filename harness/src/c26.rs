//! C26: library locations expand environment variables exactly.

use crate::check;
use crate::fs;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::fp_lib_table::*;

/// any text without the characters that start a reference
const LIT: &str = " !#%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^`abcdefghijklmnopqrstuvwxyz";
/// text that cannot continue a name
const SEP: &str = " !#%&'()*+,-./:;<=>?@[]^`";
const VALUE: &str = " $!#%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~";

fn lib(uri: &str) -> Lib { Lib { name: "n".into(), type_: "$KiCad".into(), uri: uri.into(), options: "${O}".into(), descr: "~".into() } }
/// the expanded location is the wanted one, or an error if there is none
fn expands(uri: &str, want: Option<&str>) {
    let l = lib(uri);
    match (l.get_expanded_uri(), want) {
        (Ok(s), Some(w)) => { goal(1); check!(s == w); }
        (Ok(_), None) => check!("undefined" == "variable"),
        (Err(_), Some(_)) => check!("expansion" == "failed"),
        (Err(_), None) => goal(2),
    }
    check!(l.uri == uri);
}

// no reference: any text of up to 5 characters is kept
harness!(h_c26_plain, {
    expect(1);
    fs::start();
    let t = string(LIT, 0, if thorough() { 8 } else { 5 });
    expands(&t, Some(&t));
});

// one reference in braces, up to 2 characters before and after, a value of up to 3 characters (dollar signs, braces and tildes included) or undefined
harness!(h_c26_braces, {
    expect(2);
    fs::start();
    let (a, b) = (string(LIT, 0, 2), string(LIT, 0, 2));
    let v = string(VALUE, 0, 3);
    fs::env("KISYSMODX", "wrong");
    fs::env("ISYSMOD", "wrong");
    let there = boolean();
    if there { fs::env("KISYSMOD", &v); }
    let want = format!("{}{}{}", a, v, b);
    expands(&format!("{}${{KISYSMOD}}{}", a, b), if there { Some(&want) } else { None });
});

// one reference without braces
harness!(h_c26_bare, {
    expect(2);
    fs::start();
    let a = string(LIT, 0, 2);
    let b = if pick(3) == 0 { String::new() } else { format!("{}{}", string_n(SEP, 1), string(LIT, 0, 1)) };
    let v = string(VALUE, 0, 3);
    fs::env("KISYSMODX", "wrong");
    fs::env("KISYS", "wrong");
    let there = boolean();
    if there { fs::env("KISYSMOD", &v); }
    let want = format!("{}{}{}", a, v, b);
    expands(&format!("{}$KISYSMOD{}", a, b), if there { Some(&want) } else { None });
});

// a name of up to 3 characters: letters, digits and underscores, in braces or not
harness!(h_c26_names, {
    expect(1);
    fs::start();
    let n = format!("{}{}", string_n("ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz", 1), string(ALNUM, 0, 2));
    let v = string(VALUE, 1, 1);
    assume(n != "HOME");
    fs::env(&n, &v);
    let (uri, want) = if pick(2) == 0 { (format!("/a/${{{}}}/b", n), format!("/a/{}/b", v)) } else { (format!("/a/${}/b", n), format!("/a/{}/b", v)) };
    expands(&uri, Some(&want));
});

// up to 4 pieces: texts and references in any order, equal and different variables, defined or not, values of up to 1 character
harness!(h_c26_many, {
    expect(2);
    fs::start();
    let names = ["A", "AB", "KI_3"];
    let mut vals: Vec<Option<String>> = vec![];
    for n in &names {
        let v = if boolean() { Some(string(VALUE, 0, 1)) } else { None };
        if let Some(ref x) = v { fs::env(n, x); }
        vals.push(v);
    }
    let (mut uri, mut want, mut good) = (String::new(), String::new(), true);
    for _ in 0..1 + pick(if thorough() { 4 } else { 3 }) {
        match pick(7) {
            0 => { let t = string_n(SEP, 1); uri.push_str(&t); want.push_str(&t); }
            k => {
                let i = (k - 1) % 3;
                if k < 4 { uri.push_str(&format!("${{{}}}", names[i])) } else { uri.push_str(&format!("${}", names[i])); }
                match vals[i] { Some(ref v) => want.push_str(v), None => good = false }
                if k >= 4 { uri.push('/'); want.push('/'); }
            }
        }
    }
    expands(&uri, if good { Some(&want) } else { None });
});

// values and texts of 20 to 300 characters, 5 to 67 references
harness!(h_c26_long, {
    expect(1);
    fs::start();
    let v = long_text([20, 300][pick(2)]);
    let t = format!("{}{}", long_word([20, 300][pick(2)]), string_n(SEP, 1));
    fs::env("KISYSMOD", &v);
    let (mut uri, mut want) = (String::new(), String::new());
    for _ in 0..length() { uri.push_str(&format!("{}${{KISYSMOD}}", t)); want.push_str(&format!("{}{}", t, v)); }
    expands(&uri, Some(&want));
});

// the home directory at the start: its value, whatever the variable holds
harness!(h_c26_home, {
    expect(1);
    fs::start();
    let t = string(LIT, 0, 3);
    expands(&format!("~/{}", t), Some(&format!("/home/{}", t)));
});

// tables read from text: the location of every entry expands, the others are untouched by it
harness!(h_c26_table, {
    expect(1);
    fs::start();
    let v = string(VALUE, 0, 2);
    fs::env("K", &v);
    let n = 1 + pick(3);
    let mut s = String::from("(fp_lib_table\n");
    for i in 0..n { s.push_str(&format!("  (lib (name n{})(type KiCad)(uri ${{K}}/f{}.pretty)(options \"\")(descr \"d ${{K}}\"))\n", i, i)); }
    s.push_str(")\n");
    match parse(&s) {
        Ok(t) => {
            goal(1);
            check!(t.libs.len() == n);
            for (i, l) in t.libs.iter().enumerate() {
                match l.get_expanded_uri() { Ok(u) => check!(u == format!("{}/f{}.pretty", v, i)), Err(_) => check!("expansion" == "failed") }
            }
        }
        Err(_) => check!("reading" == "failed"),
    }
});

// texts, values and the other attributes of 1 to 14 characters, names of variables of 1 to 14 capital letters
harness!(h_c26_words, {
    expect(1);
    fs::start();
    let n = 1 + pick(14);
    let (a, b, v) = (string_n(LIT, n), string_n(LIT, 1 + (n + 5) % 14), string_n(VALUE, 1 + (n + 9) % 14));
    let name = if pick(2) == 0 { "KISYSMOD".to_string() } else { format!("V{}", string_n("ABCDEFGHIJKLMNOPQRSTUVWXYZ", (n + 7) % 14)) };
    fs::env(&name, &v);
    let (mid, want) = match pick(3) { 0 => (format!("${{{}}}", name), v), 1 => (format!("${}/", name), format!("{}/", v)), _ => (String::new(), String::new()) };
    let w = |i: usize| string_n(TEXT, 1 + (n + i) % 14);
    let l = Lib { name: w(1), type_: w(3), uri: format!("{}{}{}", a, mid, b), options: w(5), descr: w(8) };
    match l.get_expanded_uri() { Ok(s) => { goal(1); check!(s == format!("{}{}{}", a, want, b)); } Err(_) => check!("expansion" == "failed") }
});
