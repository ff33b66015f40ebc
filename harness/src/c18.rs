//! C18: footprint convention checks report exactly the violated rules.

use crate::check;
use crate::fp;
use crate::gen::*;
use crate::harness;
use crate::klc::Found;
use crate::sym::*;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::footprint::*;

/// a size: multiples of 1/64 up to 16
fn size() -> f64 { grid(0, 1 << 10, 6) }

/// findings expected by an independent reading of the rules
struct Want { r73: usize, r74: usize, r75: usize, r81: usize, r91: usize, infos: usize }

fn sizes(t: &FpText, c: &Config, w: &mut Want) {
    if t.effects.font.size.x != c.m.font_size { w.infos += 1; }
    if t.effects.font.size.y != c.m.font_size { w.infos += 1; }
    if t.effects.font.thickness != c.m.font_thickness { w.infos += 1; }
}
fn want(m: &Module, c: &Config) -> Want {
    let mut w = Want { r73: 0, r74: 0, r75: 0, r81: 0, r91: 0, infos: 0 };
    let (mut re, mut va, mut us) = (None, None, None);
    let (mut lines, mut smd, mut pth, mut attr) = (0, 0, 0, false);
    for e in &m.elements {
        match *e {
            Element::FpText(ref t) => {
                if t.name == "reference" && re.is_none() { re = Some(t) }
                if t.name == "value" && va.is_none() { va = Some(t) }
                if t.name == "user" && us.is_none() { us = Some(t) }
            }
            Element::FpLine(ref l) => if l.layer.t == LayerType::CrtYd { lines += 1 },
            Element::Pad(ref p) => { if p.t == PadType::Smd { smd += 1 } if p.t == PadType::Pth { pth += 1 } }
            Element::Attr(ref a) => if a == "smd" { attr = true },
            _ => (),
        }
    }
    match re {
        Some(t) => {
            if t.value != "REF**" { w.r73 += 1; }
            if t.layer.t != LayerType::SilkS { w.r73 += 1; }
            if t.hide { w.r73 += 1; }
            if t.effects.font.size.x != t.effects.font.size.y { w.r73 += 1; }
            sizes(t, c, &mut w);
        }
        None => w.r73 += 1,
    }
    match va {
        Some(t) => {
            if t.value != m.name { w.r74 += 1; }
            if t.layer.t != LayerType::Fab { w.r74 += 1; }
            if t.hide { w.r74 += 1; }
            sizes(t, c, &mut w);
        }
        None => w.r74 += 1,
    }
    match us {
        Some(t) => {
            if t.value != "%R" { w.r74 += 1; }
            if t.layer.t != LayerType::Fab { w.r74 += 1; }
            if t.effects.font.size.x != t.effects.font.size.y { w.r74 += 1; }
            sizes(t, c, &mut w);
        }
        None => w.r74 += 1,
    }
    if lines < 4 { w.r75 += 1; }
    if smd > 0 && pth == 0 && !attr { w.r81 += 1; }
    if pth > 0 && smd == 0 && attr { w.r91 += 1; }
    w
}
fn compare(m: &Module, c: &Config) {
    let w = want(m, c);
    let f = Found::of(&m.check(c));
    goal(1);
    check!(f.count(7, 3) == w.r73);
    check!(f.count(7, 4) == w.r74);
    check!(f.count(7, 5) == w.r75);
    check!(f.count(8, 1) == w.r81);
    check!(f.count(9, 1) == w.r91);
    check!(f.infos == w.infos);
    check!(f.all == w.r73 + w.r74 + w.r75 + w.r81 + w.r91 + w.infos);
}
fn text(name: &str, value: &str, t: usize) -> FpText {
    let mut x = FpText::new(name.into(), value.into());
    x.layer = fp::layer(pick(2), t);
    x.effects.font.size.x = 1.0;
    x.effects.font.size.y = 1.0;
    x.effects.font.thickness = 0.15;
    x
}
/// a module that follows the rules
fn good() -> Module {
    let mut m = Module::new("SOT-23".into());
    let mut t = |n: &str, v: &str, l: usize| { let mut x = FpText::new(n.into(), v.into()); x.layer = fp::layer(0, l); x.effects.font.size.x = 1.0; x.effects.font.size.y = 1.0; x.effects.font.thickness = 0.15; m.append(Element::FpText(x)) };
    t("reference", "REF**", 3);
    t("value", "SOT-23", 8);
    t("user", "%R", 8);
    for _ in 0..4 { let mut l = FpLine::default(); l.layer = fp::layer(0, 7); m.append(Element::FpLine(l)); }
    m
}
fn replace(m: &mut Module, i: usize, t: FpText) { m.elements[i] = Element::FpText(t); }

// a footprint that follows all rules has no finding
harness!(h_c18_good, {
    expect(1);
    let mut m = good();
    match pick(3) {
        0 => (),
        1 => { m.append(Element::Pad(Pad::new("1".into(), PadType::Smd, PadShape::Rect))); m.append(Element::Attr("smd".into())); }
        _ => m.append(Element::Pad(Pad::new("1".into(), PadType::Pth, PadShape::Rect))),
    }
    m.append(fp::element_light([0, 2, 3, 11, 12, 13, 14, 15, 16, 17][pick(10)], &mut Texts::none()));
    goal(1);
    check!(Found::of(&m.check(&Config::klc())).all == 0);
});

// each of the three texts: value of up to 5 characters, any layer, hidden or not
harness!(h_c18_text_values, {
    expect(1);
    let k = pick(3);
    let mut m = good();
    let s = string(TEXT, 0, 6);
    let mut x = text(["reference", "value", "user"][k], &s, pick(11));
    x.hide = boolean();
    replace(&mut m, k, x);
    compare(&m, &Config::klc());
});

// each of the three texts: font sizes and thickness multiples of 1/64 up to 16, configured sizes likewise
harness!(h_c18_text_sizes, {
    expect(1);
    let k = pick(3);
    let mut c = Config::klc();
    c.m.font_size = size();
    c.m.font_thickness = size();
    let mut m = good();
    for e in &mut m.elements { if let Element::FpText(ref mut t) = *e { t.effects.font.size.x = c.m.font_size; t.effects.font.size.y = c.m.font_size; t.effects.font.thickness = c.m.font_thickness; } }
    let v = ["REF**", "SOT-23", "%R"][k];
    let mut x = text(["reference", "value", "user"][k], v, if k == 0 { 3 } else { 8 });
    x.effects.font.size.x = size();
    x.effects.font.size.y = size();
    x.effects.font.thickness = size();
    replace(&mut m, k, x);
    compare(&m, &c);
});

// texts missing, renamed (up to 9 characters) or doubled
harness!(h_c18_text_names, {
    expect(1);
    let mut m = good();
    match pick(3) {
        0 => { for i in (0..3).rev() { if boolean() { m.elements.remove(i); } } }
        1 => { let k = pick(3); let s = string("aceflnrsuv", 4, 9); if let Element::FpText(ref mut t) = m.elements[k] { t.name = s; } }
        _ => {
            // the first text of the name counts
            let k = pick(3);
            let x = text(["reference", "value", "user"][k], "other", pick(11));
            if boolean() { m.elements.insert(0, Element::FpText(x)); } else { m.append(Element::FpText(x)); }
        }
    }
    compare(&m, &Config::klc());
});

// the name of the footprint against the value text, up to 3 characters each
harness!(h_c18_name, {
    expect(1);
    let mut m = good();
    m.name = string(TEXT, 0, 3);
    let s = string(TEXT, 0, 3);
    if let Element::FpText(ref mut t) = m.elements[1] { t.value = s; }
    compare(&m, &Config::klc());
});

// courtyard: 0 to 6 lines on any layers, other drawings on the courtyard layer
harness!(h_c18_courtyard, {
    expect(1);
    let mut m = good();
    m.elements.truncate(3);
    let n = pick(7);
    let t = pick(11);
    for i in 0..n { let mut l = FpLine::default(); l.layer = fp::layer(pick(2), if i == 0 { t } else { 7 }); m.append(Element::FpLine(l)); }
    match pick(4) {
        0 => (),
        1 => { let mut l = FpCircle::default(); l.layer = fp::layer(0, 7); m.append(Element::FpCircle(l)); }
        2 => { let mut l = FpPoly::default(); l.layer = fp::layer(0, 7); m.append(Element::FpPoly(l)); }
        _ => { let mut l = FpLine::default(); l.layer = fp::layer(0, 3); m.append(Element::FpLine(l)); }
    }
    compare(&m, &Config::klc());
});

// up to 3 pads of any types, attributes of up to 4 characters
harness!(h_c18_pads, {
    expect(1);
    let mut m = good();
    for _ in 0..pick(4) { m.append(Element::Pad(Pad::new("1".into(), fp::pad_type(pick(3)), PadShape::Rect))); }
    match pick(4) {
        0 => (),
        1 => m.append(Element::Attr("smd".into())),
        2 => { m.append(Element::Attr("virtual".into())); m.append(Element::Attr("smd".into())); }
        _ => { let s = string("smd ", 0, 4); m.append(Element::Attr(s)); }
    }
    compare(&m, &Config::klc());
});

// everything wrong at once
harness!(h_c18_all, {
    expect(1);
    let mut m = Module::new(string(TEXT, 1, 1));
    for k in 0..3 {
        if pick(2) == 0 { continue; }
        let mut x = FpText::new(["reference", "value", "user"][k].into(), ["REF**", "n", "%R"][k].into());
        x.hide = boolean();
        x.layer = fp::layer(0, [3, 8, 0][pick(3)]);
        x.effects.font.size.x = size();
        x.effects.font.size.y = 1.0;
        x.effects.font.thickness = size();
        m.append(Element::FpText(x));
    }
    m.append(Element::Pad(Pad::new("1".into(), fp::pad_type(pick(3)), PadShape::Rect)));
    if boolean() { m.append(Element::Attr("smd".into())); }
    compare(&m, &Config::klc());
});

// 5, 9, 17, 33 or 67 pads and drawings, one pad of any type at the first, middle or last place, texts and courtyard before or behind them
harness!(h_c18_long, {
    expect(1);
    let n = length();
    let k = [0, n / 2, n - 1][pick(3)];
    let (t, u) = (pick(3), pick(3));
    let mut m = good();
    let mut v = vec![];
    for i in 0..n { v.push(Element::Pad(Pad::new(word(i), fp::pad_type(if i == k { t } else { u }), PadShape::Rect))); }
    for i in 0..n { let mut l = FpLine::default(); l.layer = fp::layer(0, if i == k { 7 } else { 3 }); v.push(Element::FpLine(l)); }
    if pick(2) == 0 { let k = pick(4); m.elements.remove([0, 1, 2, 5][k]); }
    if boolean() { v.push(Element::Attr("smd".into())); }
    let mut o = Module::new("SOT-23".into());
    if boolean() { for e in m.elements { o.append(e); } for e in v { o.append(e); } } else { for e in v { o.append(e); } for e in m.elements { o.append(e); } }
    compare(&o, &Config::klc());
});
