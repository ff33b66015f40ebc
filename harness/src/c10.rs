//! C10: no text makes a reader crash or loop.

use crate::harness;
use crate::sym::*;
use kicad_parse_gen::*;

/// all ASCII characters
const ANY: &str = "\0\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\u{7f}";
/// words that readers tend to trip over
const ODD: [&str; 14] = ["", "\"", "\"\"", "()", "(", ")", "\u{e9}", "\u{a0}", "\u{2028}", "\u{1d11e}\u{1d11e}", "-9223372036854775809", "1e999", "nan", "FFFFFFFFFFFFFFFFF"];

const SCH: &str = "EESchema Schematic File Version 2
LIBS:power
EELAYER 25 0
EELAYER END
$Descr A4 11693 8268
encoding utf-8
Sheet 1 1
Title \"a b\"
Date \"\"
Rev \"\"
Comp \"\"
Comment1 \"\"
Comment2 \"\"
Comment3 \"\"
Comment4 \"\"
$EndDescr
$Comp
L R R1
U 1 1 5A0B
P 100 200
AR Path=\"/1\" Ref=\"R1\"
F 0 \"R1\" H 100 200 60  0000 C CNN
F 4 \"v w\" V 1 2 60  0001 L BIB \"N\"
\t1    100 200
\t1    0    0    -1
$EndComp
$Sheet
S 1 2 3 4
U 5A0B
F0 \"a\" 60
F1 \"b.sch\" 60
F2 \"P\" I L 1 2 60
$EndSheet
Wire Wire Line
\t1 2 3 4
Connection ~ 1 2
NoConn ~ 1 2
Text Notes 1 2 0 60 ~ 0
note
Text GLabel 1 2 0 60 UnSpc ~ 0
label
Entry Wire Line
\t1 2 3 4
$EndSCHEMATC
";

const LIB: &str = "EESchema-LIBRARY Version 2.3
#encoding utf-8
#
# R
#
DEF R R 0 40 Y N 1 F N
F0 \"R\" 0 100 50 H V C CNN
F1 \"R\" 0 -100 50 V I L BIB
F4 \"x\" 1 2 50 H V C CNN \"N\"
$FPLIST
 R_*
$ENDFPLIST
ALIAS R1 R2
DRAW
S -40 150 40 -150 0 1 10 f
X A 1 0 200 50 D 50 50 1 1 P
X B 2 0 -200 50 U 50 50 1 1 W N
P 2 0 0 0 1 2 3 4 N
ENDDRAW
ENDDEF
#
#End Library
";

const MOD: &str = "( module M
( layer F.Cu )
( tedit 5A0B )
( tstamp 5A0C )
( descr \"a b\" )
( tags t )
( path /5A )
( attr smd )
( at 1 2 90 )
( solder_mask_margin 0.1 )
( clearance 0.2 )
locked
( fp_text reference REF** ( at 0 1 ) ( layer F.SilkS ) hide ( effects ( font ( size 1 1 ) ( thickness 0.15 ) italic ) ( justify mirror ) ) )
( fp_line ( start 0 0 ) ( end 1 1 ) ( layer F.Fab ) ( width 0.1 ) )
( fp_circle ( center 0 0 ) ( end 1 1 ) ( layer F.Fab ) ( width 0.1 ) )
( fp_arc ( start 0 0 ) ( end 1 1 ) ( angle 90 ) ( layer F.Fab ) ( width 0.1 ) )
( fp_poly ( pts ( xy 0 0 ) ( xy 1 1 ) ) ( layer F.Fab ) ( width 0.1 ) )
( pad 1 thru_hole oval ( at 0 0 90 ) ( size 1 2 ) ( rect_delta 1 2 ) ( drill oval 1 2 ( offset 1 2 ) ) ( layers *.Cu F.Mask ) ( net 1 N ) ( zone_connect 1 ) ( solder_paste_margin 0.1 ) ( solder_mask_margin 0.1 ) ( clearance 0.1 ) ( thermal_gap 0.1 ) )
( model m.wrl ( at ( xyz 0 0 0 ) ) ( scale ( xyz 1 1 1 ) ) ( rotate ( xyz 0 0 0 ) ) )
)";

const PCB: &str = "( kicad_pcb ( version 4 ) ( host pcbnew build )
( general ( links 1 ) ( no_connects 2 ) ( area 1 2 3 4 ) ( thickness 1.6 ) ( drawings 1 ) ( tracks 2 ) ( zones 3 ) ( modules 4 ) ( nets 5 ) )
( page A4 )
( layers ( 0 F.Cu signal ) ( 31 B.Cu signal hide ) )
( setup ( via_size 0.6 ) ( user_trace_width 0.2 ) ( pcbplotparams ( layerselection 0x00030_80000001 ) ( usegerberextensions false ) ) )
( net 0 \"\" )
( net 1 GND )
( net_class Default \"a b\" ( clearance 0.2 ) ( trace_width 0.25 ) ( via_dia 0.6 ) ( via_drill 0.4 ) ( uvia_dia 0.3 ) ( uvia_drill 0.1 ) ( diff_pair_gap 0.1 ) ( diff_pair_width 0.1 ) ( add_net GND ) )
( module M ( layer F.Cu ) ( at 1 2 ) )
( gr_text T ( at 1 2 90 ) ( layer F.SilkS ) ( effects ( font ( size 1 1 ) ( thickness 0.1 ) ) ) ( tstamp 5A ) )
( gr_line ( start 1 2 ) ( end 3 4 ) ( angle 90 ) ( layer Edge.Cuts ) ( width 0.1 ) ( tstamp 5A ) )
( gr_arc ( start 1 2 ) ( end 3 4 ) ( angle 90 ) ( layer Edge.Cuts ) ( width 0.1 ) )
( gr_circle ( center 1 2 ) ( end 3 4 ) ( layer Edge.Cuts ) ( width 0.1 ) )
( dimension 1 ( width 0.1 ) ( layer Dwgs.User ) ( gr_text T ( at 1 2 ) ( layer F.SilkS ) ( effects ( font ( size 1 1 ) ( thickness 0.1 ) ) ) ) ( feature1 ( pts ( xy 1 2 ) ( xy 3 4 ) ) ) ( feature2 ( pts ( xy 1 2 ) ) ) ( crossbar ( pts ( xy 1 2 ) ) ) ( arrow1a ( pts ( xy 1 2 ) ) ) ( arrow1b ( pts ( xy 1 2 ) ) ) ( arrow2a ( pts ( xy 1 2 ) ) ) ( arrow2b ( pts ( xy 1 2 ) ) ) )
( segment ( start 1 2 ) ( end 3 4 ) ( width 0.2 ) ( layer F.Cu ) ( net 1 ) ( tstamp 5A ) ( status 400000 ) )
( via ( at 1 2 ) ( size 0.6 ) ( drill 0.4 ) ( layers F.Cu B.Cu ) ( net 1 ) )
( zone ( net 1 ) ( net_name GND ) ( layer F.Cu ) ( tstamp 5A ) ( hatch edge 0.5 ) ( priority 1 ) ( connect_pads ( clearance 0.2 ) ) ( min_thickness 0.2 ) ( keepout ( tracks allowed ) ( vias allowed ) ( copperpour not_allowed ) ) ( fill yes ( mode segment ) ( arc_segments 16 ) ( thermal_gap 0.5 ) ( thermal_bridge_width 0.5 ) ( smoothing chamfer ) ( radius 1 ) ) ( polygon ( pts ( xy 1 2 ) ) ) ( filled_polygon ( pts ( xy 1 2 ) ) ) ( fill_segments ( pts ( xy 1 2 ) ) ) )
( target plus )
)";

const TAB: &str = "( fp_lib_table
( lib ( name A ) ( type KiCad ) ( uri ${X}/a ) ( options \"\" ) ( descr \"a b\" ) )
)";

fn read(k: usize, s: &str) {
    let ok = match k {
        0 => schematic::parse_str(s).is_ok(),
        1 => symbol_lib::parse_str(s).is_ok(),
        2 => footprint::parse(s).is_ok(),
        3 => layout::parse(s).is_ok(),
        4 => fp_lib_table::parse(s).is_ok(),
        _ => project::parse_str(s).is_ok(),
    };
    goal(if ok { 1 } else { 2 });
}

/// a document with one line changed
fn change_line(doc: &str, max: usize) -> String {
    let l: Vec<&str> = doc.lines().collect();
    let k = pick(l.len());
    let mut s = String::new();
    for x in &l[..k] { s.push_str(x); s.push('\n'); }
    let rest = match pick(5) {
        // cut off
        0 => return s,
        // dropped
        1 => k + 1,
        // twice
        2 => { s.push_str(l[k]); s.push('\n'); k }
        // blank line before
        3 => { s.push('\n'); k }
        // replaced, everything after it dropped or kept
        _ => { s.push_str(&string(ANY, 0, max)); s.push('\n'); if pick(2) == 0 { return s; } k + 1 }
    };
    for x in &l[rest..] { s.push_str(x); s.push('\n'); }
    s
}

/// a line with one word dropped, doubled, cut or replaced
fn change_word(line: &str, any: usize) -> (String, bool) {
    let w: Vec<&str> = line.split(' ').collect();
    let j = pick(w.len());
    let op = pick(3 + ODD.len() + any);
    let mut s = String::new();
    for (i, x) in w.iter().enumerate() {
        if i > 0 { s.push(' '); }
        if i != j { s.push_str(x); continue; }
        match op {
            // first character only
            0 => s.push_str(&x[..1.min(x.len())]),
            // end of the text
            1 => return (s, true),
            // twice
            2 => { s.push_str(x); s.push(' '); s.push_str(x); }
            k if k < 3 + ODD.len() => s.push_str(ODD[k - 3]),
            // any characters
            k => s.push_str(&string_n(ANY, k - 2 - ODD.len())),
        }
    }
    s.push('\n');
    (s, false)
}

/// a document with one word changed in lines from/8 to to/8
fn change_doc(doc: &str, from: usize, to: usize, any: usize) -> String {
    let l: Vec<&str> = doc.lines().collect();
    let n = l.len();
    let (from, to) = (n * from / 8, n * to / 8);
    let k = from + pick(to - from);
    let mut s = String::new();
    for x in &l[..k] { s.push_str(x); s.push('\n'); }
    let (x, end) = change_word(l[k], any);
    s.push_str(&x);
    if end { return s; }
    for x in &l[k + 1..] { s.push_str(x); s.push('\n'); }
    s
}

/// a document of one section with one word changed, the section being one of lines from/8 to to/8
fn section(doc: &str, from: usize, to: usize, any: usize) -> String {
    let l: Vec<&str> = doc.lines().collect();
    let n = l.len() - 1;
    let (from, to) = (n * from / 8, n * to / 8);
    let k = from + pick(to - from);
    let mut s = String::new();
    if k > 0 { s.push_str(l[0]); s.push('\n'); }
    let (x, end) = change_word(l[k], any);
    s.push_str(&x);
    if !end { s.push_str(")\n"); }
    s
}

// schematic with one line cut off at, dropped, doubled, preceded by a blank line or replaced by up to 2 characters
harness!(h_c10_sch_lines, { expect(2); read(0, &change_line(SCH, 2)); });
// schematic with one word dropped, doubled, cut or replaced by one of 14 odd words or any 1 or 2 characters
harness!(h_c10_sch_words_1, { expect(2); read(0, &change_doc(SCH, 0, 4, 2)); });
// the same, second part of the text
harness!(h_c10_sch_words_2, { expect(2); read(0, &change_doc(SCH, 4, 6, 2)); });
// the same, last part of the text
harness!(h_c10_sch_words_3, { expect(2); read(0, &change_doc(SCH, 6, 8, 2)); });

// symbol library with one line cut off at, dropped, doubled, preceded by a blank line or replaced by up to 2 characters
harness!(h_c10_lib_lines, { expect(2); read(1, &change_line(LIB, 2)); });
// symbol library with one word dropped, doubled, cut or replaced by one of 14 odd words or any 1 or 2 characters
harness!(h_c10_lib_words_1, { expect(2); read(1, &change_doc(LIB, 0, 4, 2)); });
// the same, second half of the text
harness!(h_c10_lib_words_2, { expect(2); read(1, &change_doc(LIB, 4, 8, 2)); });

// footprint with one line cut off at, dropped, doubled or replaced by up to 2 characters
harness!(h_c10_mod_lines, { expect(2); read(2, &change_line(MOD, 2)); });
// footprint of one element with one word dropped, doubled, cut or replaced by one of 14 odd words or any 1 or 2 characters
harness!(h_c10_mod_words_1, { expect(2); read(2, &section(MOD, 0, 6, 2)); });
// the same, other elements
harness!(h_c10_mod_words_2, { expect(2); read(2, &section(MOD, 6, 8, 2)); });

// layout with one line cut off at, dropped, doubled or replaced by 1 character
harness!(h_c10_pcb_lines, { expect(2); read(3, &change_line(PCB, 1)); });
// layout of one section with one word dropped, doubled, cut or replaced by one of 14 odd words or any character
harness!(h_c10_pcb_words_1, { expect(2); read(3, &section(PCB, 0, 3, 1)); });
// the same, other sections
harness!(h_c10_pcb_words_2, { expect(2); read(3, &section(PCB, 3, 6, 1)); });
// the same, other sections
harness!(h_c10_pcb_words_3, { expect(2); read(3, &section(PCB, 6, 7, 1)); });
// the same, other sections
harness!(h_c10_pcb_words_4, { expect(2); read(3, &section(PCB, 7, 8, 1)); });

// library table with one line changed as above, up to 2 characters
harness!(h_c10_tab_lines, { expect(2); read(4, &change_line(TAB, 2)); });
// library table with one word changed as above, up to 3 characters
harness!(h_c10_tab_words, { expect(2); read(4, &change_doc(TAB, 0, 8, 3)); });

// any text of up to 3 characters, for all readers; project files: any text of up to 8
harness!(h_c10_short, {
    expect(2);
    let k = pick(6);
    if k < 5 { read(k, &string(ANY, 0, if thorough() { 4 } else { 3 })); goal(1); }
    else { read(5, &string(ANY, 0, 8)); }
});
// any text of up to 4 characters inside a list of each kind
harness!(h_c10_inside, {
    expect(2);
    let k = pick(3);
    let t = string(ANY, 0, 3);
    read(2 + k, &match k { 0 => format!("(module M {})", t), 1 => format!("(kicad_pcb (version 4) {})", t), _ => format!("(fp_lib_table {})", t) });
});

/// a document with one line (of those that hold something) repeated
fn repeat_line(doc: &str, n: usize) -> String {
    let l: Vec<&str> = doc.lines().collect();
    let k = pick(l.len());
    let mut s = String::new();
    for (i, x) in l.iter().enumerate() { for _ in 0..if i == k { n } else { 1 } { s.push_str(x); s.push('\n'); } }
    s
}

/// a document with one word made longer, by ASCII or other characters
fn lengthen_word(doc: &str, n: usize, wide: bool) -> String {
    let l: Vec<&str> = doc.lines().collect();
    let k = pick(l.len());
    let w: Vec<&str> = l[k].split(' ').collect();
    let j = pick(w.len());
    let mut s = String::new();
    for (i, x) in l.iter().enumerate() {
        if i != k { s.push_str(x); s.push('\n'); continue; }
        for (i, x) in w.iter().enumerate() {
            if i > 0 { s.push(' '); }
            s.push_str(x);
            if i != j || x.is_empty() { continue; }
            let quoted = x.ends_with('"');
            if quoted { s.pop(); }
            for i in 0..n { s.push(if wide { '\u{e9}' } else { (b'0' + (i % 10) as u8) as char }); }
            if quoted { s.push('"'); }
        }
        s.push('\n');
    }
    s
}

fn doc(k: usize) -> &'static str { match k { 0 => SCH, 1 => LIB, 2 => MOD, 3 => PCB, _ => TAB } }

// a document of every kind with one line there 40 times
harness!(h_c10_repeated, { expect(2); let k = pick(5); read(k, &repeat_line(doc(k), 40)); });
// a document of every kind with one word made longer by 100 digits, 400 in the thorough tier
harness!(h_c10_long_words, { expect(2); let k = pick(5); let n = if thorough() { 400 } else { 100 }; read(k, &lengthen_word(doc(k), n, false)); });
// a document of every kind with one word made longer by 30 two-byte characters
harness!(h_c10_wide_words, { expect(2); let k = pick(5); read(k, &lengthen_word(doc(k), 30, true)); });
// lists in lists, 5 to 60 deep, closed or not, in every place of a list
harness!(h_c10_deep, {
    expect(2);
    let k = pick(3);
    let n = [5, 17, 60][pick(3)];
    let o = ["(", "(a ", "(layer ", "(xy "][pick(4)];
    let mut t = String::new();
    for _ in 0..n { t.push_str(o); }
    t.push_str("x");
    for _ in 0..[n, n - 1, n + 1][pick(3)] { t.push(')'); }
    let at = pick(3);
    read(2 + k, &match (k, at) {
        (_, 0) => t,
        (0, 1) => format!("(module M {})", t), (1, 1) => format!("(kicad_pcb (version 4) {})", t), (_, 1) => format!("(fp_lib_table {})", t),
        (0, _) => format!("(module M (pad 1 smd rect {}))", t), (1, _) => format!("(kicad_pcb (version 4) (zone {}))", t), (_, _) => format!("(fp_lib_table (lib {}))", t),
    });
    goal(1);
});
