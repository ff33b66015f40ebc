//! Choice of the values that fill a document.

use crate::sym::*;

/// printable ASCII without double quote and backslash
pub const TEXT: &str = " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~";
/// the same plus tab
pub const TEXT_TAB: &str = "\t !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~";
/// characters of a plain word
pub const WORD: &str = "!#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~";
/// characters of a word that is never put in quotes
pub const SIGN: &str = "!#$&'*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz|~";
pub const ALNUM: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz";

/// Hands out texts: one of them symbolic, the others fixed.
pub struct Texts { pub slot: usize, pub next: usize, pub min: usize, pub max: usize, pub set: &'static str, pub fixed: &'static [&'static str], pub all: usize }

/// long ones: the symbolic text covers the short ones
const FIXED: [&str; 6] = ["n0_of_a_name_without_any_blank_in_it_that_is_longer_than_most_names_in_use", "a b, a text with blanks (and parentheses) that goes on for a while, so to say", "R1 in the middle of a reference nobody would write, but who knows what comes",
    "(x) all in all there are more than seventy characters in this text, I think!", "T plus everything else that may stand in a text of a drawing, like 1 or #2", "5% of a value; the rest of the value stands here and makes it long enough"];
const PLAIN: [&str; 6] = ["n0_of_a_name_without_any_blank_in_it_that_is_longer_than_most_names_in_use", "ab.a_word_that_goes_on_for_a_while_so_to_say_as_words_hardly_ever_do_or_do_they", "R1_in_the_middle_of_a_reference_nobody_would_write_but_who_knows_what_comes",
    "x_all_in_all_there_are_more_than_seventy_characters_in_this_word_I_think_so", "T_plus_everything_else_that_may_stand_in_a_word_of_a_drawing_like_1_or_2", "5_of_a_value_the_rest_of_the_value_stands_here_and_makes_it_long_enough"];

impl Texts {
    /// all texts symbolic, with lengths and kinds that go round with `c`, which is less than `ROUNDS`
    pub fn all(c: usize) -> Texts { Texts { slot: usize::MAX, next: 0, min: 0, max: 0, set: TEXT, fixed: &FIXED, all: c } }
    /// all texts fixed
    pub fn none() -> Texts { Texts { slot: usize::MAX, next: 0, min: 0, max: 0, set: TEXT, fixed: &FIXED, all: usize::MAX } }
    /// one of `n` texts symbolic, with up to `max` characters
    pub fn one_of(n: usize, max: usize) -> Texts { Texts { slot: pick(n), next: 0, min: 0, max, set: TEXT_TAB, fixed: &FIXED, all: usize::MAX } }
    /// one of `n` words symbolic, with one to `max` characters out of a set
    pub fn words(n: usize, max: usize, set: &'static str) -> Texts { Texts { slot: pick(n), next: 0, min: 1, max, set, fixed: &PLAIN, all: usize::MAX } }
    pub fn plain() -> Texts { Texts { slot: usize::MAX, next: 0, min: 0, max: 0, set: ALNUM, fixed: &PLAIN, all: usize::MAX } }
    pub fn text(&mut self) -> String {
        let i = self.next;
        self.next += 1;
        if self.all != usize::MAX {
            sym_text(self.all, i)
        } else if i == self.slot {
            string(self.set, self.min, self.max)
        } else {
            self.fixed[i % self.fixed.len()].to_string()
        }
    }
    pub fn used(&self) -> bool { self.slot == usize::MAX || self.slot < self.next }
}
/// lower case words
pub const LOWER: &str = "abcdefghijklmnopqrstuvwxyz_0123456789";
/// lengths for lists that are longer than any fixed small number
pub fn length() -> usize { if thorough() { [5, 9, 13, 17, 33, 67, 129][pick(7)] } else { [5, 9, 17, 33, 67][pick(5)] } }
/// a distinct word per number
pub fn word(i: usize) -> String { format!("W{}", i) }
/// a text of a given length with a blank, a parenthesis and one symbolic character at the end
pub fn long_text(n: usize) -> String { let mut s = String::from("a ("); while s.len() + 1 < n { s.push((b'a' + (s.len() % 26) as u8) as char); } s.push(byte(TEXT_TAB) as char); s }
pub fn long_word(n: usize) -> String { let mut s = String::new(); while s.len() + 1 < n { s.push((b'a' + (s.len() % 26) as u8) as char); } s.push(byte(ALNUM) as char); s }
/// a text of a given length that differs for each number, with blanks and parentheses
pub fn filled(i: usize, n: usize) -> String { let mut s = format!("t{} (", i); while s.len() + 1 < n { let k = s.len(); s.push(if k % 11 == 0 { ' ' } else { (b'a' + ((k + i) % 26) as u8) as char }); } s.push(')'); s }
/// the same without blanks
pub fn filled_word(i: usize, n: usize) -> String { let mut s = format!("w{}_", i); while s.len() < n { s.push((b'a' + ((s.len() + i) % 26) as u8) as char); } s }
/// any word of up to 14 characters that is never put in quotes
pub fn any_word() -> String { string(SIGN, 1, if thorough() { 20 } else { 14 }) }
/// any text that has to be put in quotes: up to 5 characters, a parenthesis or blank, and 1, 4 or 9 characters
pub fn any_quoted() -> String {
    let mut s = string(SIGN, 0, 5);
    // no opening parenthesis behind a blank: it makes no difference and is looked for everywhere
    let (c, tail) = if pick(2) == 0 { ('(', TEXT) } else { (' ', " !#$%&')*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~") };
    s.push(c);
    s.push_str(&string_n(tail, [1, 4, 9][pick(3)]));
    s
}
pub fn any_text() -> String { if pick(2) == 0 { any_word() } else { any_quoted() } }
/// number of rounds in which each of many symbolic texts has every kind and length
pub const ROUNDS: usize = 42;
/// the text number `i` in round `c`: in turn a word of 1 to 14 characters and texts with a parenthesis or blank behind up to 5 characters
pub fn sym_text(c: usize, i: usize) -> String {
    let n = c % 14 + i;
    let (sep, tail) = match (c / 14 + i) % 3 { 0 => return sym_word(c, i), 1 => ('(', TEXT), _ => (' ', " !#$%&')*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~") };
    let mut s = string_n(SIGN, n % 6);
    s.push(sep);
    s.push_str(&string_n(tail, 1 + n % 9));
    s
}
/// the word number `i` in round `c`, 1 to 14 characters
pub fn sym_word(c: usize, i: usize) -> String { string_n(SIGN, 1 + (c % 14 + i) % 14) }
const LINE: &str = "\t !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
const LINE_WORD: &str = "!#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
/// many different texts of a line based format: in rounds 0 to 3 fixed and long, in rounds 4 to 17 symbolic
pub const LINE_ROUNDS: usize = 18;
pub fn line_text(c: usize, i: usize) -> String { if c < 4 { filled(i, [2, 20, 70, 300][c]) } else { string_n(LINE, (c + i) % 14) } }
pub fn line_word(c: usize, i: usize) -> String { if c < 4 { filled_word(i, [2, 20, 70, 300][c]) } else { string_n(LINE_WORD, 1 + (c + i) % 14) } }

/// texts 0 to `n` of round `c` and the way they stand in a file: quoted, words also bare
pub fn sym_texts(c: usize, n: usize, bare: bool) -> (Vec<String>, Vec<String>) {
    let t: Vec<String> = (0..n).map(|i| sym_text(c, i)).collect();
    let q = t.iter().enumerate().map(|(i, s)| if bare && (c / 14 + i) % 3 == 0 { s.clone() } else { format!("\"{}\"", s) }).collect();
    (t, q)
}
