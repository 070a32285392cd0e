//! C01: compiling any byte string ends with a script or a positioned error, never a crash or a hang.
use crate::run::*;
use crate::tpl;
use crate::vf::*;
use sieve::FunctionMap;

fn comp(b: &[u8]) -> bool {
    let mut fm = FunctionMap::new().with_function("len", |_, v| Variable::from(v[0].len())).with_external_function("ext", 7, 2);
    let r = Compiler::new().with_no_capability_check(true).register_functions(&mut fm).compile(b);
    match r {
        Ok(_) => { reach(1); obs(1); true }
        Err(e) => {
            reach(2); obs(2); obs(e.line_num() as u64); obs(e.line_pos() as u64);
            let lines = 1 + b.iter().filter(|c| **c == b'\n').count();
            check(e.line_num() <= lines + 1, 1, "reported error line lies in the script");
            check(e.line_pos() <= b.len() + 1, 2, "reported error column lies in the script");
            check(!format!("{e}").is_empty(), 3, "the error has a printable description");
            false
        }
    }
}
entry!{
/// every script of up to 3 (thorough: 4) free bytes
/// reach: 1 2
h_c01_raw { let n = choose(1 + tier(3, 4)); let b = bytes(n); comp(&b); }
}
/// insert k free bytes at any position / overwrite k bytes at any position / cut the script at any position
fn mutate(list: &[&str], k: usize) {
    let t = pick(list).as_bytes();
    let mode = choose(3);
    let at = choose(t.len() + 1);
    let mut v = t[..at].to_vec();
    if mode < 2 {
        v.extend_from_slice(&bytes(k));
        let o = if mode == 0 { at } else { (at + k).min(t.len()) };
        v.extend_from_slice(&t[o..]);
    }
    comp(&v);
}
entry!{
/// seed scripts for control structure, lexing, strings, comments, loops: 1 free byte (thorough: 2) inserted or overwriting at every position, and every prefix
/// reach: 1 2
h_c01_core { mutate(tpl::CORE, tier(1, 2)); }
}
entry!{
/// seed scripts for every action and all its tags: same mutations with 1 free byte
/// reach: 1 2
h_c01_actions { mutate(tpl::ACTIONS, 1); }
}
entry!{
/// seed scripts for every test and all its tags: same mutations with 1 free byte
/// reach: 1 2
h_c01_tests { mutate(tpl::TESTS, 1); }
}
entry!{
/// seed scripts for expressions, functions, arrays and every variable namespace: same mutations with 1 free byte (thorough: 2)
/// reach: 1 2
h_c01_expr { mutate(tpl::EXPR, tier(1, 2)); }
}
fn token_soup(n: usize, vocab: &[&str]) {
    let mut s = String::from(*pick(&["", "if true { ", "if true {} ", "while true { if true {} ", "foreverypart { while true { ", "if true { stop; } elsif false { "]));
    for _ in 0..n { s.push_str(pick(vocab)); s.push(' '); }
    comp(s.as_bytes());
}
const V1: &[&str] = &["if", "elsif", "else", "true", "not", "allof", "anyof", "(", ")", ",", "{", "}", ";", "keep", "\"a\"", "[", "]", ":is", "header", "5", "while", "break", "foreverypart", "continue", "stop", "global", "let", "set"];
entry!{
/// after each of 6 openings: every sequence of 3 (thorough: 4) tokens over a 28-token vocabulary
/// reach: 1 2
h_c01_tokens { token_soup(tier(3, 4), V1); }
}
entry!{
/// expression source: every sequence of up to 4 (thorough: 6) tokens over a 15-token vocabulary
/// reach: 1 2
h_c01_exprtokens {
    const V: &[&str] = &["a", "1", "2.5", "'s'", "+", "-", "*", "(", ")", "&&", "!", "[", "]", ",", "len("];
    let n = choose(1 + tier(4, 6));
    let mut s = String::from("let \"v\" \"");
    for _ in 0..n { s.push_str(pick(V)); }
    s.push_str("\";");
    comp(s.as_bytes());
}
}
entry!{
/// expression source: up to 2 (thorough: 3) free bytes inside a quoted expression
/// reach: 1 2
h_c01_exprraw {
    let n = choose(1 + tier(2, 3));
    let mut s = b"let \"v\" \"".to_vec();
    s.extend_from_slice(&bytes(n));
    s.extend_from_slice(b"\";");
    comp(&s);
}
}
entry!{
/// variable reference source: up to 3 (thorough: 4) free bytes inside ${...}
/// reach: 1 2
h_c01_varraw {
    let pre = *pick(&["", "header.", "header.a[", "unicode:", "hex:", "envelope."]);
    let n = choose(1 + tier(3, 4));
    let mut s = b"require \"encoded-character\"; set \"v\" \"${".to_vec();
    s.extend_from_slice(pre.as_bytes());
    s.extend_from_slice(&bytes(n));
    s.extend_from_slice(b"}\";");
    comp(&s);
}
}
entry!{
/// numbers: up to 20 digits concrete prefix followed by 3 free bytes (digits, K/M/G suffixes, anything)
/// reach: 1 2
h_c01_numbers {
    let pre = *pick(&["", "9223372036854775", "922337203685477580", "1844674407370955161", "1844674407370955", "17179869183", "9007199254740992"]);
    let b = bytes(3);
    let mut s = b"if size :over ".to_vec();
    s.extend_from_slice(pre.as_bytes());
    s.extend_from_slice(&b);
    s.extend_from_slice(b" {}");
    comp(&s);
}
}
entry!{
/// :zone argument: 1 (thorough: 2) free bytes after a sign/digit prefix
/// reach: 1 2
h_c01_zone {
    let mut s = b"if currentdate :zone \"".to_vec();
    s.extend_from_slice(pick(&["", "+", "-0", "+14", "-12", "1", "140", "+120"]).as_bytes());
    s.extend_from_slice(&bytes(tier(1, 2)));
    s.extend_from_slice(b"\" \"hour\" \"1\" {}");
    comp(&s);
}
}
