//! C09: conditionals.
use crate::ast::*;
use crate::run::*;
use crate::vf::*;

fn leaf(n: &mut usize, kinds: usize) -> T {
    let i = *n; *n += 1;
    match choose(kinds) { 0 => T::Ev(i), 1 => T::Var(i), 2 => T::Eval(i), 3 => T::Lit(true), _ => T::Lit(false) }
}
fn tree(d: usize, ar: usize, n: &mut usize, kinds: usize) -> T {
    let neg = choose_bool();
    let t = match if d == 0 { 0 } else { choose(3) } {
        0 => leaf(n, kinds),
        k => { let m = 1 + choose(ar); let v = (0..m).map(|_| tree(d - 1, ar.min(2), n, kinds)).collect(); if k == 1 { T::All(v) } else { T::Any(v) } }
    };
    if neg { T::Not(Box::new(t)) } else { t }
}
fn bits(n: usize) -> Vec<bool> { (0..n).map(|_| bools()).collect() }
fn run(prog: Vec<S>, nb: usize) {
    let (a, b) = (bits(nb), bits(nb));
    agree(&prog, MSG, &[&[]], &a, &b);
}
fn decide(t: T, n: usize) {
    run(vec![S::If(vec![(t, vec![S::Mark(1)])], Some(vec![S::Mark(2)])), S::Mark(3)], n);
    reach(1);
}
entry!{
/// one test: optional not, allof/anyof of up to 3 leaves (each optionally negated) out of external test, string test, expression test, true, false; all answers
/// reach: 1
h_c09_flat { let mut n = 0; let t = tree(1, tier(2, 3), &mut n, 5); decide(t, 6); }
}
entry!{
/// nested tests: allof/anyof/not to depth 2 with up to 2 operands each, leaves are external tests with free answers (so the order of evaluation shows); every tree
/// reach: 1
h_c09_nested { let mut n = 0; let t = tree(2, 2, &mut n, tier(1, 1)); decide(t, 4); }
}
entry!{
/// random-access into depth 3: not/allof/anyof chains of one operand to depth 4 ending in two leaves
/// reach: 1
h_c09_deep {
    let mut t = { let m = 2; let v: Vec<T> = (0..m).map(|i| if choose_bool() { T::Not(Box::new(T::Ev(i))) } else { T::Ev(i) }).collect(); if choose_bool() { T::All(v) } else { T::Any(v) } };
    let mut k = 2;
    for _ in 0..tier(2, 4) {
        let mut v = vec![t];
        match choose(3) { 0 => { v.push(T::Ev(k)); k += 1 } 1 => { v.insert(0, T::Ev(k)); k += 1 } _ => {} }
        t = if choose_bool() { T::All(v) } else { T::Any(v) };
        if choose_bool() { t = T::Not(Box::new(t)); }
    }
    decide(t, 6);
}
}
fn cond(n: &mut usize) -> T {
    let i = *n;
    match choose(3) {
        0 => { *n += 1; T::Ev(i) }
        1 => { *n += 1; T::Not(Box::new(T::Var(i))) }
        _ => { *n += 2; T::Any(vec![T::Ev(i), T::Eval(i + 1)]) }
    }
}
fn body(d: usize, n: &mut usize, m: &mut usize) -> Vec<S> {
    let i = *m; *m += 1;
    match choose(if d == 0 { 3 } else { 4 }) { 0 => vec![S::Mark(i)], 1 => vec![], 2 => vec![S::Mark(i), S::Stop], _ => { let c = chain(d - 1, 1, n, m); vec![c, S::Mark(i)] } }
}
fn chain(d: usize, maxelsif: usize, n: &mut usize, m: &mut usize) -> S {
    let k = 1 + choose(maxelsif + 1);
    let mut v = vec![];
    for _ in 0..k { let t = cond(n); let b = body(d, n, m); v.push((t, b)); }
    let e = if choose_bool() { Some(body(d, n, m)) } else { None };
    S::If(v, e)
}
entry!{
/// if / up to 2 elsif / else chains; bodies are empty, an action, an action and stop
/// reach: 1
h_c09_chain {
    let (mut n, mut m) = (0, 0);
    let c = chain(0, tier(1, 2), &mut n, &mut m);
    run(vec![S::Mark(90), c, S::Mark(91)], 6);
    reach(1);
}
}
entry!{
/// two levels of if/elsif/else inside each other and a second chain after the first
/// reach: 1
h_c09_inner {
    let i = |d: Vec<S>, k: usize, e: usize| S::If(vec![(T::Ev(k), d), (T::Ev(k + 1), vec![S::Mark(k + 1)])], match e { 0 => None, _ => Some(vec![S::Mark(k + 2)]) });
    let plain = |k: usize, e: usize| S::If(vec![(T::Ev(k), vec![S::Mark(k)])], match e { 0 => None, _ => Some(vec![S::Mark(k + 2)]) });
    let inner = match choose(4) { 0 => vec![plain(10, choose(2))], 1 => vec![i(vec![S::Mark(10)], 10, choose(2))], 2 => vec![plain(10, 1), plain(20, choose(2))], _ => vec![i(vec![S::Stop], 10, 1), S::Mark(19)] };
    let outer = match choose(3) {
        0 => S::If(vec![(T::Ev(0), inner), (T::Ev(1), vec![S::Mark(1)])], if choose_bool() { Some(vec![S::Mark(2)]) } else { None }),
        1 => S::If(vec![(T::Ev(0), vec![S::Mark(0)]), (T::Ev(1), inner)], if choose_bool() { Some(vec![S::Mark(2)]) } else { None }),
        _ => S::If(vec![(T::Ev(0), vec![S::Mark(0)])], Some(inner)),
    };
    let tail = match choose(2) { 0 => vec![], _ => vec![plain(30, 1)] };
    let mut p = vec![outer]; p.extend(tail); p.push(S::Mark(91));
    run(p, 6);
    reach(1);
}
}
entry!{
/// elsif and else are accepted only directly after the block of an if or elsif: all sequences of up to 4 statements over {if, elsif, else, keep}, at top level and inside a block of each kind
/// reach: 1 2
h_c09_placement {
    let n = 1 + choose(4);
    let outer = choose(5);
    let (mut src, mut ok, mut open) = (String::new(), true, false);
    for _ in 0..n {
        match choose(4) {
            0 => { src.push_str("if true { } "); open = true }
            1 => { src.push_str("elsif true { } "); ok &= open; }
            2 => { src.push_str("else { } "); ok &= open; open = false }
            _ => { src.push_str("keep; "); open = false }
        }
    }
    let full = match outer { 0 => src, 1 => format!("if true {{ {src} }}"), 2 => format!("if true {{ }} elsif true {{ {src} }}"), 3 => format!("if true {{ }} else {{ {src} }} keep;"), _ => format!("while \"0\" {{ {src} }}") };
    note(&full);
    let got = compiles(&full);
    obs(got as u64);
    if ok { reach(1) } else { reach(2) }
    check(got == ok, 4, "elsif/else need a preceding if or elsif block in the same block");
}
}
entry!{
/// chains of if, up to 7 elsif (thorough: 9) and an optional else with external tests, inside nothing, an if, an else or a loop; one body may stop; all answers
/// reach: 1
h_c09_long {
    let k = 1 + choose(tier(8, 10));
    let stop = *pick(&[0, k / 2, k - 1, k]);
    let v: Vec<_> = (0..k).map(|i| (T::Ev(i), if i == stop { vec![S::Mark(i), S::Stop] } else { vec![S::Mark(i)] })).collect();
    let c = S::If(v, if choose_bool() { Some(vec![S::Mark(50)]) } else { None });
    let p = match choose(4) {
        0 => vec![c],
        1 => vec![S::If(vec![(T::Ev(20), vec![c, S::Mark(70)])], None)],
        2 => vec![S::If(vec![(T::Ev(20), vec![]), (T::Ev(21), vec![])], Some(vec![c, S::Mark(70)]))],
        _ => vec![S::While(0, 2, vec![c, S::Mark(70)])],
    };
    let mut p = p;
    p.push(S::Mark(91));
    run(p, 2);
    reach(1);
}
}
