//! C10: loops and the commands that leave them.
use crate::ast::*;
use crate::run::*;
use crate::vf::*;

const TWO: &[u8] = b"From: a@b.c\r\nContent-Type: multipart/mixed; boundary=x\r\n\r\n--x\r\nContent-Type: text/plain\r\n\r\none\r\n--x\r\nContent-Type: text/plain\r\n\r\ntwo\r\n--x--\r\n";
const TREE: &[&[usize]] = &[&[1, 2], &[], &[]];

/// nest of blocks around the statement `core`; kinds are chosen per level: if, while, foreverypart, named foreverypart, if/else
fn nest(levels: usize, n: &mut usize, core: &mut dyn FnMut(&[usize], bool) -> S, names: &mut Vec<usize>, inloop: bool) -> S {
    if levels == 0 { return core(names, inloop); }
    let id = *n; *n += 1;
    let k = choose(5);
    if k == 3 { names.push(id); }
    let inner = nest(levels - 1, n, core, names, inloop || matches!(k, 1..=3));
    let b = vec![S::Mark(10 * id + 1), inner, S::Mark(10 * id + 2)];
    match k {
        0 => S::If(vec![(T::Ev(id), b)], None),
        1 => S::While(id, 2, b),
        2 => S::For(None, b),
        3 => S::For(Some(id), b),
        _ => S::If(vec![(T::Ev(id), vec![S::Mark(10 * id + 3)])], Some(b)),
    }
}
fn leave(names: &[usize], inloop: bool, whiles: bool) -> S {
    match choose(4) {
        0 => if inloop { S::Break } else { S::Stop },
        1 => if whiles { S::Continue } else { S::Return },
        2 => if names.is_empty() { S::Stop } else { S::BreakTo(names[choose(names.len())]) },
        _ => S::Return,
    }
}
fn has_while(s: &S) -> bool { match s { S::While(..) => true, S::For(_, b) => b.iter().any(has_while), S::If(c, e) => c.iter().any(|x| x.1.iter().any(has_while)) || e.as_ref().map_or(false, |b| b.iter().any(has_while)), _ => false } }
fn go10(levels: usize, guard: bool, nb: usize) {
    let mut n = 1;
    // which statement leaves; continue needs an enclosing while, decided after the nest is known
    let mut names = vec![];
    let mut cont = false;
    let mut p = nest(levels, &mut n, &mut |nm, il| {
        let w = choose(5);
        let s = match w { 0 => if il { S::Break } else { S::Stop }, 1 => { cont = true; S::Continue } 2 => if nm.is_empty() { S::Stop } else { S::BreakTo(nm[choose(nm.len())]) }, 3 => S::Return, _ => S::Mark(7) };
        if guard { S::If(vec![(T::Ev(0), vec![S::Mark(8), s])], None) } else { s }
    }, &mut names, false);
    if cont && !has_while(&p) { p = S::While(9, 2, vec![p]); }
    let a: Vec<bool> = (0..nb).map(|_| bools()).collect();
    agree(&[p, S::Mark(99)], TWO, TREE, &a, &[]);
    reach(1);
    if cont { reach(2) }
}
entry!{
/// every nest of up to 2 blocks out of if, else, while (2 rounds), foreverypart, named foreverypart around a guarded break, break :name, continue, return or stop; message of 3 parts; first 4 (thorough: 8) test answers free, later ones false
/// reach: 1 2
h_c10_two { let l = 1 + choose(2); go10(l, true, tier(4, 8)); }
}
entry!{
/// every nest of 4 such blocks (thorough: 5), leaving statement unguarded, first 3 test answers free
/// reach: 1 2
h_c10_three { go10(tier(4, 5), false, 3); }
}
entry!{
/// every nest of 3 such blocks with a guarded leaving statement, first 5 (thorough: 8) test answers free
/// reach: 1 2
h_c10_three_guarded { go10(3, true, tier(5, 8)); }
}
