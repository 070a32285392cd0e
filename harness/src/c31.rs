//! C31: local variables live in the block that first sets them, :local ones in the script; blocks start empty.
use crate::run::*;
use crate::vf::*;

/// Reference scoping, decided by the text: a name first set in a block belongs to that block (or to the script with
/// :local) from there on, a name already known there is assigned in place; reading an unknown name gives nothing; the
/// variables of a block are emptied when it ends.
struct Sc { scopes: Vec<Vec<(String, usize)>>, n: usize }
enum R { Set(usize, usize, Option<Option<usize>>), Show([Option<usize>; 3]), Block(u8, usize, Vec<R>, Vec<usize>) }
impl Sc {
    fn new() -> Sc { Sc { scopes: vec![vec![]], n: 0 } }
    fn find(&self, n: &str) -> Option<usize> { self.scopes.iter().rev().flat_map(|s| s.iter()).find(|(k, _)| k == n).map(|x| x.1) }
    fn reg(&mut self, n: &str, local: bool) -> usize {
        if let Some(x) = self.find(n) { return x }
        let i = if local { 0 } else { self.scopes.len() - 1 };
        self.n += 1;
        self.scopes[i].push((n.to_string(), self.n - 1));
        self.n - 1
    }
    fn resolve(&mut self, v: &[I]) -> Vec<R> {
        v.iter().map(|i| match i {
            I::Set(n, l, c, r) => { let id = self.reg(N[*n], *l); R::Set(id, *c, r.map(|r| self.find(N[r]))) }
            I::Show => R::Show([self.find("a"), self.find("b"), self.find("c")]),
            I::Block(k, b, v) => { self.scopes.push(vec![]); let r = self.resolve(v); let o = self.scopes.pop().unwrap(); R::Block(*k, *b, r, o.into_iter().map(|x| x.1).collect()) }
        }).collect()
    }
}
enum I { Set(usize, bool, usize, Option<usize>), Show, Block(u8, usize, Vec<I>) }
const N: [&str; 3] = ["a", "b", "c"];
fn src(v: &[I], k: &mut usize, o: &mut String) {
    for i in v {
        match i {
            I::Set(n, l, c, r) => o.push_str(&format!("set {}\"{}\" \"{c}{}\"; ", if *l { ":local " } else { "" }, N[*n], r.map_or(String::new(), |r| format!("${{{}}}", N[r])))),
            I::Show => o.push_str("fileinto :copy \"[${a}|${b}|${c}]\"; "),
            I::Block(kind, bit, b) => {
                match kind {
                    0 => o.push_str(&format!("if eval \"global.b{bit} == 1\" {{ ")),
                    1 => o.push_str(&format!("if eval \"global.b{bit} == 1\" {{ stop; }} else {{ ")),
                    2 => { *k += 1; o.push_str(&format!("let \"global.i{k}\" \"0\"; while \"global.i{k} < 2\" {{ let \"global.i{k}\" \"global.i{k} + 1\"; ")) }
                    _ => o.push_str("foreverypart { "),
                }
                src(b, k, o);
                o.push_str("} ");
            }
        }
    }
}
/// false = stopped
fn exec(v: &[R], m: &mut Vec<String>, bits: &[bool], out: &mut Vec<String>, infor: bool) -> bool {
    for i in v {
        match i {
            R::Set(id, c, r) => m[*id] = format!("{c}{}", r.flatten().map_or("", |r| &m[r])),
            R::Show(s) => { let g = |k: usize| s[k].map_or("", |i| &m[i]); out.push(format!("[{}|{}|{}]", g(0), g(1), g(2))) }
            R::Block(kind, bit, b, own) => {
                let n = match kind { 0 => bits[*bit] as usize, 1 => { if bits[*bit] { return false } 1 } 2 => 2, _ => !infor as usize /* the message has one part */ };
                for _ in 0..n { if !exec(b, m, bits, out, infor || *kind == 3) { return false } for i in own { m[*i].clear() } }
            }
        }
    }
    true
}
fn run(p: Vec<I>) {
    let mut t = String::new();
    src(&p, &mut 0, &mut t);
    note(&t);
    let bits = [bools(), bools(), bools()];
    let r = rt();
    let mut c = ctx(&r, MSG);
    for (i, b) in bits.iter().enumerate() { c.set_global_variable(format!("b{i}"), Variable::Integer(*b as i64)); }
    let tr = run_with(&mut c, compile(&t), 60, &mut reply_true);
    check(tr.ended && tr.err.is_none(), 1, "runs without error");
    let mut s = Sc::new();
    let p = s.resolve(&p);
    let mut w = vec![];
    let ended = exec(&p, &mut vec![String::new(); s.n], &bits, &mut w, false);
    w.push("INBOX".into());
    let f = folders(&tr);
    for x in &f { obs_bytes(x.as_bytes()) }
    check(f == w, 2, "every read sees the last value set in its scope");
    if ended { reach(1) } else { reach(2) }
}
fn aset(c: usize) -> I { let n = choose(3); let l = choose_bool(); I::Set(n, l, c, if choose_bool() { Some((n + 1) % 3) } else { None }) }
fn show(v: Vec<I>) -> Vec<I> { let mut o = vec![]; for i in v { let s = matches!(i, I::Set(..)); o.push(i); if s { o.push(I::Show) } } o }
entry!{
/// set; block { set; block { set } set } set with blocks of 4 kinds (if, else, while of two rounds, foreverypart), any of three names, plain or :local, values built from each other; conditions free; all names shown after each set
/// reach: 1 2
h_c31_nest {
    let (k1, k2) = (choose(4) as u8, choose(4) as u8);
    let inner = show(vec![aset(3)]);
    let mid = vec![show(vec![aset(2)]), vec![I::Block(k2, 1, inner)], show(vec![aset(4)])].into_iter().flatten().collect();
    let first = I::Set(0, false, 1, None);
    run(vec![first, I::Block(k1, 0, mid), I::Show, I::Set(choose(3), false, 5, Some(1)), I::Show]);
}
}
entry!{
/// two or three blocks after one another, each setting one or two names: slots of an ended block are empty again for the next one
/// reach: 1
h_c31_seq {
    let mut p = vec![];
    let nb = tier(2, 3);
    for b in 0..nb {
        let kind = *pick(&[0u8, 2, 3]);
        let mut v = vec![];
        // a variable is read before it gets its value in this block: through its own value
        let n = choose(3);
        v.push(I::Set(n, choose_bool(), b + 1, Some(n)));
        if choose_bool() { let m = (n + 1) % 3; v.push(I::Set(m, choose_bool(), b + 6, Some(m))); }
        p.push(I::Block(kind, b, show(v)));
        if choose_bool() { p.push(I::Set(choose(3), false, 9, None)); }
        p.push(I::Show);
    }
    run(p);
}
}
entry!{
/// three levels of blocks, one name set at each level (any of three, plain or :local at the innermost), all shown on the way out
/// reach: 1 2
h_c31_deep {
    let k: Vec<u8> = (0..3).map(|i| if i == 1 { *pick(&[0u8, 2]) } else { *pick(&[0u8, 1, 3]) }).collect();
    let l = choose_bool();
    let n: Vec<usize> = (0..5).map(|_| choose(3)).collect();
    let b3 = vec![I::Set(n[2], l, 3, Some(n[1])), I::Show];
    let b2 = vec![I::Set(n[1], false, 2, Some(n[0])), I::Show, I::Block(k[2], 2, b3), I::Show];
    let b1 = vec![I::Set(n[0], false, 1, None), I::Block(k[1], 1, b2), I::Show, I::Set(n[3], false, 4, Some(n[4])), I::Show];
    run(vec![I::Block(k[0], 0, b1), I::Show]);
}
}
entry!{
/// variables of an including script and of an included one never mix, nor do their match variables; values of the includer are back afterwards
/// reach: 1
h_c31_include {
    let x = alpha(1, b"xy");
    let names = ["a", "b"];
    let (n1, n2, n3) = (choose(2), choose(2), choose(2));
    let l = choose_bool();
    let im = choose(3); // match tests of the included script: none, one, one with more variables than the includer has
    let main = format!("set \"{}\" \"M${{global.x}}\"; if string :matches \"pq\" \"p*\" {{ set \"m\" \"${{1}}\"; include \"s\"; fileinto :copy \"[${{a}}|${{b}}|${{1}}|${{m}}]\"; }}", names[n1]);
    let inc = format!("fileinto :copy \"[${{a}}|${{b}}]\"; if true {{ set {}\"{}\" \"I\"; }} set \"{}\" \"J${{{}}}\"; {} {{ fileinto :copy \"[${{a}}|${{b}}|${{1}}]\"; }}", if l { ":local " } else { "" }, names[n2], names[n3], names[n2], ["if true", "if string :matches \"uv\" \"u*\"", "if string :matches \"uvw\" \"u?*\""][im]);
    note(&main); note(&inc);
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("x", x.clone());
    let s2 = compile(&inc);
    let mut asked = 0;
    let t = run_with(&mut c, compile(&main), 30, &mut |e| if let Event::IncludeScript { .. } = e { asked += 1; Input::script("s", s2.clone()) } else { Input::True });
    check(asked == 1 && t.ended && t.err.is_none(), 1, "runs without error");
    let mut iv = [String::new(), String::new()];
    if l { iv[n2] = "I".into() }
    let prev = iv[n2].clone();
    iv[n3] = format!("J{prev}");
    let m = format!("M{x}");
    let w = vec!["[|]".to_string(), format!("[{}|{}|{}]", iv[0], iv[1], ["", "v", "v"][im]), format!("[{}|{}|q|q]", if n1 == 0 { &m } else { "" }, if n1 == 1 { &m } else { "" }), "INBOX".into()];
    let f = folders(&t);
    for x in &f { obs_bytes(x.as_bytes()); note(x) }
    reach(1);
    check(f == w, 2, "variables stay in their script");
}
}
entry!{
/// a self-extending variable in a while of three rounds (in an outer one of two) left early by break or continue: each round starts with the variable empty
/// reach: 1
h_c31_jump {
    let jump = *pick(&["break", "continue"]);
    let ask: Vec<bool> = (0..6).map(|_| bools()).collect();
    let src = format!("let \"global.o\" \"0\"; while \"global.o < 2\" {{ let \"global.o\" \"global.o + 1\"; let \"global.i\" \"0\"; while \"global.i < 3\" {{ let \"global.i\" \"global.i + 1\"; set \"a\" \"x${{a}}\"; fileinto :copy \"${{a}}\"; if mailboxexists \"q\" {{ {jump}; }} fileinto :copy \"n\"; }} fileinto :copy \"o\"; }}");
    note(&src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    let mut k = 0;
    let t = run_with(&mut c, compile(&src), 60, &mut |e| if let Event::MailboxExists { .. } = e { k += 1; if ask.get(k - 1).copied().unwrap_or(false) { Input::True } else { Input::False } } else { Input::True });
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let model = |keep: bool| -> Vec<String> {
        let (mut w, mut k, mut a) = (vec![], 0, String::new());
        for _ in 0..2 {
            for _ in 0..3 {
                a = format!("x{a}");
                w.push(a.clone());
                k += 1;
                let j = ask.get(k - 1).copied().unwrap_or(false);
                if j && !keep { a.clear() }
                if j && jump == "break" { break }
                if j { continue }
                w.push("n".into());
                a.clear();
            }
            w.push("o".into());
        }
        w.push("INBOX".into());
        w
    };
    reach(1);
    let f = folders(&t);
    for x in &f { obs_bytes(x.as_bytes()) }
    if f != model(false) { check(f != model(true), 20, "break and continue leave the variables of the block as they are"); }
    check(f == model(false) || f == model(true), 2, "every read sees the last value set in its scope");
}
}
entry!{
/// one to six variables set in one block (any kind, two rounds in a while), with or without a variable of an outer block before it and a second block with as many variables after it: every one is empty when the block starts
/// reach: 1
h_c31_wide {
    const V: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
    let n = choose(6) + 1;
    let kind = choose(3);
    let outer = choose(3);
    let again = choose_bool();
    let x = alpha(1, b"xy");
    let mut src = String::new();
    let mut pre = String::new();
    if outer > 0 { src.push_str("if true { set \"o\" \"O\"; "); pre = "O".into() }
    if outer > 1 { src.push_str("set \"p\" \"P\"; "); }
    let open = ["if true { ", "let \"global.i\" \"0\"; while \"global.i < 2\" { let \"global.i\" \"global.i + 1\"; ", "foreverypart { "][kind];
    let mut body = String::new();
    for v in &V[..n] { body.push_str(&format!("set \"{v}\" \"${{{v}}}{v}${{global.x}}\"; ")) }
    let all: String = V[..n].iter().map(|v| format!("${{{v}}}|")).collect();
    body.push_str(&format!("fileinto :copy \"{all}${{o}}\"; }} "));
    for _ in 0..1 + again as usize { src.push_str(open); src.push_str(&body); }
    src.push_str("fileinto :copy \"${o}${p}.\"; ");
    if outer > 0 { src.push_str("} ") }
    note(&src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("x", x.clone());
    let t = run_with(&mut c, compile(&src), 40, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let one = format!("{}{pre}", V[..n].iter().map(|v| format!("{v}{x}|")).collect::<String>());
    let mut w = vec![];
    for _ in 0..(1 + again as usize) * if kind == 1 { 2 } else { 1 } { w.push(one.clone()) }
    w.push(format!("{pre}{}.", if outer > 1 { "P" } else { "" }));
    w.push("INBOX".into());
    let f = folders(&t);
    for x in &f { obs_bytes(x.as_bytes()); note(x) }
    reach(1);
    check(f == w, 2, "every variable of a block starts empty");
}
}
entry!{
/// a variable named in any case wherever it is declared (global, set, set :local in a block, let), set again, and read (as local name, through the global namespace, in an expression or by the script it is shared with), letters written in upper or lower case at each place
/// reach: 1 2
h_c31_case {
    let nm = |k: usize| ["abc", "ABC", "aBc"][k];
    let n: Vec<&str> = (0..4).map(|_| nm(choose(3))).collect();
    let kind = choose(5);
    let decl = match kind { 0 => String::new(), 1 => format!("global \"{}\"; ", n[0]), 2 => format!("global [\"other\", \"{}\"]; ", n[0]), 3 => format!("set \"{}\" \"old\"; ", n[0]), _ => format!("if true {{ set :local \"{}\" \"old\"; }} ", n[0]) };
    let set = match choose(4) { 0 => format!("set \"{}\" \"v\"; ", n[1]), 1 => format!("let \"{}\" \"'v'\"; ", n[1]), 2 => format!("set \"global.{}\" \"v\"; ", n[1]), _ => format!("if true {{ set \"{}\" \"v\"; }} ", n[1]) };
    // an expression takes known names only
    let unknown = kind == 0 && (set.contains("global.") || set.starts_with("if"));
    let src = format!("{decl}{set}fileinto :copy \"1${{{}}}\"; fileinto :copy \"2${{global.{}}}\"; let \"x\" \"{} + 1\"; fileinto :copy \"3${{x}}\"; include \"s\"; discard;", n[2], n[2], if unknown { format!("global.{}", n[3]) } else { n[3].to_string() });
    note(&src);
    let isglobal = kind == 1 || kind == 2;
    let viaglobal = set.contains("global.");
    let inblock = set.starts_with("if");
    // a variable first named in a block is not there after it
    let local = if isglobal { "v" } else if viaglobal { if kind == 0 { "" } else { "old" } } else if inblock && kind == 0 { "" } else { "v" };
    let glob = if isglobal || viaglobal { "v" } else { "" };
    let r = rt();
    let mut c = ctx(&r, MSG);
    let inc = format!("global \"{}\"; fileinto :copy \"4${{{}}}\";", n[3], n[0]);
    let t = run_with(&mut c, compile(&src), 20, &mut |e| match e { Event::IncludeScript { name, .. } => Input::script(name.clone(), compile(&inc)), _ => Input::True });
    obs_trace(&t);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    reach(if isglobal || viaglobal { 1 } else { 2 });
    let f = folders(&t);
    for x in &f { note(x) }
    check(f[0] == format!("1{local}"), 2, "the variable, whatever its case");
    check(f[1] == format!("2{glob}"), 3, "the global variable, whatever its case");
    check(f[2] == format!("3{}1", if unknown { glob } else { local }), 4, "the variable in an expression, whatever its case");
    check(f[3] == format!("4{glob}"), 5, "the global variable in another script");
}
}

entry!{
/// a variable set at any level of up to 6 (thorough: 10) nested blocks (if, else or a loop over parts outermost), another set at a level of its own, both read at every level below: the value is there at every depth, and gone outside
/// reach: 1
h_c31_depth {
    let n = tier(6, 10);
    let (i, j) = (choose(n + 1), choose(n + 1));
    let outer = choose(3);
    let local = choose_bool();
    let mut s = String::new();
    let mut w: Vec<String> = vec![];
    let put = |l: usize, s: &mut String| {
        if l == i { s.push_str("set \"a\" \"1\"; ") }
        if l == j { s.push_str(&format!("set {}\"b\" \"2${{a}}\"; ", if local { ":local " } else { "" })) }
        s.push_str(&format!("fileinto :copy \"{l}[${{a}}|${{b}}]\"; "));
    };
    let va = |l: usize| if l >= i { "1" } else { "" };
    let vb = |l: usize| if l < j { String::new() } else { format!("2{}", if i <= j { "1" } else { "" }) };
    put(0, &mut s);
    w.push(format!("0[{}|{}]", va(0), vb(0)));
    for l in 1..=n {
        s.push_str(match (l, outer) { (1, 1) => "if false { stop; } else { ", (1, 2) => "foreverypart { ", _ => "if true { " });
        put(l, &mut s);
        w.push(format!("{l}[{}|{}]", va(l), vb(l)));
    }
    for _ in 0..n { s.push_str("} ") }
    s.push_str("fileinto :copy \"end[${a}|${b}]\";");
    // :local belongs to the whole script
    w.push(format!("end[{}|{}]", if i == 0 { "1" } else { "" }, if j == 0 || local { vb(n) } else { String::new() }));
    w.push("INBOX".into());
    note(&s);
    let t = go(&rt(), MSG, &s);
    let f = folders(&t);
    for x in &f { obs_bytes(x.as_bytes()) }
    reach(1);
    check(t.err.is_none() && f == w, 2, "every read sees the last value set in its scope");
}
}
entry!{
/// the 29 actions and 47 tests of C30 with each argument given through a variable set with :local in an ended block, in a block around, or two blocks up while others are set: they act as with the value itself
/// reach: 1
h_c31_uses {
    let act = choose_bool();
    let t = if act { crate::c30::tpl(pick(crate::c30::ACT)) } else { crate::c30::tpl(&format!("setflag \"lst\" \"fa\"; if {} {{ fileinto :copy \"T\"; }} else {{ fileinto :copy \"F\"; }}", pick(crate::c30::TST))) };
    let slot = choose(t.slots.len());
    let r = crate::c30::runtime();
    let v = t.slots[slot].clone();
    let a = crate::c30::go_with(&r, crate::c30::MSG2, &t.fill(usize::MAX, ""), &v);
    let b = crate::c30::go_with(&r, crate::c30::MSG2, &crate::c30::via(&t, slot, *pick(&[2usize, 3, 8])), &v);
    crate::c30::obs_norm(&b);
    reach(1);
    check(crate::c30::norm(&a) == crate::c30::norm(&b), 3, "a local variable is known wherever an argument can be");
}
}
