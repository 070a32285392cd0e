//! C12: structure of expressions: precedence, associativity, evaluation order, function calls.
use crate::run::*;
use crate::vf::*;

#[derive(Clone)]
enum X { V(usize), F(usize), C(i64), U(char, Box<X>), B(usize, Box<X>, Box<X>), P(Box<X>), G(usize, Box<X>, Box<X>) }
const OPS: &[(&str, u8)] = &[("*", 7), ("+", 6), ("-", 6), ("<", 5), (">=", 5), ("==", 4), ("!=", 4), ("^", 3), ("&&", 2), ("||", 1), ("<=", 5), (">", 5)];
fn prec(x: &X) -> u8 { match x { X::B(o, ..) => OPS[*o].1, _ => 9 } }
/// source text with the fewest parentheses (operators of equal precedence associate to the left)
fn show(x: &X, o: &mut String) {
    match x {
        X::V(i) => o.push_str(&format!("global.v{i}")),
        X::F(i) => o.push_str(&format!("f({i})")),
        X::C(n) => o.push_str(&n.to_string()),
        X::U(c, x) => { o.push(*c); paren(x, prec(x) < 9 || matches!(**x, X::U(..)), o) }
        X::P(x) => paren(x, true, o),
        X::G(_, a, b) => { o.push_str("g("); show(a, o); o.push_str(", "); show(b, o); o.push(')') }
        X::B(op, a, b) => { paren(a, prec(a) < OPS[*op].1, o); o.push_str(&format!(" {} ", OPS[*op].0)); paren(b, prec(b) <= OPS[*op].1 || matches!(**b, X::U(..)), o) }
    }
}
fn paren(x: &X, p: bool, o: &mut String) { if p { o.push('('); show(x, o); o.push(')') } else { show(x, o) } }
struct M<'a> { v: &'a [i64], calls: Vec<(u32, i64, i64)>, ret: &'a [i64] }
impl M<'_> {
    fn call(&mut self, id: u32, a: i64, b: i64) -> i64 { let n = self.calls.len(); self.calls.push((id, a, b)); self.ret.get(n).copied().unwrap_or(0) }
    fn eval(&mut self, x: &X) -> i64 {
        match x {
            X::V(i) => self.v[*i], X::C(n) => *n, X::P(x) => self.eval(x),
            X::F(i) => self.call(0, *i as i64, 0),
            X::G(_, a, b) => { let a = self.eval(a); let b = self.eval(b); self.call(1, a, b) }
            X::U('-', x) => -self.eval(x),
            X::U(_, x) => (self.eval(x) == 0) as i64,
            X::B(8 | 9, ..) | X::B(..) => if let X::B(o, a, b) = x { self.bin(*o, a, b) } else { 0 },
        }
    }
    fn bin(&mut self, o: usize, a: &X, b: &X) -> i64 {
        let l = self.eval(a);
        match OPS[o].0 {
            "&&" => return if l == 0 { 0 } else { (self.eval(b) != 0) as i64 },
            "||" => return if l != 0 { 1 } else { (self.eval(b) != 0) as i64 },
            _ => {}
        }
        let r = self.eval(b);
        match OPS[o].0 { "*" => l.saturating_mul(r), "+" => l + r, "-" => l - r, "<" => (l < r) as i64, ">=" => (l >= r) as i64, "<=" => (l <= r) as i64, ">" => (l > r) as i64, "==" => (l == r) as i64, "!=" => (l != r) as i64, _ => ((l != 0) != (r != 0)) as i64 }
    }
}
fn run(x: &X, v: &[i64], ret: &[i64], wrap: usize) {
    let mut e = String::new();
    show(x, &mut e);
    let src = match wrap { 0 => format!("let \"global.r\" \"{e}\";"), 1 => format!("if eval \"{e}\" {{ fileinto :copy \"T\"; }} else {{ fileinto :copy \"F\"; }}"), _ => format!("let \"global.n\" \"0\"; while \"global.n < 1 && ({e})\" {{ let \"global.n\" \"global.n + 1\"; fileinto :copy \"T\"; }} if eval \"global.n == 0\" {{ fileinto :copy \"F\"; }}") };
    note(&src);
    let mut fm = FunctionMap::new().with_external_function("f", 0, 1).with_external_function("g", 1, 2);
    let script = match Compiler::new().with_no_capability_check(true).register_functions(&mut fm).compile(src.as_bytes()) { Ok(s) => s, Err(er) => { note(&format!("{er}")); check(false, 4, "the expression compiles"); return } };
    let r = rt();
    let mut c = ctx(&r, MSG);
    for (i, n) in v.iter().enumerate() { c.set_global_variable(format!("v{i}"), Variable::Integer(*n)); }
    let mut calls = vec![];
    let t = run_with(&mut c, script, 30, &mut |e| {
        if let Event::Function { id, arguments } = e {
            let a = |i: usize| if let Some(Variable::Integer(n)) = arguments.get(i) { *n } else { 0 };
            calls.push((*id, a(0), a(1)));
            return Input::FncResult(Variable::Integer(ret.get(calls.len() - 1).copied().unwrap_or(0)));
        }
        Input::True
    });
    check(t.ended && t.err.is_none(), 1, "evaluation ends");
    let mut m = M { v, calls: vec![], ret };
    let w = m.eval(x);
    if wrap == 2 && w != 0 { // the second round of the loop does not evaluate the expression again
    }
    check(calls == m.calls, 2, "functions are called in order, with their arguments, and only when needed");
    if wrap == 0 {
        let g = c.global_variable("r").cloned().unwrap_or_default();
        if let Variable::Integer(n) = g { obs(n as u64); check(n == w, 3, "value of the expression"); } else { check(false, 3, "value of the expression"); }
    } else {
        let f = folders(&t);
        obs_bytes(f[0].as_bytes());
        check(f[0] == if w != 0 { "T" } else { "F" }, 3, "truth of the expression");
    }
}
fn small() -> i64 { (u8s() & 7) as i64 - 3 }
fn unary(x: X) -> X { match choose(3) { 0 => x, 1 => X::U('-', Box::new(x)), _ => X::U('!', Box::new(x)) } }
fn tree(ops: &mut dyn FnMut() -> usize, shape: usize, n: usize, leaf: &mut dyn FnMut() -> X) -> X {
    // all binary trees with n operators: left subtree gets shape % n operators
    if n == 0 { return leaf(); }
    let o = ops();
    let l = shape % n;
    let a = tree(ops, shape / n, l, leaf);
    let b = tree(ops, shape / n, n - 1 - l, leaf);
    X::B(o, Box::new(a), Box::new(b))
}
entry!{
/// every tree of two binary operators out of 12, operands variables with free values -3..4 or constants, optionally with unary - or ! before any operand, fewest possible parentheses
/// reach: 1
h_c12_two {
    let shape = choose(2);
    let v: Vec<i64> = (0..3).map(|_| small()).collect();
    let mut k = 0;
    let un = choose(4);
    let x = tree(&mut || choose(OPS.len()), shape, 2, &mut || { k += 1; let x = X::V(k - 1); if un == k { unary(x) } else { x } });
    run(&x, &v, &[], 0);
    reach(1);
}
}
entry!{
/// every tree of three binary operators, one of each precedence class, operands variables with free values -3..4; the whole or a subtree negated in some
/// reach: 1
h_c12_three {
    let cls = [0usize, 1, 2, 3, 5, 7, 8, 9];
    let shape = *pick(&[0, 1, 2, 3, 5]);
    let v: Vec<i64> = (0..4).map(|i| if i < tier(2, 3) { small() } else { [2i64, -1][i & 1] }).collect();
    let mut k = 0;
    let x = tree(&mut || *pick(&cls), shape, 3, &mut || { k += 1; X::V(k - 1) });
    let x = match (&x, choose(2)) { (X::B(o, a, b), 1) => X::B(*o, a.clone(), Box::new(X::U('!', b.clone()))), _ => x };
    run(&x, &v, &[], 0);
    reach(1);
}
}
entry!{
/// host functions as operands of two binary operators (also as arguments of each other), free answers -3..4: order of calls, short-circuit, resumption in let, if and while
/// reach: 1 2
h_c12_calls {
    let cls = [1usize, 2, 3, 8, 9, 7];
    let shape = choose(2);
    let v = [small()];
    let ret: Vec<i64> = (0..4).map(|_| small()).collect();
    let kind = choose(3);
    let mut k = 0;
    let x = tree(&mut || *pick(&cls), shape, 2, &mut || { k += 1; if kind == 1 && k == 2 { X::G(0, Box::new(X::F(k)), Box::new(X::V(0))) } else if kind == 2 && k == 1 { X::V(0) } else { X::F(k) } });
    let x = match choose(3) { 0 => x, 1 => X::U('!', Box::new(x)), _ => X::G(1, Box::new(X::C(5)), Box::new(x)) };
    let wrap = choose(3);
    run(&x, &v, &ret, wrap);
    if wrap == 0 { reach(1) } else { reach(2) }
}
}
entry!{
/// two calls in a row in separate statements and inside a loop over three rounds: each call is made once per evaluation, with the arguments of that evaluation
/// reach: 1
h_c12_repeat {
    let mut fm = FunctionMap::new().with_external_function("f", 7, 1);
    let r = rt();
    let src = "let \"global.i\" \"0\"; while \"global.i < 3 && f(global.i) > 0\" { let \"global.i\" \"global.i + 1\"; let \"global.s\" \"global.s + f(10 + global.i) * f(20)\"; }";
    let script = Compiler::new().with_no_capability_check(true).register_functions(&mut fm).compile(src.as_bytes()).unwrap();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("s", Variable::Integer(0));
    let ret: Vec<i64> = (0..9).map(|_| (u8s() & 3) as i64 - 1).collect();
    let mut calls = vec![];
    let t = run_with(&mut c, script, 60, &mut |e| { if let Event::Function { id, arguments } = e { calls.push((*id, if let Variable::Integer(n) = arguments[0] { n } else { -1 })); return Input::FncResult(Variable::Integer(ret.get(calls.len() - 1).copied().unwrap_or(0))); } Input::True });
    let (mut want, mut k, mut i, mut s) = (vec![], 0, 0i64, 0i64);
    let mut ans = |k: &mut usize| { *k += 1; ret.get(*k - 1).copied().unwrap_or(0) };
    while i < 3 {
        want.push((7, i));
        if ans(&mut k) <= 0 { break }
        i += 1;
        want.push((7, 10 + i)); let a = ans(&mut k);
        want.push((7, 20)); let b = ans(&mut k);
        s += a * b;
    }
    reach(1);
    check(t.ended && t.err.is_none(), 1, "ends");
    check(calls == want, 2, "calls in order");
    check(matches!(c.global_variable("s"), Some(Variable::Integer(n)) if *n == s), 3, "accumulated value");
}
}
entry!{
/// one operator in each of its 20 spellings (= == & && => =< ...), with or without spaces around it, operands plain, negated, doubly negated, in parentheses, constants or strings
/// reach: 1
h_c12_lex {
    let (a, b) = (small(), small());
    let form = |k: usize, n: &str, v: i64| -> (String, i64) { match k {
        0 => (n.to_string(), v), 1 => (format!("-{n}"), -v), 2 => (format!("--{n}"), v), 3 => (format!("!-{n}"), (v == 0) as i64), 4 => (format!("-!{n}"), -((v == 0) as i64)),
        5 => (format!("({n})"), v), 6 => (format!("-({n})"), -v), 7 => (format!("(-{n})"), -v), 8 => ("12".into(), 12), 9 => ("'3'".into(), 3), 10 => ("\\\"-2\\\"".into(), -2), 11 => ("true".into(), 1), _ => ("-5".into(), -5),
    } };
    let (l, lv) = form(choose(13), "global.v0", a);
    let (r, rv) = form(choose(13), "global.v1", b);
    let (o, w) = match choose(20) {
        0 => ("=", lv == rv), 1 => ("==", lv == rv), 2 => ("!=", lv != rv), 3 => ("<", lv < rv), 4 => (">", lv > rv), 5 => ("<=", lv <= rv), 6 => (">=", lv >= rv), 7 => ("=<", lv <= rv), 8 => ("=>", lv >= rv),
        9 => ("&", lv != 0 && rv != 0), 10 => ("&&", lv != 0 && rv != 0), 11 => ("|", lv != 0 || rv != 0), 12 => ("||", lv != 0 || rv != 0), 13 => ("^", (lv != 0) != (rv != 0)),
        14 => ("+", true), 15 => ("-", true), 16 => ("*", true), 17 => ("+ -", true), 18 => ("- -", true), _ => ("* -", true),
    };
    let strs = l.contains(&['\'', '"'][..]) as usize + r.contains(&['\'', '"'][..]) as usize;
    assume(strs == 0 || (strs == 1 && !o.starts_with('+'))); // + of a string is concatenation, two strings compare as text: see h_c11_str
    let e = match choose(3) { 0 => format!("{l}{o}{r}"), 1 => format!(" {l} {o} {r} "), _ => format!("{l} {o}{r}") };
    let w = match o { "+" => lv + rv, "-" => lv - rv, "*" => lv * rv, "+ -" => lv - rv, "- -" => lv + rv, "* -" => -(lv * rv), _ => w as i64 };
    // a string holding a number counts as true unless empty: values of strings here are never 0
    let src = format!("let \"global.r\" \"{e}\";");
    note(&src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("v0", Variable::Integer(a));
    c.set_global_variable("v1", Variable::Integer(b));
    match try_compile(src.as_bytes()) {
        Err(er) => { note(&format!("{er}")); check(false, 4, "the expression compiles") }
        Ok(s) => {
            let t = run_with(&mut c, s, 4, &mut reply_true);
            check(t.ended && t.err.is_none(), 1, "evaluation ends");
            reach(1);
            match c.global_variable("r") { Some(Variable::Integer(n)) => { obs(*n as u64); check(*n == w, 3, "value of the expression") } _ => check(false, 3, "value of the expression") }
        }
    }
}
}
entry!{
/// array constructors of 0-3 items in any of 7 forms, indexed by a free value or compared with another array; nested one level
/// reach: 1 2
h_c12_array {
    let a = small();
    let n = choose(4);
    let mut items = vec![];
    for _ in 0..n {
        items.push(match choose(7) { 0 => ("global.v0", a), 1 => ("-global.v0", -a), 2 => ("(global.v0 + 1)", a + 1), 3 => ("global.v0 - 1", a - 1), 4 => ("!global.v0", (a == 0) as i64), 5 => ("[4, global.v0][1]", a), _ => ("(2) * 3", 6) });
    }
    let txt: Vec<&str> = items.iter().map(|i| i.0).collect();
    let lit = format!("[{}]", txt.join(*pick(&[",", ", "])));
    let (e, w) = if choose_bool() {
        let k = choose(4);
        reach(1);
        (format!("{lit}[{k}]"), items.get(k).map(|i| i.1))
    } else {
        let k = choose(5);
        let vals: Vec<String> = items.iter().take(k).map(|i| i.1.to_string()).collect();
        reach(2);
        for i in items.iter() { assume(i.1 >= 0) }
        (format!("{lit} == [{}]", vals.join(", ")), Some((k >= n) as i64))
    };
    let src = format!("let \"global.r\" \"{e}\";");
    note(&src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("v0", Variable::Integer(a));
    match try_compile(src.as_bytes()) {
        Err(er) => { note(&format!("{er}")); check(false, 4, "the expression compiles") }
        Ok(s) => {
            let t = run_with(&mut c, s, 4, &mut reply_true);
            check(t.ended && t.err.is_none(), 1, "evaluation ends");
            match (c.global_variable("r"), w) {
                (Some(Variable::Integer(n)), Some(w)) => { obs(*n as u64); check(*n == w, 3, "value of the expression") }
                (Some(v), None) => check(v.is_empty(), 3, "an index past the end yields the empty value"),
                _ => check(false, 3, "value of the expression"),
            }
        }
    }
}
}
/// the grammar of expressions over tokens: v variable, 1 number, 's' string, f and g functions of one and two arguments
fn p_expr(t: &[&str], mut i: usize, d: usize) -> Option<usize> {
    loop {
        while matches!(t.get(i), Some(&"-" | &"!")) { i += 1 }
        let mut indexed = true;
        match *t.get(i)? {
            "global.v" => i += 1,
            "1" | "'s'" => { i += 1; indexed = false }
            "(" => { i = p_expr(t, i + 1, d + 1)?; if t.get(i) != Some(&")") { return None } i += 1 }
            "[" => { if t.get(i + 1) == Some(&"]") { i += 2 } else { let (j, _) = p_list(t, i + 1, d)?; if t.get(j) != Some(&"]") { return None } i = j + 1 } }
            n @ ("f" | "g") => { if t.get(i + 1) != Some(&"(") { return None } let (j, k) = p_list(t, i + 2, d)?; if t.get(j) != Some(&")") || k != if n == "f" { 1 } else { 2 } { return None } i = j + 1 }
            _ => return None,
        }
        while indexed && t.get(i) == Some(&"[") { i = p_expr(t, i + 1, d + 1)?; if t.get(i) != Some(&"]") { return None } i += 1 }
        match t.get(i) { Some(&"+" | &"-" | &"&&" | &"<=") => i += 1, _ => return Some(i) }
    }
}
fn p_list(t: &[&str], mut i: usize, d: usize) -> Option<(usize, usize)> {
    let mut n = 1;
    loop { i = p_expr(t, i, d + 1)?; if t.get(i) != Some(&",") { return Some((i, n)) } i += 1; n += 1 }
}
const TOK: [&str; 14] = ["1", "global.v", "'s'", "-", "!", "+", "&&", "(", ")", "[", "]", ",", "f", "g"];
fn accepts(t: &[&str]) {
    let wordy = |s: &str| s.as_bytes()[0].is_ascii_alphanumeric();
    let mut e = String::new();
    for w in t { if e.ends_with(|c: char| c.is_ascii_alphanumeric()) && wordy(w) { e.push(' ') } e.push_str(w) }
    let mut fm = FunctionMap::new().with_external_function("f", 7, 1).with_external_function("g", 8, 2);
    let src = match choose(3) { 0 => format!("let \"global.r\" \"{e}\";"), 1 => format!("if eval \"{e}\" {{ keep; }}"), _ => format!("while \"{e}\" {{ break; }}") };
    let want = t.is_empty() || p_expr(t, 0, 0) == Some(t.len());
    note(&src);
    let got = Compiler::new().with_no_capability_check(true).register_functions(&mut fm).compile(src.as_bytes()).is_ok();
    if want { reach(1) } else { reach(2) }
    obs(got as u64);
    check(got == want, 2, if want { "a well-formed expression compiles" } else { "a malformed expression is rejected" });
}
entry!{
/// every sequence of up to 3 (thorough: 4) out of 14 tokens (number, variable, string, - ! + &&, parentheses, brackets, comma, a function of one and one of two arguments), in let, if and while: accepted exactly if the grammar of expressions derives it
/// reach: 1 2
h_c12_syntax {
    let n = choose(tier(4, 5));
    let t: Vec<&str> = (0..n).map(|_| TOK[choose(14)]).collect();
    accepts(&t);
}
}
entry!{
/// one or two tokens removed from, added to, or replaced in 8 well-formed expressions (calls, arrays, indexes, nested parentheses), by any of 15 tokens
/// reach: 1 2
h_c12_broken {
    let mut t: Vec<&str> = pick(&["f ( - 1 )", "g ( 1 , global.v )", "[ 1 , 's' ]", "global.v [ 0 ]", "( 1 + - 1 ) && ! global.v", "[ f ( 1 ) ] [ 1 - 1 ]", "g ( ( 1 ) , [ ] )", "f ( global.v [ 1 ] ) + g ( 's' , 1 )"]).split(' ').collect();
    for w in t.iter_mut() { if *w == "0" { *w = "1" } }
    for _ in 0..tier(1, 2) {
        let i = choose(t.len());
        match choose(3) { 0 => { t.remove(i); } 1 => t.insert(i, if choose_bool() { "}" } else { TOK[choose(14)] }), _ => t[i] = TOK[choose(14)] }
    }
    accepts(&t);
}
}
entry!{
/// a string of up to 4 (thorough: 5) characters out of a n r t backslash and both quotes, in either kind of quotes, inside an expression: the value is the text with its escapes resolved; without an end it is an error
/// reach: 1 2
h_c12_string {
    let q = *pick(&['\'', '"']);
    let n = choose(tier(5, 6));
    let txt: String = (0..n).map(|_| *pick(&['a', 'n', 'r', 't', '\\', '\'', '"'])).collect();
    let (mut val, mut esc, mut closed) = (String::new(), false, false);
    for c in txt.chars() {
        if closed { assume(false) }
        if esc { val.push(match c { 'n' => '\n', 'r' => '\r', 't' => '\t', c => c }); esc = false }
        else if c == '\\' { esc = true }
        else if c == q { closed = true }
        else { val.push(c) }
    }
    assume(!closed);
    let lit = format!("{q}{txt}{q}").replace('\\', "\\\\").replace('"', "\\\"");
    let src = if choose_bool() { format!("let \"global.r\" \"{lit}\";") } else { format!("let \"global.r\" \"'' + {lit} \";") };
    note(&src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    match try_compile(src.as_bytes()) {
        Err(_) => { reach(2); check(esc, 4, "the expression compiles") }
        Ok(s) => {
            let t = run_with(&mut c, s, 4, &mut reply_true);
            check(t.ended && t.err.is_none(), 1, "evaluation ends");
            reach(1);
            check(!esc, 5, "a string without an end is an error");
            check(gstr(&c, "r").unwrap_or_default() == val, 3, "the text with its escapes resolved");
        }
    }
}
}
entry!{
/// a list of two or three items (variable, constant, call, or one of + && || ^ over these), as an array or as the arguments of a function, at top level or as the right side of + or &&, or inside another list, followed by more items: every item has its value, calls are made in order, and only those needed
/// reach: 1 2
h_c12_items {
    let v: Vec<i64> = (0..2).map(|_| small()).collect();
    let ret: Vec<i64> = (0..6).map(|_| small()).collect();
    let mut fm = FunctionMap::new().with_external_function("f", 0, 1).with_external_function("g", 1, 2).with_external_function("h", 2, 3);
    let n = choose(2) + 2;
    let items: Vec<X> = (0..n).map(|i| {
        let o = *pick(&[8usize, 9, 1, 7]);
        let l = |b: X| Box::new(b);
        match choose(5) {
            0 => X::C(5 + i as i64),
            1 => X::B(o, l(X::V(i % 2)), l(X::F(i))),
            2 => X::B(o, l(X::F(i)), l(X::V(i % 2))),
            3 => X::B(o, l(X::V(i % 2)), l(X::B(8, l(X::F(i)), l(X::F(i + 3))))),
            _ => X::U('!', l(X::B(o, l(X::C(i as i64 & 1)), l(X::F(i))))),
        }
    }).collect();
    let mut e = String::new();
    for (i, x) in items.iter().enumerate() { if i > 0 { e.push_str(", "); } show(x, &mut e); }
    let wrap = choose(5);
    let fnc = if n == 2 { "g" } else { "h" };
    let src = match wrap {
        0 => format!("let \"global.r\" \"[{e}]\";"),
        1 => format!("let \"global.r\" \"{fnc}({e})\";"),
        2 => format!("let \"global.r\" \"global.v0 && {fnc}({e})\";"),
        3 => format!("let \"global.r\" \"[[{e}], 9]\";"),
        _ => format!("let \"global.r\" \"[f(9) || 0, {fnc}({e}), 3]\";"),
    };
    note(&src);
    let script = match Compiler::new().with_no_capability_check(true).register_functions(&mut fm).compile(src.as_bytes()) { Ok(s) => s, Err(er) => { note(&format!("{er}")); check(false, 4, "the expression compiles"); return } };
    let r = rt();
    let mut c = ctx(&r, MSG);
    for (i, n) in v.iter().enumerate() { c.set_global_variable(format!("v{i}"), Variable::Integer(*n)); }
    let mut calls: Vec<(u32, Vec<i64>)> = vec![];
    let t = run_with(&mut c, script, 30, &mut |e| {
        if let Event::Function { id, arguments } = e {
            calls.push((*id, arguments.iter().map(|a| if let Variable::Integer(n) = a { *n } else { -99 }).collect()));
            return Input::FncResult(Variable::Integer(ret.get(calls.len() - 1).copied().unwrap_or(0)));
        }
        Input::True
    });
    check(t.ended && t.err.is_none(), 1, "evaluation ends");
    let mut m = M { v: &v, calls: vec![], ret: &ret };
    let mut w: Vec<(u32, Vec<i64>)> = vec![];
    // the calls made outside the list, then those of the items, then the function itself
    let skip = wrap == 2 && v[0] == 0;
    let first = if wrap == 4 { (m.call(0, 9, 0) != 0) as i64 } else { 0 };
    let vals: Vec<i64> = if skip { vec![] } else { items.iter().map(|x| m.eval(x)).collect() };
    for (id, a, b) in &m.calls { w.push((*id, if *id == 0 { vec![*a] } else { vec![*a, *b] })); }
    let res = if !skip && matches!(wrap, 1 | 2 | 4) { w.push((n as u32 - 1, vals.clone())); ret.get(w.len() - 1).copied().unwrap_or(0) } else { 0 };
    if skip { reach(2) } else { reach(1) }
    check(calls == w, 2, "functions are called in order, with their arguments, and only when needed");
    fn flat(v: &Variable, o: &mut Vec<i64>) { match v { Variable::Integer(n) => o.push(*n), Variable::Array(a) => { for v in a.iter() { flat(v, o) } } _ => o.push(-99) } }
    let mut g = vec![];
    if let Some(v) = c.global_variable("r") { flat(v, &mut g) }
    let w = match wrap { 0 => vals, 1 => vec![res], 2 => vec![(res != 0) as i64], 3 => { let mut v = vals; v.push(9); v } _ => vec![first, res, 3] };
    for n in &g { obs(*n as u64) }
    check(g == w, 3, "every item has its value");
}
}
