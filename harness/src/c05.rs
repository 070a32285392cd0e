//! C05: include runs the named script in place: once, return, stop, errors and the nesting limit.
use crate::run::*;
use crate::vf::*;

#[derive(Clone)]
enum S { File(String), Inc { to: usize, once: bool, global: bool }, Ret, Stop, If(usize, Vec<S>), Part(Vec<S>), Twice(Vec<S>), Err }
const NAMES: [&str; 4] = ["main", "s1", "s2", "s3"];
fn text(v: &[S], o: &mut String, k: &mut usize) {
    for s in v {
        match s {
            S::File(f) => o.push_str(&format!("fileinto :copy \"{f}\"; ")),
            S::Inc { to, once, global } => o.push_str(&format!("include {}{}\"{}\"; ", if *global { ":global " } else { "" }, if *once { ":once " } else { "" }, NAMES[*to])),
            S::Ret => o.push_str("return; "),
            S::Stop => o.push_str("stop; "),
            S::Err => o.push_str("error \"e\"; "),
            S::If(b, v) => { o.push_str(&format!("if eval \"global.b{b} == 1\" {{ ")); text(v, o, k); o.push_str("} ") }
            S::Part(v) => { o.push_str("foreverypart { "); text(v, o, k); o.push_str("} ") }
            S::Twice(v) => { *k += 1; let n = *k; o.push_str(&format!("let \"global.w{n}\" \"0\"; while \"global.w{n} < 2\" {{ let \"global.w{n}\" \"global.w{n} + 1\"; ")); text(v, o, k); o.push_str("} ") }
        }
    }
}
#[derive(PartialEq, Clone, Copy)]
enum End { Next, Ret, Stop, TooDeep, Error }
/// reference: `asked` = scripts the host was asked for; an error of a script ends the run with the keep still to come
struct M<'a> { sc: &'a [Vec<S>], bits: &'a [bool], max: usize, have: Vec<(usize, bool)>, host: u8, out: Vec<String>, asked: Vec<(usize, bool)>, fuel: usize, in_part: bool }
impl M<'_> {
    fn run(&mut self, v: &[S], depth: usize) -> End {
        for s in v {
            if self.fuel == 0 { return End::Stop }
            self.fuel -= 1;
            let e = match s {
                S::File(f) => { self.out.push(f.clone()); End::Next }
                S::Ret => End::Ret,
                S::Stop => End::Stop,
                S::Err => End::Error,
                S::If(b, v) => if self.bits[*b] { self.run(v, depth) } else { End::Next },
                S::Part(v) => if self.in_part { End::Next } else { self.in_part = true; let e = self.run(v, depth); self.in_part = false; e },
                S::Twice(v) => { let mut e = self.run(v, depth); if e == End::Next { e = self.run(v, depth) } e }
                S::Inc { to, once, global } => {
                    let key = (*to, *global);
                    if *once && self.have.contains(&key) { End::Next }
                    else if depth >= self.max { End::TooDeep }
                    else {
                        let known = self.have.contains(&key) ;
                        if !known { self.asked.push(key) }
                        if !known && self.host == 1 { End::Next } // the host does not have it
                        else {
                            if !self.have.contains(&key) { self.have.push(key) }
                            let v = self.sc[*to].clone();
                            let p = self.in_part;
                            let e = self.run(&v, depth + 1);
                            self.in_part = p;
                            if e == End::Ret { End::Next } else { e }
                        }
                    }
                }
            };
            if e != End::Next { return e }
        }
        End::Next
    }
}
/// host: 0 gives scripts when asked, 1 never has one
fn go(sc: Vec<Vec<S>>, max: usize, host: u8) {
    let bits = [bools(), bools()];
    let mut k = 0;
    let txt: Vec<String> = sc.iter().map(|v| { let mut o = String::from("require \"ihave\"; "); text(v, &mut o, &mut k); note(&o); o }).collect();
    let comp: Vec<Sieve> = txt.iter().map(|t| compile(t)).collect();
    let r = rt().with_max_nested_includes(max).with_cpu_limit(2000);
    let mut c = ctx(&r, MSG);
    for (i, b) in bits.iter().enumerate() { c.set_global_variable(format!("b{i}"), Variable::Integer(*b as i64)); }
    let mut asked: Vec<(usize, bool)> = vec![];
    let t = run_with(&mut c, comp[0].clone(), 200, &mut |e| match e {
        Event::IncludeScript { name, .. } => {
            let (n, g) = match name { Script::Personal(n) => (n.as_str(), false), Script::Global(n) => (n.as_str(), true) };
            let i = NAMES.iter().position(|x| *x == n).unwrap();
            asked.push((i, g));
            if host == 1 { Input::False } else { Input::script(name.clone(), comp[i].clone()) }
        }
        _ => Input::True,
    });
    let mut m = M { sc: &sc, bits: &bits, max, have: vec![(0, false)], host, out: vec![], asked: vec![], fuel: 300, in_part: false };
    let v = sc[0].clone();
    let e = m.run(&v, 1);
    if m.fuel == 0 { return }
    m.out.push("INBOX".into());
    let f = folders(&t);
    for x in &f { obs_bytes(x.as_bytes()) }
    obs(t.err.as_ref().map_or(99, errcode));
    reach(match e { End::TooDeep => 2, End::Stop => 3, End::Error => 4, _ => 1 });
    check(t.ended, 1, "ends");
    check(match e { End::TooDeep => matches!(t.err, Some(RuntimeError::TooManyIncludes)), End::Error => matches!(t.err, Some(RuntimeError::ScriptErrorMessage(_))), _ => t.err.is_none() }, 2, "the nesting limit is an error, and only it");
    check(asked == m.asked, 3, "the host is asked for each unknown script, once");
    check(f == m.out, 4, "scripts run in place, in order");
}
fn f(s: &str) -> S { S::File(s.into()) }
fn inc(to: usize) -> S { let k = choose(3); S::Inc { to, once: k == 1, global: k == 2 } }
entry!{
/// main and s1 each with two includes (any of main/s1/s2 resp. s1/s2, plain, :once or :global), between markers; s2 may return, stop, fail or do neither under a free condition; nesting limit 1 to 4; scripts given by the host or missing
/// reach: 1 2 3 4
h_c05_chain {
    let max = choose(4) + 1;
    let host = choose(2) as u8;
    let a = inc(choose(3));
    let b = inc(choose(2) + 1);
    let c = inc(choose(2) + 1);
    let end = *pick(&[0, 1, 2, 3]);
    let e = match end { 0 => S::Ret, 1 => S::Stop, 2 => S::Err, _ => f("n") };
    go(vec![vec![f("m1"), S::If(1, vec![a]), f("m2"), b, f("m3")], vec![f("a1"), c, f("a2")], vec![f("b1"), S::If(0, vec![e]), f("b2")]], max, host);
}
}
entry!{
/// an included script left by return (or stop) from inside if, while, foreverypart or two of them nested, at the first or second level; the includer goes on inside a loop or a block of its own
/// reach: 1 3
h_c05_return {
    let wrap = |k: usize, v: Vec<S>| -> Vec<S> { match k { 0 => v, 1 => vec![S::If(0, v)], 2 => vec![S::Twice(v)], 3 => vec![S::Part(v)], 4 => vec![S::Part(vec![S::Twice(v)])], _ => vec![S::Twice(vec![S::Part(v)])] } };
    let (k1, k2, k3) = (choose(6), choose(4), choose(4));
    let end = if choose_bool() { S::Ret } else { S::Stop };
    let once = choose_bool();
    let s2 = [wrap(k1, vec![f("i1"), end.clone(), f("i2")]), vec![f("i3")]].concat();
    let s1 = [wrap(k2, vec![f("j1"), S::Inc { to: 2, once, global: false }, f("j2")]), vec![f("j3")]].concat();
    let m = [wrap(k3, vec![f("m1"), S::Inc { to: 1, once: false, global: false }, f("m2")]), vec![f("m3")]].concat();
    go(vec![m, s1, s2], 5, 0);
}
}
entry!{
/// a script that includes itself under a free condition or without one, or two that include each other: ends at the nesting limit
/// reach: 2
h_c05_recursion {
    let max = choose(6) + 1;
    let mutual = choose_bool();
    let c = choose_bool();
    let g = choose_bool();
    let i = |to| { let i = S::Inc { to, once: false, global: g }; if c { S::If(0, vec![i]) } else { i } };
    go(vec![vec![f("m"), i(1), f("n")], vec![f("a"), i(if mutual { 2 } else { 1 }), f("b")], vec![f("c"), i(1), f("d")]], max, 0);
}
}
entry!{
/// the name of the script given by free text of up to 2 characters, empty included: an empty name includes nothing, any other asks for exactly that name, :optional and :global passed on, and a refused one leaves the run going
/// reach: 1 2
h_c05_name {
    let n = choose(3);
    let v = ascii(n);
    let (g, o, give) = (choose_bool(), choose_bool(), choose_bool());
    let src = format!("fileinto :copy \"a\"; include {}{}\"${{global.x}}\"; fileinto :copy \"b\"; include :once {}\"${{global.x}}\"; fileinto :copy \"c\";", if g { ":global " } else { "" }, if o { ":optional " } else { "" }, if g { ":global " } else { "" });
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("x", v.clone());
    let s = compile("fileinto :copy \"i\";");
    let mut ok = true;
    let mut asked = 0;
    let t = run_with(&mut c, compile(&src), 30, &mut |e| match e {
        Event::IncludeScript { name, optional } => {
            ok &= *name == if g { Script::Global(v.clone()) } else { Script::Personal(v.clone()) } && *optional == (o && asked == 0);
            asked += 1;
            if give { Input::script(name.clone(), s.clone()) } else if choose_bool() { Input::True } else { Input::False }
        }
        _ => Input::True,
    });
    check(ok, 1, "the name is passed on as written");
    let w: &[&str] = if n == 0 { reach(1); &["a", "b", "c", "INBOX"] } else if give { reach(2); &["a", "i", "b", "c", "INBOX"] } else { &["a", "b", "c", "INBOX"] };
    check(asked == if n == 0 { 0 } else if give { 1 } else { 2 }, 2, "asked as often as needed");
    check(folders(&t) == w && t.err.is_none() && t.ended, 3, "scripts run in place, in order");
}
}
