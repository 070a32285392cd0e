//! C11: expression operators on all operand values.
use crate::run::*;
use crate::vf::*;

fn eval(expr: &str, vars: &[(&'static str, Variable)]) -> Variable {
    let src = format!("let \"global.r\" \"{expr}\";");
    note(&src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    for (n, v) in vars { c.set_global_variable(*n, v.clone()); }
    let t = run_with(&mut c, compile(&src), 8, &mut reply_true);
    check(t.err.is_none() && t.ev.len() == 1 && t.ended, 1, "evaluation ends without error");
    c.global_variable("r").cloned().unwrap_or_default()
}
fn int(v: &Variable) -> Option<i64> { if let Variable::Integer(n) = v { Some(*n) } else { None } }
fn same(v: &Variable, w: i64) -> bool { obs(w as u64); match int(v) { Some(n) => { obs(n as u64); n == w } None => false } }

entry!{
/// + - on any two 64-bit integers, unary - and ! on any: the exact result, saturated at the ends of the range
/// reach: 1 2
h_c11_add {
    let (a, b) = (i64s(), i64s());
    let v = [("x", Variable::Integer(a)), ("y", Variable::Integer(b))];
    let (e, w) = match choose(4) {
        0 => ("global.x + global.y", a.checked_add(b)),
        1 => ("global.x - global.y", a.checked_sub(b)),
        2 => ("-global.x", 0i64.checked_sub(a)),
        _ => ("!global.x", Some((a == 0) as i64)),
    };
    let r = eval(e, &v);
    // an overflowing + goes beyond the end of the sign of x, an overflowing - too; -x only overflows upwards
    let w = match w { Some(w) => { reach(1); w } None => { reach(2); if a < 0 && !e.starts_with('-') { i64::MIN } else { i64::MAX } } };
    check(same(&r, w), 2, "exact or saturated result");
}
}
entry!{
/// * of any 64-bit integer with one of 14 constants (0, +-1, +-2, 3, 10, 1000, 2^32, 2^62, both ends...), either side
/// reach: 1
h_c11_mul {
    let a = i64s();
    let k = *pick(&[0i64, 1, -1, 2, -2, 3, 7, 10, -1000, 1 << 32, 1 << 62, i64::MAX, i64::MIN, i64::MIN + 1]);
    let v = if choose_bool() { [("x", Variable::Integer(a)), ("y", Variable::Integer(k))] } else { [("x", Variable::Integer(k)), ("y", Variable::Integer(a))] };
    let r = eval("global.x * global.y", &v);
    reach(1);
    // exact product by cases, so that the oracle needs no 128-bit multiplication of a symbolic operand by a wide constant
    let w = a.checked_mul(k).unwrap_or(if (a < 0) == (k < 0) { i64::MAX } else { i64::MIN });
    check(same(&r, w), 2, "exact or saturated product");
}
}
entry!{
/// == != < <= > >= && || ^ on any two 64-bit integers
/// reach: 1 2
h_c11_cmp {
    let (a, b) = (i64s(), i64s());
    let v = [("x", Variable::Integer(a)), ("y", Variable::Integer(b))];
    let (o, w) = match choose(9) {
        0 => ("==", a == b), 1 => ("!=", a != b), 2 => ("<", a < b), 3 => ("<=", a <= b), 4 => (">", a > b), 5 => (">=", a >= b),
        6 => ("&&", a != 0 && b != 0), 7 => ("||", a != 0 || b != 0), _ => ("^", (a != 0) != (b != 0)),
    };
    let r = eval(&format!("global.x {o} global.y"), &v);
    if w { reach(1) } else { reach(2) }
    check(same(&r, w as i64), 2, "0 or 1 by the relation");
}
}
fn num(s: &str) -> Option<i64> { s.parse::<i64>().ok() }
entry!{
/// integers against strings of up to 3 (thorough: 4) free characters of 0-9 - and a: arithmetic takes the number a string spells (0 if none), comparison too; two strings compare as text; + concatenates
/// reach: 1 2
h_c11_str {
    let a = i64s();
    assume(a >= -1000 && a <= 1000);
    let n = choose(1 + tier(3, 4));
    let s = alpha(n, b"019-a");
    // texts like 1e, inf, nan would be floating point numbers: the alphabet has none of them
    let sn = num(&s).unwrap_or(0);
    let v = [("x", Variable::Integer(a)), ("s", Variable::from(s.clone()))];
    let (e, w) = match choose(8) {
        0 => ("global.x - global.s", a - sn), 1 => ("global.s - global.x", sn - a), 2 => ("-global.s", -sn), 3 => ("global.x == global.s", (a == sn) as i64),
        4 => ("global.s < global.x", (sn < a) as i64), 5 => ("global.x >= global.s", (a >= sn) as i64), 6 => ("!global.s", s.is_empty() as i64), _ => ("global.s != global.x", (sn != a) as i64),
    };
    let r = eval(e, &v);
    if num(&s).is_some() { reach(1) } else { reach(2) }
    check(same(&r, w), 2, "strings count as the number they spell");
}
}
entry!{
/// two strings of up to 2 (thorough: 3) free characters: all comparisons are those of the text, + joins them
/// reach: 1 2
h_c11_text {
    let (a, b) = (alpha(choose(1 + tier(2, 3)), b"019a-B"), alpha(choose(1 + tier(2, 3)), b"019a-B"));
    let v = [("x", Variable::from(a.clone())), ("y", Variable::from(b.clone()))];
    let op = choose(7);
    let o = ["==", "!=", "<", "<=", ">", ">=", "+"][op];
    let r = eval(&format!("global.x {o} global.y"), &v);
    if op == 6 {
        let s = r.to_string().into_owned();
        obs_bytes(s.as_bytes());
        reach(1);
        check(s == format!("{a}{b}"), 3, "concatenation");
    } else {
        let w = match op { 0 => a == b, 1 => a != b, 2 => a < b, 3 => a <= b, 4 => a > b, _ => a >= b };
        reach(2);
        check(same(&r, w as i64), 2, "text comparison");
    }
}
}
fn show(v: &Variable) -> String { match v { Variable::Integer(n) => format!("i{n}"), Variable::Float(f) => format!("f{f}"), Variable::String(s) => format!("s{s}"), Variable::Array(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(",")) } }
entry!{
/// floating point operands: every operator on every ordered pair out of 9 values (integers, floats, strings spelling them), against the mathematical definition; division by zero gives 0
/// reach: 1 2
h_c11_float {
    let vals: [(Variable, f64, bool); 9] = [(Variable::Integer(0), 0.0, true), (Variable::Integer(3), 3.0, true), (Variable::Integer(-8), -8.0, true), (Variable::Float(0.0), 0.0, false), (Variable::Float(2.5), 2.5, false),
        (Variable::Float(-0.5), -0.5, false), (Variable::Float(3.0), 3.0, false), (Variable::from("2.5"), 2.5, false), (Variable::from("-8"), -8.0, true)];
    let (x, y) = (pick(&vals), pick(&vals));
    let op = choose(9);
    let strs = matches!(x.0, Variable::String(_)) as u8 + matches!(y.0, Variable::String(_)) as u8;
    assume(strs < 2 && (strs == 0 || op != 0));
    let o = ["+", "-", "*", "/", "==", "<", "<=", ">", ">="][op];
    let r = eval(&format!("global.x {o} global.y"), &[("x", x.0.clone()), ("y", y.0.clone())]);
    let ii = x.2 && y.2;
    let (a, b) = (x.1, y.1);
    let n = |f: f64| if ii { format!("i{f}") } else { format!("f{f}") };
    let t = |b: bool| format!("i{}", b as u8);
    let w = match op { 0 => n(a + b), 1 => n(a - b), 2 => n(a * b), 3 => format!("f{}", if b != 0.0 { a / b } else { 0.0 }), 4 => t(a == b), 5 => t(a < b), 6 => t(a <= b), 7 => t(a > b), _ => t(a >= b) };
    let g = show(&r);
    note(&g); note(&w);
    obs_bytes(g.as_bytes());
    if ii { reach(1) } else { reach(2) }
    check(g.replace("f-0", "f0") == w.replace("f-0", "f0").replace("i-0", "i0"), 2, "value of the operation");
}
}
entry!{
/// arrays: building, indexing with any integer (and out of range), joining with +, removing with -, comparing; items are free small integers
/// reach: 1 2
h_c11_array {
    let i: Vec<i64> = (0..3).map(|_| (u8s() & 3) as i64).collect();
    let k = i64s();
    let v = [("a", Variable::Integer(i[0])), ("b", Variable::Integer(i[1])), ("c", Variable::Integer(i[2])), ("k", Variable::Integer(k)), ("arr", Variable::from(vec![Variable::Integer(i[0]), Variable::Integer(i[1]), Variable::Integer(i[2])]))];
    let ints = |v: &Variable| -> Option<Vec<i64>> { if let Variable::Array(a) = v { a.iter().map(int).collect() } else { None } };
    match choose(6) {
        m @ (0 | 1) => {
            let r = eval(if m == 0 { "[global.a, global.b, global.c][global.k]" } else { "global.arr[global.k]" }, &v);
            if k >= 0 && k < 3 { reach(1); check(same(&r, i[k as usize]), 2, "indexed item"); } else if k >= 3 { reach(2); check(r.is_empty(), 3, "nothing outside the array"); }
        }
        2 => { let r = eval("[global.a, global.b] + global.c", &v); check(ints(&r) == Some(i.clone()), 4, "append"); }
        3 => { let r = eval("global.a + [global.b, global.c]", &v); check(ints(&r) == Some(i.clone()), 5, "prepend"); }
        4 => { let r = eval("global.arr - global.c", &v); let w: Vec<i64> = i.iter().copied().filter(|x| *x != i[2]).collect(); check(ints(&r) == Some(w), 6, "remove equal items"); }
        _ => { let r = eval("[global.a, global.b] == [global.b, global.c]", &v); check(same(&r, (i[0] == i[1] && i[1] == i[2]) as i64), 7, "equality of arrays"); }
    }
}
}
