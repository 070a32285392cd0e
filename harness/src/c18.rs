//! C18: flag lists behave as case-insensitive sets and reach the delivery actions.
use crate::run::*;
use crate::vf::*;

fn words(s: &str) -> Vec<String> { s.split(' ').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect() }
fn has(v: &[String], f: &str) -> bool { v.iter().any(|x| x.eq_ignore_ascii_case(f)) }
fn apply(v: &mut Vec<String>, op: usize, args: &[String]) {
    if op == 0 { v.clear(); }
    for a in args {
        for w in words(a) {
            if op == 2 { v.retain(|x| !x.eq_ignore_ascii_case(&w)); } else if !has(v, &w) { v.push(w); }
        }
    }
}
fn same(got: &[String], want: &[String]) -> bool {
    let (mut g, mut w) = (got.to_vec(), want.to_vec());
    g.sort(); w.sort();
    g == w
}
const OPS: &[&str] = &["setflag", "addflag", "removeflag"];
fn lst(r: std::ops::Range<usize>) -> String {
    let v: Vec<String> = r.map(|i| format!("\"${{global.f{i}}}\"")).collect();
    if v.len() == 1 { v[0].clone() } else { format!("[{}]", v.join(", ")) }
}
/// a program of `nops` flag operations on the default list or a variable; returns source, argument strings and the model
fn program(nops: usize, shapes: &[&[usize]], al: &[u8], var: bool) -> (String, Vec<String>, Vec<String>, Vec<String>) {
    let (mut src, mut args, mut m, mut mv) = (String::new(), vec![], vec![], vec![]);
    for i in 0..nops {
        let op = if i == 0 { choose(2) } else { choose(3) };
        let onvar = var && choose_bool();
        let at = args.len();
        for l in *pick(shapes) { args.push(alpha(*l, al)); }
        apply(if onvar { &mut mv } else { &mut m }, op, &args[at..]);
        src.push_str(&format!("{} {}{};\n", OPS[op], if onvar { "\"fv\" " } else { "" }, lst(at..args.len())));
    }
    (src, args, m, mv)
}
fn exec(src: &str, args: &[String]) -> Trace {
    note(src);
    for a in args { noteb(a.as_bytes()); }
    let r = rt();
    let mut c = ctx(&r, MSG);
    for (i, a) in args.iter().enumerate() { c.set_global_variable(format!("f{i}"), a.clone()); }
    let t = run_with(&mut c, compile(src), 16, &mut reply_true);
    check(t.err.is_none(), 1, "no runtime error");
    obs_trace(&t);
    t
}
fn kept(t: &Trace) -> Vec<Vec<String>> {
    t.ev.iter().filter_map(|e| match e { Event::Keep { flags, .. } => Some(flags.clone()), Event::FileInto { flags, .. } => Some(flags.clone()), _ => None }).collect()
}
entry!{
/// three operations with one or two flags out of four (thorough: six) spelled with letters beyond ASCII in both cases, as separate strings or one, on the default list and on a named list; then keep and fileinto :flags
/// reach: 1
h_c18_beyond {
    let cs: &[&str] = &["\u{e9}", "\u{c9}", "b\u{436}", "B\u{416}", "\u{10428}b", "B"];
    let cs = &cs[..tier(4, 6)];
    let fold = |f: &str| -> String { f.chars().map(|c| match c { '\u{c9}' => '\u{e9}', '\u{416}' => '\u{436}', c => c.to_ascii_lowercase() }).collect() };
    let onvar = choose_bool();
    let (mut src, mut m): (String, Vec<String>) = (String::new(), vec![]);
    for i in 0..3 {
        let op = if i == 0 { choose(2) } else { choose(3) };
        let ws: Vec<&str> = (0..1 + choose(tier(1 + i % 2, 2))).map(|_| *pick(cs)).collect();
        let arg = if ws.len() == 1 { format!("\"{}\"", ws[0]) } else if choose_bool() { format!("[\"{}\", \"{}\"]", ws[0], ws[1]) } else { format!("\"{} {}\"", ws[0], ws[1]) };
        if op == 0 { m.clear(); }
        for w in ws { if op == 2 { m.retain(|x| fold(x) != fold(w)); } else if !m.iter().any(|x| fold(x) == fold(w)) { m.push(w.into()); } }
        src.push_str(&format!("{} {}{arg};\n", OPS[op], if onvar { "\"fv\" " } else { "" }));
    }
    let src = format!("require \"variables\"; set \"fv\" \"\"; {src} {}", if onvar { "keep :flags \"${fv}\";" } else { "keep;" });
    let t = exec(&src, &[]);
    let k = kept(&t);
    check(k.len() == 1, 2, "exactly one keep");
    check(same(&k[0], &m), 3, "keep carries the flags, each in one case only");
    reach(1);
}
}
entry!{
/// two operations set/add/remove on the default list, each with one string of 3 or 0 or two strings of 2+1 characters of aAb and space (thorough: also two of 2), then an implicit or explicit keep
/// reach: 1 2
h_c18_ops {
    let (mut src, args, m, _) = program(2, if thorough() { &[&[3], &[2, 1], &[0], &[2, 2]] } else { &[&[3], &[2, 1], &[0]] }, b"aAb ", false);
    if choose_bool() { src.push_str("keep;"); }
    let t = exec(&src, &args);
    let k = kept(&t);
    check(k.len() == 1, 2, "exactly one keep");
    check(same(&k[0], &m), 3, "keep carries the current flags");
    if m.is_empty() { reach(1) } else { reach(2) }
}
}
entry!{
/// three operations with one or two (thorough: or a string of 2) single-character flags of aAb on the default list and on a named list, observed through both
/// reach: 1 2
h_c18_vars {
    let (mut src, args, m, mv) = program(3, if thorough() { &[&[1], &[1, 1], &[2]] } else { &[&[1], &[1, 1]] }, b"aAb", true);
    src = format!("require \"variables\"; set \"fv\" \"\"; {src} fileinto :flags \"${{fv}}\" \"F\"; fileinto \"G\"; keep :flags \"${{fv}}\";");
    let t = exec(&src, &args);
    let k = kept(&t);
    check(k.len() == 3, 2, "two fileintos and a keep");
    check(same(&k[0], &mv), 3, "fileinto :flags carries the named list");
    check(same(&k[1], &m), 4, "fileinto without :flags carries the default list");
    // an explicitly empty list of flags falls back to the default list
    check(same(&k[2], if mv.is_empty() { &m } else { &mv }), 5, "keep :flags carries the named list");
    if mv.is_empty() { reach(1) } else { reach(2) }
}
}
entry!{
/// hasflag :is/:contains/:count, negated or not, on the default list or a named list, after an arbitrary setflag; keys of one or two strings
/// reach: 1 2
h_c18_has {
    let var = choose_bool();
    let mut args: Vec<String> = pick(&[&[3usize][..], &[1, 1], &[0]]).iter().map(|l| alpha(*l, b"aAb ")).collect();
    let mut m = vec![];
    apply(&mut m, 0, &args);
    let mode = choose(4);
    let nk = 1 + choose(2);
    let k0 = args.len();
    for _ in 0..nk { args.push(if mode == 2 { alpha(1, b"0123") } else { let l = 1 + choose(tier(1, 2)); alpha(l, if mode == 3 { b"aA*?" } else { b"aAb " }) }); }
    let keys = &args[k0..];
    let want = match mode {
        0 => keys.iter().any(|k| words(k).iter().any(|w| has(&m, w))),
        1 => keys.iter().any(|k| words(k).iter().any(|w| m.iter().any(|f| f.to_ascii_lowercase().contains(&w.to_ascii_lowercase())))),
        2 => keys.iter().any(|k| k.as_bytes()[0] as usize - 48 == m.len()),
        _ => keys.iter().any(|k| m.iter().any(|f| globm(k.as_bytes(), f.as_bytes()))),
    };
    let tag = [":is", ":contains", ":count \"eq\" :comparator \"i;ascii-numeric\"", ":matches"][mode];
    let neg = choose_bool();
    let v = if var { "\"fv\" " } else { "" };
    let src = format!("setflag {}{}; if {} hasflag {} {}{} {{ fileinto \"T\"; }} else {{ fileinto \"F\"; }}", v, lst(0..k0), if neg { "not" } else { "" }, tag, v, lst(k0..args.len()));
    let t = exec(&src, &args);
    if want { reach(1) } else { reach(2) }
    check(folders(&t)[0] == if want != neg { "T" } else { "F" }, 2, "hasflag verdict");
}
}
fn globm(p: &[u8], v: &[u8]) -> bool {
    if p.is_empty() { return v.is_empty(); }
    match p[0] {
        b'*' => (0..=v.len()).any(|k| globm(&p[1..], &v[k..])),
        b'?' => !v.is_empty() && globm(&p[1..], &v[1..]),
        c => !v.is_empty() && v[0].eq_ignore_ascii_case(&c) && globm(&p[1..], &v[1..]),
    }
}
entry!{
/// hasflag :regex on a list of two flags of one free letter each, constant expressions
/// reach: 1 2
h_c18_regex {
    let args: Vec<String> = (0..2).map(|_| alpha(1, b"abc")).collect();
    let (e, set) = *pick(&[("^[ab]$", "ab"), ("^a.*", "a"), ("c|b", "bc"), ("^\\\\w{2}$", "")]);
    let t = exec(&format!("setflag [\"${{global.f0}}\", \"${{global.f1}}\"]; if hasflag :regex \"{e}\" {{ fileinto \"T\"; }} else {{ fileinto \"F\"; }}"), &args);
    let want = args.iter().any(|a| set.contains(a.as_str()));
    if want { reach(1) } else { reach(2) }
    // known finding: hasflag :regex compares with the wildcard matcher
    let g = args.iter().any(|a| globm(e.replace("\\\\", "\\").as_bytes(), a.as_bytes()));
    if g != want && folders(&t)[0] == if g { "T" } else { "F" } { check(false, 20, "KNOWN hasflag :regex uses the wildcard matcher"); }
    check(folders(&t)[0] == if want { "T" } else { "F" }, 2, "hasflag :regex verdict");
}
}
entry!{
/// a list of 5 flags from which 1-3 of 6 names (any case, known or not) are removed, then 0-1 added, given as a list, as one string or one action each; the default list or a named one
/// reach: 1 2
h_c18_remove {
    let names = ["alpha", "Bravo", "CHARLIE", "delta", "\\\\Seen"];
    let rm = ["Alpha", "bravo", "charlie", "DELTA", "\\\\seen", "x"];
    let var = choose_bool();
    let v = if var { "\"fv\" " } else { "" };
    let q = |w: &[&str], how: usize, cmd: &str| match how {
        0 => format!("{cmd} {v}[{}];", w.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")),
        1 => format!("{cmd} {v}\"{}\";", w.join(" ")),
        _ => w.iter().map(|x| format!("{cmd} {v}\"{x}\";")).collect::<String>(),
    };
    let n = 1 + choose(3);
    let gone: Vec<&str> = (0..n).map(|_| *pick(&rm)).collect();
    let how = choose(3);
    let add = choose(3);
    let mut m: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    apply(&mut m, 2, &gone.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let mut src = format!("require \"variables\"; set \"fv\" \"\"; {} {}", q(&names, 0, "setflag"), q(&gone, how, "removeflag"));
    if add > 0 { let a = ["Delta", "new"][add - 1]; src.push_str(&q(&[a], 0, "addflag")); apply(&mut m, 1, &[a.to_string()]); }
    src.push_str(if var { "keep :flags \"${fv}\";" } else { "keep;" });
    let t = exec(&src, &[]);
    let k = kept(&t);
    let m: Vec<String> = m.iter().map(|x| x.replace("\\\\", "\\")).collect();
    check(k.len() == 1 && same(&k[0], &m), 2, "exactly the named flags are gone");
    if m.len() < 5 { reach(1) } else { reach(2) }
}
}
