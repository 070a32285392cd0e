//! C07: no variable outgrows the size limit; what is cut off is cut at a character boundary, and nothing is cut below the limit.
use crate::run::*;
use crate::vf::*;

/// the longest start of whole units of at most l bytes
fn cut(units: &[String], l: usize) -> String {
    let mut o = String::new();
    for u in units { if o.len() + u.len() > l { break } o.push_str(u) }
    o
}
fn chars(s: &str) -> Vec<String> { s.chars().map(|c| c.to_string()).collect() }
/// a text of n characters of one, two, three and four bytes, some special to a modifier
fn text(n: usize) -> String { (0..n).map(|_| *pick(&["a", "é", "€", "*", "𝄞"])).collect() }
/// body text with one of these texts in it
fn mail(s: &str) -> Vec<u8> { format!("From: a@b.c\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n{s}").into_bytes() }
entry!{
/// a text of 0 to 3 (thorough: 4) characters of 1, 2, 3 and 4 bytes stored by set (no modifier, :lower, :upperfirst, :quotewildcard, :quoteregex, :encodeurl, :replace), let, extracttext (with and without :first) or addflag into a local, global or envelope variable, under every limit of 0 to 13 bytes
/// reach: 1 2
h_c07_one {
    let n = choose(tier(4, 5));
    let s = text(n);
    let l = choose(14);
    let how = choose(11);
    let to = *pick(&["v", "global.v", "envelope.envid"]);
    let q = format!("\"{s}\"");
    let (stmt, units): (String, Vec<String>) = match how {
        0 => (format!("set \"{to}\" {q};"), chars(&s)),
        1 => (format!("set :lower \"{to}\" {q};"), chars(&s)),
        2 => (format!("set :upperfirst \"{to}\" {q};"), s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_uppercase().to_string() } else { c.to_string() }).collect()),
        3 | 4 => (format!("set {} \"{to}\" {q};", if how == 3 { ":quotewildcard" } else { ":quoteregex" }), s.chars().map(|c| if c == '*' { "\\*".to_string() } else { c.to_string() }).collect()),
        5 => (format!("set :encodeurl \"{to}\" {q};"), s.chars().map(|c| { let mut b = [0; 4]; if c == 'a' { "a".into() } else { c.encode_utf8(&mut b).bytes().map(|x| format!("%{x:02x}")).collect() } }).collect()),
        6 => (format!("set :replace \"a\" \"€é\" \"{to}\" {q};"), s.chars().flat_map(|c| chars(if c == 'a' { "€é" } else { "" }).into_iter().chain(if c == 'a' { vec![] } else { vec![c.to_string()] })).collect()),
        7 => (format!("let \"{to}\" \"'{s}'\";"), chars(&s)),
        8 => (format!("set \"{to}\" \"\"; foreverypart {{ extracttext \"{to}\"; }}"), chars(&s)),
        9 => (format!("set \"{to}\" \"old\"; foreverypart {{ extracttext :first 2 \"{to}\"; }}"), chars(&s).into_iter().take(2).collect()),
        _ => (format!("addflag \"{to}\" {q};"), chars(&s)),
    };
    assume(n > 0 || how < 8);
    let src = format!("{stmt} fileinto \"<${{{to}}}>\";");
    note(&src);
    let r = rt().with_max_variable_size(l);
    let m = mail(&s);
    let mut c = r.filter(&m);
    let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs");
    let want = cut(&units, l);
    let got = folders(&t).pop().unwrap();
    obs_bytes(got.as_bytes());
    reach(if want.len() == units.iter().map(|u| u.len()).sum::<usize>() { 1 } else { 2 });
    note(&want);
    check(got.len() <= l + 2, 2, "no longer than the limit");
    check(got == format!("<{want}>"), 3, "the longest whole start that fits");
    if to == "global.v" { check(gstr(&c, "v").unwrap_or_default() == want, 4, "as the host sees it") }
    if let Some(Event::SetEnvelope { value, .. }) = t.ev.iter().rev().find(|e| matches!(e, Event::SetEnvelope { .. })) { check(*value == want, 5, "the envelope value announced") }
}
}
entry!{
/// a variable that grows in a loop of up to 6 rounds (doubled, text added in front or behind, a flag added, let on a list) under every limit of 2 to 40 bytes: the length seen in each round
/// reach: 1 2
h_c07_grow {
    let l = 2 + choose(39);
    let (how, rounds) = (choose(4), 1 + choose(6));
    let to = *pick(&["v", "global.v"]);
    let stmt = [format!("set \"{to}\" \"${{{to}}}${{{to}}}\";"), format!("set \"{to}\" \"${{{to}}}bé\";"), format!("set \"{to}\" \"€${{{to}}}\";"), format!("addflag \"{to}\" \"f${{global.i}}\";")];
    let src = format!("set \"{to}\" \"ab\"; let \"global.i\" \"0\"; while \"global.i < {rounds}\" {{ let \"global.i\" \"global.i + 1\"; {} fileinto :copy \"<${{{to}}}>\"; }}", stmt[how]);
    note(&src);
    let r = rt().with_max_variable_size(l);
    let t = go(&r, MSG, &src);
    check(t.ended && t.err.is_none(), 1, "runs");
    let mut v = cut(&chars("ab"), l);
    let mut want = vec![];
    let mut big = false;
    for i in 1..=rounds {
        let full = match how { 0 => format!("{v}{v}"), 1 => format!("{v}bé"), 2 => format!("€{v}"), _ => {
            let f = format!("f{i}");
            if v.split(' ').any(|x| x == f) { v.clone() } else if v.is_empty() { f } else { format!("{v} {f}") }
        } };
        big |= full.len() > l;
        v = cut(&chars(&full), l);
        want.push(format!("<{v}>"));
    }
    want.push("INBOX".into());
    let got = folders(&t);
    for g in &got { obs_bytes(g.as_bytes()) }
    reach(1 + big as u32);
    check(got == want, 2, "the value in each round");
}
}
entry!{
/// let on all fields of a name (1 to 4 fields of 0 to 3 characters), stored under every limit of 0 to 20 bytes
/// reach: 1 2
h_c07_list {
    let n = 1 + choose(tier(3, 4));
    let l = choose(21);
    let v: Vec<String> = (0..n).map(|_| pick(&["a", "bé", "€", "xyz"]).to_string()).collect();
    let m: String = v.iter().map(|x| format!("X-L: {x}\r\n")).collect::<String>() + "\r\nb\r\n";
    let src = "let \"v\" \"header.x-l[*].text\"; fileinto \"<${v}>\";";
    noteb(m.as_bytes());
    let r = rt().with_max_variable_size(l);
    let t = go(&r, m.as_bytes(), src);
    check(t.ended && t.err.is_none(), 1, "runs");
    let all = v.join("\r\n");
    let want = cut(&chars(&all), l);
    let got = folders(&t).pop().unwrap();
    obs_bytes(got.as_bytes());
    reach(1 + (want != all) as u32);
    check(got == format!("<{want}>"), 2, "the start of the list that fits");
}
}
entry!{
/// set with up to two (thorough: three) :replace (each may make the text longer or shorter), :quotewildcard or not and :length or not, on a text of 1 to 3 characters of 1 to 4 bytes, under limits of 0 to 20 bytes (quick: 10 of them): no modifier passes on more than the limit, and none cuts anything else
/// reach: 1 2
h_c07_chain {
    let s = text(1 + choose(3));
    let l = if thorough() { choose(21) } else { *pick(&[0, 1, 2, 3, 4, 5, 6, 8, 11, 20]) };
    let reps: Vec<(&str, &str)> = (0..1 + choose(tier(2, 3))).map(|_| *pick(&[("a", "aa"), ("é", "€a*"), ("a", ""), ("", "é"), ("aa", "aé")])).collect();
    let (q, n) = (choose_bool(), choose_bool());
    let tags: String = reps.iter().map(|(a, b)| format!(":replace \"{a}\" \"{b}\" ")).collect();
    let src = format!("set {tags}{}{}\"global.v\" \"{s}\";", if q { ":quotewildcard " } else { "" }, if n { ":length " } else { "" });
    note(&src);
    let mut v = s.clone();
    let mut big = false;
    for (a, b) in &reps { let w = v.replace(a, b); v = cut(&chars(&w), l); big |= v != w }
    if q { let u: Vec<String> = v.chars().map(|c| if c == '*' { "\\*".into() } else { c.to_string() }).collect(); let w = u.concat(); v = cut(&u, l); big |= v != w }
    if n { v = v.chars().count().to_string() }
    let v = cut(&chars(&v), l);
    let r = rt().with_max_variable_size(l);
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, compile(&src), 16, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs");
    let got = gstr(&c, "v").unwrap_or_default();
    obs_bytes(got.as_bytes());
    note(&v);
    reach(if big { 1 } else { 2 });
    check(got == v, 2, "the text after the modifiers, none of which outgrows the limit");
}
}
