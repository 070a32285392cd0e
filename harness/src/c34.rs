//! C34: a change of the envelope by the script takes effect at once and is announced to the host once, in order.
use crate::run::*;
use crate::vf::*;

const N: &[&str] = &["from", "to", "by_time_absolute", "by_time_relative", "by_mode", "by_trace", "notify", "orcpt", "ret", "envid"];
/// the names under which set and the others know them (no underscore, unlike in ${envelope.x})
fn wname(i: usize) -> String { N[i].replace('_', "") }
fn kind(i: usize) -> Envelope {
    match i { 0 => Envelope::From, 1 => Envelope::To, 2 => Envelope::ByTimeAbsolute, 3 => Envelope::ByTimeRelative, 4 => Envelope::ByMode, 5 => Envelope::ByTrace, 6 => Envelope::Notify, 7 => Envelope::Orcpt, 8 => Envelope::Ret, _ => Envelope::Envid }
}
fn events(t: &Trace) -> Vec<String> {
    let mut v = vec![];
    for e in &t.ev {
        v.push(match e {
            Event::SetEnvelope { envelope, value } => { let k = (0..10).find(|i| kind(*i) == *envelope).unwrap(); format!("{}={value}", N[k]) }
            Event::FileInto { folder, .. } => folder.clone(),
            Event::SendMessage { recipient: Recipient::Address(a), .. } => format!("to {a}"),
            Event::Keep { flags, .. } => format!("keep {}", flags.join(",")),
            Event::Discard => "discard".into(),
            _ => "other".into(),
        })
    }
    for x in &v { obs_bytes(x.as_bytes()) }
    v
}
fn seq(n: usize, wrap: usize) {
    // two envelope parts in play: one the host has set, and any other
    let a = choose(10);
    let b = (a + 1 + choose(2) * 4) % 10;
    let mut val = vec![Some("old@h.org".to_string()), None];
    let (mut src, mut w) = (String::new(), vec![]);
    let (mut keep, mut kept) = (true, false);
    for i in 0..n {
        let k = choose(2);
        let e = [a, b][k];
        let up = choose_bool();
        let (name, rname) = if up { (wname(e).to_ascii_uppercase(), N[e].to_ascii_uppercase()) } else { (wname(e), N[e].to_string()) };
        let old = val[k].clone().unwrap_or_default();
        let op = choose(9);
        let set = match op {
            0 => { src += &format!("set \"envelope.{name}\" \"v{i}\";"); Some(format!("v{i}")) }
            1 => { src += &format!("set :upper \"envelope.{name}\" \"x${{envelope.{rname}}}\";"); Some(format!("x{old}").to_ascii_uppercase()) }
            2 => { src += &format!("let \"envelope.{name}\" \"'l{i}'\";"); Some(format!("l{i}")) }
            3 => { src += &format!("setflag \"envelope.{name}\" [\"f{i}\", \"g\"];"); Some(format!("f{i} g")) }
            4 => { src += &format!("addflag \"envelope.{name}\" \"h\";"); Some(if old.split(' ').any(|x| x.eq_ignore_ascii_case("h")) { old } else if old.is_empty() { "h".into() } else { format!("{old} h") }) }
            5 => { src += &format!("foreverypart {{ extracttext :first 3 \"envelope.{name}\"; }}"); Some("bod".into()) }
            6 => { src += &format!("fileinto :copy \"<${{envelope.{rname}}}>\";"); w.push(format!("<{old}>")); None }
            7 => { src += "redirect :copy \"r@y.org\";"; w.push("to r@y.org".into()); None }
            _ => { src += "discard;"; keep = false; kept = true; None }
        };
        if let Some(v) = set { w.push(format!("{}={v}", N[[a, b][k]])); val[k] = Some(v) }
    }
    let src = match wrap { 0 => src, 1 => format!("if true {{ {src} }}"), 2 => format!("if false {{ stop; }} else {{ {src} stop; }}"), _ => format!("foreverypart {{ {} break; }}", src.replace("foreverypart {", "if true {")) };
    note(&src);
    let r = rt().with_max_redirects(9).with_max_out_messages(9);
    let mut c = r.filter(MSG).with_envelope(kind(a), "old@h.org");
    let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs");
    w.push(if keep { "keep ".into() } else { "discard".into() });
    let _ = kept;
    let g = events(&t);
    reach(1);
    for x in &w { note(x) }
    check(g == w, 2, "every change is announced where it happens, once");
}
entry!{
/// every sequence of 2 (thorough: 3) statements among set, let, setflag, addflag, extracttext on two of the ten envelope parts (names in any case, one set by the host before), fileinto, redirect and discard
/// reach: 1
h_c34_seq { seq(tier(2, 3), 0) }
}
entry!{
/// the same with 2 statements inside an if, an else that stops, or a loop over parts
/// reach: 1
h_c34_block { let w = 1 + choose(3); seq(2, w) }
}
entry!{
/// the change of a part in an included script and in the including one is seen in the other; an envelope change right before an error, a stop, a return or the end of the script is announced
/// reach: 1 2
h_c34_end {
    let k = choose(10);
    let set = *pick(&["set \"envelope.N\" \"x\";", "let \"envelope.N\" \"'x'\";", "setflag \"envelope.N\" \"x\";", "addflag \"envelope.N\" \"x\";"]);
    let set = set.replace('N', &wname(k));
    let r = rt();
    if choose_bool() {
        let end = *pick(&["", "stop;", "return;", "error \"e\";", "if true { stop; }"]);
        let src = format!("require \"ihave\"; {set}{end}");
        note(&src);
        let mut c = r.filter(MSG);
        let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
        check(t.ended && t.err.is_some() == (end.starts_with("error")), 1, "runs to its end");
        reach(1);
        check(events(&t) == [format!("{}=x", N[k]), "keep ".to_string()], 2, "announced before the end");
        return
    }
    let inner = choose_bool();
    let show = format!("fileinto :copy \"<${{envelope.{}}}>\";", N[k]);
    let (main, inc) = if inner { (format!("include \"i\"; {show}"), set) } else { (format!("{set} include \"i\";"), show) };
    note(&main); note(&inc);
    let mut c = r.filter(MSG);
    let t = run_with(&mut c, compile(&main), 64, &mut |e| if let Event::IncludeScript { .. } = e { Input::script("i", compile(&inc)) } else { Input::True });
    check(t.ended && t.err.is_none(), 3, "runs");
    let g: Vec<String> = events(&t).into_iter().filter(|x| x != "other").collect();
    reach(2);
    check(g == [format!("{}=x", N[k]), "<x>".to_string(), "keep ".to_string()], 4, "seen across the include");
}
}

entry!{
/// an envelope in which one part occurs one to three times (several recipients), others before and after it, and one or two changes of a part by set, let or addflag: what is read afterwards is what was written, other parts keep their values, each change is announced once
/// reach: 1
h_c34_repeated {
    let a = choose(10);
    let o = (a + 3) % 10;
    let n = choose(3) + 1;
    let r = rt();
    let mut c = r.filter(MSG);
    c.clear_envelope();
    if choose_bool() { c.set_envelope(kind(o), "other@x.org") } else { c.set_envelope(kind((a + 1) % 10), "third@x.org") }
    let mut list: Vec<(Envelope, String)> = (0..n).map(|i| (kind(a), format!("old{i}@x.org"))).collect();
    list.push((kind((a + 5) % 10), "last@x.org".into()));
    let whole = choose_bool();
    if whole { c = c.with_envelope_list(list.into_iter().map(|(k, v)| (k, Variable::from(v))).collect()) } else { for (k, v) in list { c.set_envelope(k, v) } }
    let mut src = String::new();
    let mut w = vec![];
    let mut val = String::new();
    for i in 0..choose(2) + 1 {
        match choose(2) { 0 => { src += &format!("set \"envelope.{}\" \"v{i}\"; ", wname(a)); val = format!("v{i}") } _ => { src += &format!("let \"envelope.{}\" \"'l{i}'\"; ", wname(a)); val = format!("l{i}") } }
        w.push(format!("{}={val}", N[a]));
        src += &format!("fileinto :copy \"<${{envelope.{}}}>\"; ", N[a]);
        w.push(format!("<{val}>"));
    }
    src += &format!("fileinto \"<${{envelope.{}}}>\";", N[(a + 5) % 10]);
    w.push("<last@x.org>".into());
    note(&src);
    let t = run_with(&mut c, compile(&src), 32, &mut reply_true);
    let g = events(&t);
    reach(1);
    check(t.err.is_none() && g == w, 2, "a change is read back at once, and announced once");
}
}
