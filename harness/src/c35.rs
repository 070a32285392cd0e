//! C35: every setting of the host interface has its effect, in each of its forms, and no effect on anything else.
use crate::c30;
use crate::run::*;
use crate::vf::*;
use sieve::compiler::grammar::Capability;

type RF = fn(Runtime) -> Runtime;
type CF = for<'x> fn(Context<'x>) -> Context<'x>;
enum Ap { R(&'static [RF]), C(&'static [CF]) }
struct Set { ap: Ap, msg: &'static str, src: &'static str, see: fn(&Trace) -> String, off: &'static str, on: &'static str, name: &'static str }
const M: &str = "From: Ann <ann@a.org>\r\nTo: bob@b.org\r\nSubject: hello\r\n\r\nbody\r\n";
const VAC: &str = "vacation :addresses \"bob@b.org\" \"away\";";
/// the actions, one letter each; folders by name
fn acts(t: &Trace) -> String {
    let mut s = String::new();
    for e in &t.ev { match e {
        Event::Keep { .. } => s.push('K'), Event::FileInto { folder, .. } => { s.push('<'); s.push_str(folder); s.push('>') }
        Event::SendMessage { .. } => s.push('S'), Event::Notify { .. } => s.push('N'), Event::Discard => s.push('D'), Event::Reject { .. } => s.push('R'), _ => {}
    } }
    if t.err.is_some() { s.push('E') }
    s
}
fn expiry(t: &Trace) -> String { for e in &t.ev { if let Event::DuplicateId { expiry, .. } = e { return expiry.to_string() } } "none".into() }
fn msgs(t: &Trace, f: &str) -> String {
    for e in &t.ev { if let Event::CreatedMessage { message, .. } = e { for l in String::from_utf8_lossy(message).split("\r\n") { if let Some(v) = l.strip_prefix(f) { return v.trim().into() } } } }
    "none".into()
}
fn subject(t: &Trace) -> String { msgs(t, "Subject:") }
fn from(t: &Trace) -> String { msgs(t, "From:") }
fn host(t: &Trace) -> String { let m = msgs(t, "Message-ID:"); match m.rsplit_once('@') { Some((_, h)) => h.into(), None => m } }

macro_rules! set { ($r:ident, $e:expr) => { |mut $r| { $e; $r } } }
static SETS: &[Set] = &[
    Set { name: "cpu_limit", ap: Ap::R(&[set!(r, r.set_cpu_limit(60)), |r| r.with_cpu_limit(60)]), msg: M, src: "let \"i\" \"0\"; while \"i < 40\" { let \"i\" \"i + 1\"; } discard;", see: acts, off: "D", on: "KE" },
    Set { name: "max_nested_includes", ap: Ap::R(&[set!(r, r.set_max_nested_includes(1)), |r| r.with_max_nested_includes(1)]), msg: M, src: "include \"two\"; discard;", see: acts, off: "D", on: "KE" },
    Set { name: "max_redirects", ap: Ap::R(&[set!(r, r.set_max_redirects(2)), |r| r.with_max_redirects(2)]), msg: M, src: "redirect :copy \"a@b.c\"; redirect :copy \"d@b.c\"; discard;", see: acts, off: "SD", on: "SSD" },
    Set { name: "max_out_messages", ap: Ap::R(&[set!(r, r.set_max_out_messages(2)), |r| r.with_max_out_messages(2)]), msg: M, src: "notify \"mailto:a@b.c\"; notify \"mailto:a@b.c\"; notify \"mailto:a@b.c\"; discard;", see: acts, off: "SSSD", on: "SSND" },
    Set { name: "max_received_headers", ap: Ap::R(&[set!(r, r.set_max_received_headers(1)), |r| r.with_max_received_headers(1)]), msg: "Received: from a by b\r\nFrom: a@b.c\r\n\r\nx", src: "redirect :copy \"a@b.c\"; discard;", see: acts, off: "SD", on: "D" },
    Set { name: "max_variable_size", ap: Ap::R(&[set!(r, r.set_max_variable_size(9)), |r| r.with_max_variable_size(9)]), msg: M, src: "set \"x\" \"0123456789\"; fileinto \"${x}\";", see: acts, off: "<0123456789>", on: "<012345678>" },
    Set { name: "max_header_size", ap: Ap::R(&[set!(r, r.set_max_header_size(30)), |r| r.with_max_header_size(30)]), msg: M, src: "addheader \"X-L\" \"0123456789012345678901234567890123456789end\"; if header :contains \"x-l\" \"end\" { discard; }", see: acts, off: "D", on: "K" },
    Set { name: "default_vacation_expiry", ap: Ap::R(&[set!(r, r.set_default_vacation_expiry(777)), |r| r.with_default_vacation_expiry(777)]), msg: M, src: VAC, see: expiry, off: "2592000", on: "777" },
    Set { name: "default_duplicate_expiry", ap: Ap::R(&[set!(r, r.set_default_duplicate_expiry(888)), |r| r.with_default_duplicate_expiry(888)]), msg: M, src: "if duplicate :uniqueid \"x\" { discard; }", see: expiry, off: "604800", on: "888" },
    Set { name: "without_capability", ap: Ap::R(&[set!(r, r.unset_capability("imap4flags")), |r| r.without_capability("imap4flags"), |r| r.without_capability(Capability::Imap4Flags), |r| r.without_capabilities(["imap4flags"])]), msg: M, src: "require \"imap4flags\"; discard;", see: acts, off: "D", on: "KE" },
    Set { name: "capability", ap: Ap::R(&[set!(r, r.set_capability("vnd.x")), |r| r.with_capability("vnd.x"), |r| r.with_capability(Capability::Other("vnd.x".into()))]), msg: M, src: "require \"vnd.x\"; discard;", see: acts, off: "KE", on: "D" },
    Set { name: "protected_header", ap: Ap::R(&[set!(r, r.set_protected_header("X-P")), |r| r.with_protected_header("x-p")]), msg: M, src: "addheader \"X-P\" \"1\"; if exists \"x-p\" { discard; }", see: acts, off: "D", on: "K" },
    Set { name: "original-subject stays protected", ap: Ap::R(&[set!(r, r.set_protected_header("X-P2")), |r| r.with_protected_header("X-P3")]), msg: M, src: "addheader \"Original-Subject\" \"1\"; addheader \"Original-From\" \"1\"; if exists \"original-subject\" { discard; } if exists \"original-from\" { discard; }", see: acts, off: "K", on: "K" },
    Set { name: "only these headers are protected", ap: Ap::R(&[|r| r.with_protected_headers(["X-Q", "Original-Subject"])]), msg: M, src: "addheader \"X-Q\" \"1\"; addheader \"Original-From\" \"1\"; if exists \"x-q\" { fileinto \"a\"; } if exists \"original-from\" { fileinto \"b\"; }", see: acts, off: "<a>", on: "<b>" },
    Set { name: "env of the runtime", ap: Ap::R(&[set!(r, r.set_env_variable("vnd.r", "one")), |r| r.with_env_variable("vnd.r", "one")]), msg: M, src: "if environment :is \"vnd.r\" \"one\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "env of the run", ap: Ap::C(&[set!(c, c.set_env_variable("vnd.c", "two")), |c| c.with_env_variable("vnd.c", "two"), |c| c.with_vars_env([("vnd.c".into(), "two".to_string().into())].into_iter().collect())]), msg: M, src: "if environment :is \"vnd.c\" \"two\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "env of the run before that of the runtime", ap: Ap::C(&[set!(c, c.set_env_variable("name", "n")), |c| c.with_env_variable("name", "n")]), msg: M, src: "fileinto \"${env.name}\";", see: acts, off: "<Stalwart Sieve>", on: "<n>" },
    Set { name: "metadata of the runtime", ap: Ap::R(&[set!(r, r.set_medatata(Metadata::server("/shared/a"), "m")), |r| r.with_metadata(Metadata::server("/shared/a"), "m")]), msg: M, src: "if servermetadata :is \"/shared/a\" \"m\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "metadata of the run", ap: Ap::C(&[set!(c, c.set_medatata(Metadata::mailbox("INBOX", "/p"), "m")), |c| c.with_metadata(Metadata::mailbox("INBOX", "/p"), "m")]), msg: M, src: "if metadata :is \"INBOX\" \"/p\" \"m\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "valid_notification_uri", ap: Ap::R(&[set!(r, r.set_valid_notification_uri("tel")), |r| r.with_valid_notification_uri("tel"), |r| r.with_valid_notification_uris(["sip", "tel"])]), msg: M, src: "if valid_notify_method \"tel:1\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "valid_ext_list", ap: Ap::R(&[set!(r, r.set_valid_ext_list("l:x")), |r| r.with_valid_ext_list("l:x"), |r| r.with_valid_ext_lists(["y", "l:x"])]), msg: M, src: "if valid_ext_list \"l:x\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "vacation_use_orig_rcpt", ap: Ap::R(&[set!(r, r.set_vacation_use_orig_rcpt(true)), |r| r.with_vacation_use_orig_rcpt(true)]), msg: "From: ann@a.org\r\nTo: orig@o.org\r\n\r\nx", src: "vacation \"away\"; discard;", see: acts, off: "D", on: "SD" },
    Set { name: "vacation_default_subject", ap: Ap::R(&[set!(r, r.set_vacation_default_subject("Out")), |r| r.with_vacation_default_subject("Out")]), msg: "From: Ann <ann@a.org>\r\nTo: bob@b.org\r\n\r\nbody\r\n", src: VAC, see: subject, off: "Automated reply", on: "Out" },
    Set { name: "vacation_subject_prefix", ap: Ap::R(&[set!(r, r.set_vacation_subject_prefix("Re:: ")), |r| r.with_vacation_subject_prefix("Re:: ")]), msg: M, src: VAC, see: subject, off: "Auto: hello", on: "Re:: hello" },
    Set { name: "local_hostname", ap: Ap::R(&[set!(r, r.set_local_hostname("zz.org")), |r| r.with_local_hostname("zz.org")]), msg: M, src: VAC, see: host, off: "localhost>", on: "zz.org>" },
    Set { name: "local_hostname, notify", ap: Ap::R(&[set!(r, r.set_local_hostname("zz.org")), |r| r.with_local_hostname("zz.org")]), msg: M, src: "notify \"mailto:a@b.c\";", see: host, off: "localhost>", on: "zz.org>" },
    Set { name: "user_address", ap: Ap::C(&[set!(c, c.set_user_address("me@u.org")), |c| c.with_user_address("me@u.org")]), msg: M, src: "redirect \"me@u.org\";", see: acts, off: "S", on: "K" },
    Set { name: "user_full_name", ap: Ap::C(&[set!(c, c.set_user_full_name("A \"B\" \\")), |c| c.with_user_full_name("A \"B\" \\")]), msg: M, src: "notify \"mailto:a@b.c\";", see: |t| from(t).rsplit_once(" <").map_or("", |x| x.0).into(), off: "", on: "\"A \\\"B\\\" \\\\\"" },
    Set { name: "global_variable", ap: Ap::C(&[set!(c, c.set_global_variable("gx", "v")), |c| c.with_global_variable("gx", "v")]), msg: M, src: "global \"gx\"; fileinto \"<${gx}>\";", see: acts, off: "<<>>", on: "<<v>>" },
    Set { name: "spam_status", ap: Ap::C(&[set!(c, c.set_spam_status(SpamStatus::Ham)), |c| c.with_spam_status(SpamStatus::Ham), |c| c.with_spam_status(1u32)]), msg: M, src: "if spamtest :is \"1\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "virus_status", ap: Ap::C(&[set!(c, c.set_virus_status(VirusStatus::Clean)), |c| c.with_virus_status(VirusStatus::Clean), |c| c.with_virus_status(1u32)]), msg: M, src: "if virustest :is \"1\" { discard; }", see: acts, off: "K", on: "D" },
    Set { name: "envelope", ap: Ap::C(&[set!(c, c.set_envelope(Envelope::Envid, "e1")), |c| c.with_envelope("envid", "e1"), |c| c.with_envelope(Envelope::Envid, "e1")]), msg: M, src: "fileinto \"<${envelope.envid}>\";", see: acts, off: "<<>>", on: "<<e1>>" },
];
fn outcome(r: &Runtime, cs: &[CF], s: &Set) -> String {
    let script = if s.src.starts_with("require") { compile_checked(s.src) } else { compile(s.src) };
    let mut c = r.filter(s.msg.as_bytes()).with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org").with_envelope(Envelope::Orcpt, "orig@o.org");
    for f in cs { c = f(c) }
    let mut n = 0;
    (s.see)(&run_with(&mut c, script, 30, &mut |e| match e {
        Event::IncludeScript { name, .. } => { n += 1; Input::script(name.as_str().to_string(), compile(if n == 1 { "include \"three\";" } else { "keep; discard;" })) }
        Event::DuplicateId { .. } | Event::ListContains { .. } | Event::MailboxExists { .. } => Input::False,
        _ => Input::True,
    }))
}
entry!{
/// every pair of 32 settings of the runtime and of a run, each applied or not, in each of its two to four forms and in either order; the outcome of a script probing any one of the settings is decided by that setting alone
/// reach: 1 2
h_c35_settings {
    let (a, b) = (choose(SETS.len()), choose(SETS.len()));
    let p = match choose(if thorough() { 3 } else { 2 }) { 0 => a, 1 => b, _ => choose(SETS.len()) };
    let mut on = vec![a];
    if a != b { on.push(b) }
    let leave = choose_bool();
    if leave { on.retain(|x| *x != p) }
    let mut r = rt();
    let mut cs = vec![];
    for x in &on { match &SETS[*x].ap { Ap::R(f) => r = pick(f)(r), Ap::C(f) => cs.push(*pick(f)) } }
    let s = &SETS[p];
    let same = |x: &usize| SETS[*x].name.split(',').next() == s.name.split(',').next();
    let want = if on.iter().any(same) { reach(1); s.on } else { reach(2); s.off };
    // replacing the whole list of protected headers or of variables undoes single ones
    let whole = on.iter().any(|x| SETS[*x].name.starts_with("only") || SETS[*x].name.starts_with("env of the run"));
    assume(!(whole && on.iter().chain([&p]).any(|x| SETS[*x].name.contains("protected") && !SETS[*x].name.starts_with("only") || SETS[*x].name.contains("before that"))));
    let got = outcome(&r, &cs, s);
    note(&format!("{} with {:?}: {got:?}, not {want:?}", s.name, on.iter().map(|x| SETS[*x].name).collect::<Vec<_>>()));
    obs_bytes(got.as_bytes());
    check(got == want, 2, "the setting, and it alone, decides");
}
}
entry!{
/// a run over one of 4 messages handed over as bytes or already parsed, after any 3 calls out of set_envelope, with_envelope_list, clear_envelope, then any two of 7 statements: same events; the envelope is what the last calls left; the names of the global variables are those set; the message is changed exactly if a statement changes it, and is what a further run sees
/// reach: 1 2 3
h_c35_views {
    let msg = *pick(&[M.as_bytes(), c30::MSG2, b"", b"X-A: 1\r\n\r\n"]);
    let mut env: Vec<(Envelope, &str)> = vec![];
    let mut steps = vec![];
    for _ in 0..tier(2, 3) { let k = choose(5); steps.push(k); match k { 0 => env.push((Envelope::Envid, "e1")), 1 => env.push((Envelope::From, "f@f.org")), 2 => env = vec![(Envelope::From, "g@g.org"), (Envelope::Ret, "FULL")], 3 => env.clear(), _ => {} } }
    let stm = ["", "set \"global.a\" \"1\";", "let \"global.b\" \"2\";", "addheader \"X-New\" \"v\";", "deleteheader \"X-A\";", "deleteheader \"subject\";", "replace \"new body\";"];
    let (s1, s2) = (choose(7), choose(7));
    let src = format!("{}{}fileinto \"${{envelope.envid}}|${{envelope.from}}|${{envelope.ret}}\";", stm[s1], stm[s2]);
    note(&src);
    let r = rt();
    let mut out = vec![];
    for parsed in [false, true] {
        let mut c = if parsed { match mail_parser::MessageParser::new().parse(msg) { Some(m) => r.filter_parsed(m), None => r.filter(msg) } } else { r.filter(msg) };
        for k in &steps { match k { 0 => c.set_envelope("envid", "e1"), 1 => c = c.with_envelope(Envelope::From, "f@f.org"), 2 => c = c.with_envelope_list(vec![(Envelope::From, "g@g.org".into()), (Envelope::Ret, "FULL".into())]), 3 => c.clear_envelope(), _ => {} } }
        check(!c.has_message_changed(), 3, "nothing has changed before the run");
        let t = run_with(&mut c, compile(&src), 20, &mut reply_true);
        check(t.ended && t.err.is_none(), 1, "the run ends");
        let get = |e: Envelope| env.iter().find(|x| x.0 == e).map_or("", |x| x.1);
        let want = format!("{}|{}|{}", get(Envelope::Envid), get(Envelope::From), get(Envelope::Ret));
        check(folders(&t) == [want], 2, "the envelope as the last calls left it");
        let mut names: Vec<String> = c.global_variable_names().map(|x| x.to_string()).collect();
        names.sort();
        let mut wn = vec![]; if s1 == 1 || s2 == 1 { wn.push("a") } if s1 == 2 || s2 == 2 { wn.push("b") }
        check(names == wn, 4, "the names of the global variables set");
        for n in &wn { check(gstr(&c, n).as_deref() == Some(if *n == "a" { "1" } else { "2" }), 5, "the value of a global variable"); }
        // what the message is now, seen by the host and by a second script
        let has = |n: &str| c.message().parts[0].headers.iter().any(|h| h.name.as_str().eq_ignore_ascii_case(n));
        let orig = |n: &str| String::from_utf8_lossy(msg).to_ascii_lowercase().split("\r\n\r\n").next().unwrap_or("").split("\r\n").any(|l| l.starts_with(&format!("{n}:")));
        let wnew = (s1 == 3 || s2 == 3, orig("x-a") && s1 != 4 && s2 != 4);
        let edits = s1 == 3 || s2 == 3 || orig("x-a") && !wnew.1 || orig("subject") && (s1 == 5 || s2 == 5) || s1 == 6 || s2 == 6;
        let repl = s1 == 6 || s2 == 6;
        if edits { reach(2) } else { reach(3) }
        check(repl || has("x-new") == wnew.0 && has("x-a") == wnew.1, 6, "the fields of the message");
        check(c.has_message_changed() == edits, 7, "whether the message has changed");
        let t2 = run_with(&mut c, compile("if exists \"x-new\" { fileinto :copy \"n\"; } if exists \"x-a\" { fileinto :copy \"a\"; } discard;"), 20, &mut reply_true);
        let mut w = vec![]; if wnew.0 { w.push("n") } if wnew.1 { w.push("a") } w.push("-");
        if !repl { check(folders(&t2) == w, 8, "a further run sees the message as it is"); }
        let n = c.message().parts.len();
        let m = c.take_message();
        check(m.parts.len() == n && c.message().parts.is_empty(), 9, "the message can be taken");
        out.push((format!("{:?}", t.ev), m.parts.iter().map(|p| p.headers.len()).collect::<Vec<_>>()));
        reach(1);
    }
    check(s1 == 6 || s2 == 6 || out[0] == out[1], 10, "parsed by the host or here, it is the same");
}
}

entry!{
/// one environment item (of 9 names, those of RFC 5183 among them) given a value by the runtime, by the run, by both (also twice, with others), or by neither, read by ${env.x} and the environment test: the run's value is the one that counts, else the runtime's
/// reach: 1 2 3
h_c35_shadow {
    let n = *pick(&["vnd.x", "name", "version", "host", "domain", "location", "phase", "remote-host", "vnd.stalwart.y"]);
    let (in_rt, in_ctx) = (choose(3), choose(4));
    let mut r = rt();
    if in_rt == 1 { r = r.with_env_variable(n, "old").with_env_variable(n, "runtime") } else if in_rt == 2 { r.set_env_variable(n, "runtime"); r.set_env_variable("vnd.z", "z") }
    let probe = choose(2);
    let src = match probe { 0 => format!("if environment :is \"{n}\" \"run\" {{ fileinto \"C\"; }} elsif environment :is \"{n}\" \"runtime\" {{ fileinto \"R\"; }} else {{ fileinto \"N\"; }}"), _ => format!("if string :is \"${{env.{n}}}\" \"run\" {{ fileinto \"C\"; }} elsif string :is \"${{env.{n}}}\" \"runtime\" {{ fileinto \"R\"; }} else {{ fileinto \"N\"; }}") };
    assume(probe == 0 || !n.contains('-'));
    let mut c = ctx(&r, MSG);
    match in_ctx { 1 => c.set_env_variable(n, "run"), 2 => c = c.with_env_variable(n, "run"), 3 => { c.set_env_variable(n, "older"); c = c.with_env_variable("vnd.q", "q").with_env_variable(n, "run") } _ => {} }
    note(&src);
    note(&format!("{n}: runtime {in_rt}, run {in_ctx}"));
    let t = run_with(&mut c, compile(&src), 8, &mut reply_true);
    let f = folders(&t);
    let w = if in_ctx > 0 { reach(1); "C" } else if in_rt > 0 { reach(2); "R" } else { reach(3); "N" };
    obs_bytes(f[0].as_bytes());
    check(f[0] == w, 2, "the value of the run counts, else that of the runtime");
}
}
