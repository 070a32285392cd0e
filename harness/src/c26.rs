//! C26: extensions can be used exactly where they are required, and only those the host allows.
use crate::run::*;
use crate::vf::*;
use sieve::compiler::grammar::Capability;

/// a construct and the extensions it belongs to
const TAB: &[(&str, &[&str])] = &[
    ("keep :flags \"a\";", &["imap4flags"]), ("keep;", &[]), ("discard;", &[]), ("stop;", &[]), ("redirect \"x@y.org\";", &[]),
    ("fileinto \"x\";", &["fileinto"]), ("fileinto :copy \"x\";", &["fileinto", "copy"]), ("fileinto :create \"x\";", &["fileinto", "mailbox"]), ("fileinto :flags \"a\" \"x\";", &["fileinto", "imap4flags"]), ("fileinto :mailboxid \"i\" \"x\";", &["fileinto", "mailboxid"]), ("fileinto :specialuse \"\\\\Junk\" \"x\";", &["fileinto", "special-use"]),
    ("redirect :copy \"x@y.org\";", &["copy"]), ("redirect :list \"tag:x\";", &["extlists"]), ("redirect :bytimerelative 600 \"x@y.org\";", &["redirect-deliverby"]), ("redirect :bytimeabsolute \"2023-11-14T10:00:00Z\" :bytrace \"x@y.org\";", &["redirect-deliverby"]), ("redirect :bytimerelative 600 :bymode \"notify\" \"x@y.org\";", &["redirect-deliverby"]), ("redirect :notify \"never\" \"x@y.org\";", &["redirect-dsn"]), ("redirect :ret \"full\" \"x@y.org\";", &["redirect-dsn"]),
    ("reject \"r\";", &["reject"]), ("ereject \"r\";", &["ereject"]), ("setflag \"a\";", &["imap4flags"]), ("addflag \"a\";", &["imap4flags"]), ("removeflag \"a\";", &["imap4flags"]),
    ("include \"a\";", &["include"]), ("return;", &["include"]), ("global \"g\";", &["include", "variables"]), ("set \"a\" \"b\";", &["variables"]),
    ("vacation \"r\";", &["vacation"]), ("vacation :seconds 5 \"r\";", &["vacation", "vacation-seconds"]), ("vacation :days 5 \"r\";", &["vacation"]), ("vacation :fcc \"f\" \"r\";", &["vacation", "fcc"]), ("vacation :fcc \"f\" :create \"r\";", &["vacation", "fcc", "mailbox"]), ("vacation :fcc \"f\" :flags \"a\" \"r\";", &["vacation", "fcc", "imap4flags"]), ("vacation :fcc \"f\" :specialuse \"\\\\Sent\" \"r\";", &["vacation", "fcc", "special-use"]), ("vacation :fcc \"f\" :mailboxid \"i\" \"r\";", &["vacation", "fcc", "mailboxid"]),
    ("notify \"mailto:x@y.org\";", &["enotify"]), ("notify :fcc \"f\" \"mailto:x@y.org\";", &["enotify", "fcc"]), ("notify :fcc \"f\" :create \"mailto:x@y.org\";", &["enotify", "fcc", "mailbox"]), ("notify :fcc \"f\" :flags \"a\" \"mailto:x@y.org\";", &["enotify", "fcc", "imap4flags"]), ("notify :fcc \"f\" :specialuse \"\\\\Sent\" \"mailto:x@y.org\";", &["enotify", "fcc", "special-use"]), ("notify :fcc \"f\" :mailboxid \"i\" \"mailto:x@y.org\";", &["enotify", "fcc", "mailboxid"]),
    ("foreverypart { keep; }", &["foreverypart"]), ("foreverypart :name \"n\" { break :name \"n\"; }", &["foreverypart"]), ("replace \"r\";", &["replace"]), ("enclose \"r\";", &["enclose"]), ("extracttext \"v\";", &["extracttext"]), ("convert \"text/html\" \"text/plain\" [\"a=b\"];", &["convert"]),
    ("addheader \"X-A\" \"v\";", &["editheader"]), ("deleteheader \"X-A\";", &["editheader"]), ("deleteheader :count \"gt\" \"X-A\" \"1\";", &["editheader", "relational"]), ("deleteheader :value \"gt\" \"X-A\" \"1\";", &["editheader", "relational"]), ("deleteheader :regex \"X-A\" \"1\";", &["editheader", "regex"]), ("deleteheader :index 1 :last \"X-A\";", &["editheader"]), ("deleteheader :mime :anychild \"X-A\";", &["editheader", "mime"]),
    ("while \"1 == 1\" { keep; }", &["vnd.stalwart.while"]), ("while \"1 == 1\" { continue; }", &["vnd.stalwart.while"]), ("let \"a\" \"1\";", &["vnd.stalwart.expressions"]), ("eval \"1\";", &["vnd.stalwart.expressions"]), ("error \"x\";", &["ihave"]),
    ("if envelope \"from\" \"x\" { keep; }", &["envelope"]), ("if envelope :user \"from\" \"x\" { keep; }", &["envelope", "subaddress"]), ("if body \"x\" { keep; }", &["body"]), ("if date \"date\" \"year\" \"2023\" { keep; }", &["date"]), ("if currentdate \"year\" \"2023\" { keep; }", &["date"]), ("if duplicate { keep; }", &["duplicate"]), ("if string \"a\" \"b\" { keep; }", &["variables"]),
    ("if valid_notify_method \"mailto:x\" { keep; }", &["enotify"]), ("if notify_method_capability \"mailto:x\" \"online\" \"yes\" { keep; }", &["enotify"]), ("if environment \"x\" \"y\" { keep; }", &["environment"]), ("if valid_ext_list \"x\" { keep; }", &["extlists"]), ("if ihave \"fileinto\" { keep; }", &["ihave"]), ("if hasflag \"a\" { keep; }", &["imap4flags"]),
    ("if mailboxexists \"a\" { keep; }", &["mailbox"]), ("if metadata \"a\" \"/x\" \"v\" { keep; }", &["mboxmetadata"]), ("if metadataexists \"a\" \"/x\" { keep; }", &["mboxmetadata"]), ("if servermetadata \"/x\" \"v\" { keep; }", &["servermetadata"]), ("if servermetadataexists \"/x\" { keep; }", &["servermetadata"]), ("if mailboxidexists \"a\" { keep; }", &["mailboxid"]),
    ("if spamtest :value \"ge\" \"1\" { keep; }", &["spamtest", "relational"]), ("if spamtest :percent :value \"ge\" \"1\" { keep; }", &["spamtestplus", "relational"]), ("if virustest :value \"ge\" \"1\" { keep; }", &["virustest", "relational"]), ("if specialuse_exists \"\\\\Junk\" { keep; }", &["special-use"]), ("if eval \"1\" { keep; }", &["vnd.stalwart.expressions"]),
    ("if header \"X-A\" \"v\" { keep; }", &[]), ("if header :index 1 \"X-A\" \"v\" { keep; }", &["index"]), ("if header :index 1 :last \"X-A\" \"v\" { keep; }", &["index"]), ("if header :count \"eq\" \"X-A\" \"1\" { keep; }", &["relational"]), ("if header :value \"eq\" \"X-A\" \"1\" { keep; }", &["relational"]), ("if header :regex \"X-A\" \"v\" { keep; }", &["regex"]), ("if header :list \"X-A\" \"tag:x\" { keep; }", &["extlists"]), ("if header :mime :type \"Content-Type\" \"v\" { keep; }", &["mime"]), ("if header :mime :anychild \"X-A\" \"v\" { keep; }", &["mime"]), ("if exists :mime \"X-A\" { keep; }", &["mime"]), ("if address :user \"from\" \"x\" { keep; }", &["subaddress"]), ("if address :detail \"from\" \"x\" { keep; }", &["subaddress"]), ("if address :domain \"from\" \"x\" { keep; }", &[]), ("if address :index 1 \"from\" \"x\" { keep; }", &["index"]),
    ("if size :over 5 { keep; }", &[]), ("if exists \"X-A\" { keep; }", &[]), ("if true { keep; }", &[]),
];
/// extensions as require statements, in one of several forms
fn req(caps: &[&str], form: usize) -> String {
    if caps.is_empty() { return String::new() }
    match form {
        0 => format!("require [{}];", caps.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", ")),
        1 => caps.iter().rev().map(|c| format!("require \"{c}\";")).collect(),
        _ => format!("require [\"body\", \"{}\"]; ", caps.join("\",\"")) + "require \"date\";",
    }
}
entry!{
/// each of 102 constructs (all actions and tests with the tags of extensions), with all, or all but one, of the extensions it belongs to required in 3 forms, at the place of use or before it, in the same block, an outer block, or in a block before: compiles exactly if none is missing there; the error names one that is missing
/// reach: 1 2
h_c26_use {
    let (src, caps) = pick(TAB);
    let mut have: Vec<&str> = caps.to_vec();
    let gone = if have.is_empty() { 0 } else { choose(have.len() + 1) };
    let missing = if gone > 0 { Some(have.remove(gone - 1)) } else { None };
    let form = choose(3);
    let r = req(&have, form);
    // the missing one required where it does not count
    let m = missing.unwrap_or("copy");
    let (s, out) = match choose(6) {
        0 => (format!("{r}{src}"), missing),
        1 => (format!("{r} if true {{ {src} }}"), missing),
        2 => (format!("if true {{ {r}{src} }}"), missing),
        3 => (format!("if true {{ require \"{m}\"; stop; }} {r}{src}"), missing),
        4 => (format!("{r} if true {{ keep; }} elsif true {{ require \"{m}\"; {src} }}"), None),
        _ => (format!("{r} if true {{ require \"{m}\"; }} else {{ {src} }}"), missing),
    };
    let out = out.filter(|c| !(form == 2 && !have.is_empty() && (*c == "body" || *c == "date")));
    note(&s);
    let res = Compiler::new().compile(s.as_bytes());
    obs(res.is_ok() as u64);
    reach(1 + out.is_some() as u32);
    match (res, out) {
        (Ok(_), None) => {}
        (Ok(_), Some(_)) => check(false, 2, "a construct of an extension that is not required is rejected"),
        (Err(e), o) => {
            note(&format!("{e}"));
            check(o.is_some(), 3, "what is required can be used");
            match e.error_type() { ErrorType::UndeclaredCapability(c) => { let n = c.to_string(); check(n == o.unwrap() || (o == Some("spamtestplus") && n == "spamtest"), 4, "the error names the missing extension") } _ => check(false, 5, "the error is about the missing extension") }
        }
    }
}
}
const ALL: &[&str] = &["envelope", "envelope-dsn", "envelope-deliverby", "fileinto", "encoded-character", "comparator-elbonia", "comparator-i;octet", "comparator-i;ascii-casemap", "comparator-i;ascii-numeric", "body", "convert", "copy", "relational", "date", "index", "duplicate", "variables", "editheader", "foreverypart", "mime", "replace", "enclose", "extracttext", "enotify", "redirect-dsn", "redirect-deliverby", "environment", "reject", "ereject", "extlists", "subaddress", "vacation", "vacation-seconds", "fcc", "mailbox", "mailboxid", "mboxmetadata", "servermetadata", "special-use", "imap4flags", "ihave", "imapsieve", "include", "regex", "spamtest", "spamtestplus", "virustest", "vnd.stalwart.while", "vnd.stalwart.expressions", "vnd.other", "comparator-x"];
fn all_allowed(mut r: Runtime) -> Runtime { for n in ALL { r = r.with_capability(*n) } r }
entry!{
/// each of 51 extension names required (alone or with others, at the start, in a block that is or is not entered, later in the script) while the host allows the default set, everything, everything but it, or everything but another: the run stops with an error naming it exactly when it is not allowed and the require is reached, and the message is kept
/// reach: 1 2 3
h_c26_runtime {
    let k = choose(ALL.len());
    let n = ALL[k];
    let other = ALL[(k + 1) % (ALL.len() - 2)];
    let host = choose(4);
    let mut r = rt();
    let std = k < 47;
    let allowed = match host {
        0 => std,
        1 => { r = all_allowed(r); true }
        2 => { r = all_allowed(r).without_capability(n); false }
        _ => { r = r.with_capability(n).without_capability(other); true }
    };
    let place = choose(4);
    let q = if choose_bool() { format!("require \"{n}\";") } else { format!("require [\"{n}\", \"{n}\"];") };
    let src = match place { 0 => format!("{q} keep; stop;"), 1 => format!("if true {{ {q} }} discard;"), 2 => format!("if false {{ {q} }} discard;"), _ => format!("redirect \"x@y.org\"; {q} discard;") };
    note(&src);
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, compile_checked(&src), 64, &mut reply_true);
    obs_trace(&t);
    check(t.ended, 1, "ends");
    let bad = !allowed && place != 2;
    reach(if bad { 1 } else if allowed { 2 } else { 3 });
    check(t.err.is_some() == bad, 2, "an error exactly when the extension is not allowed");
    if bad {
        let name = match t.err.as_ref().unwrap() { RuntimeError::CapabilityNotAllowed(c) => { check(n != "vnd.other", 3, "kind of error"); c.to_string() } RuntimeError::CapabilityNotSupported(c) => { check(n == "vnd.other", 4, "kind of error"); c.clone() } _ => "?".into() };
        note(&name);
        check(name == n || n == "comparator-x" && name == "x", 5, "the error names the extension");
    }
    let kept = t.ev.iter().filter(|e| matches!(e, Event::Keep { .. })).count();
    let sent = t.ev.iter().filter(|e| matches!(e, Event::SendMessage { .. })).count();
    check(sent == (place == 3) as usize, 6, "what came before took place");
    // a redirection before the error has cancelled the implicit keep
    check(kept == (place == 0 || (bad && place == 1)) as usize, 7, "kept when the run is stopped");
}
}
entry!{
/// ihave with any two of 51 names, negated or not, for the same hosts; and every name of Capability::all() read back from its printed form
/// reach: 1 2
h_c26_ihave {
    if choose_bool() {
        let all = Capability::all();
        let c = &all[choose(all.len())];
        let n = c.to_string();
        note(&n);
        obs_bytes(n.as_bytes());
        reach(2);
        check(ALL.contains(&n.as_str()) && Capability::parse(&n) == *c, 1, "a name stands for one extension");
        return
    }
    let a = choose(ALL.len());
    let b = choose(ALL.len());
    assume(thorough() || a == b || a == (b + 1) % ALL.len() || a == 3);
    let host = choose(3);
    let mut r = rt();
    let ok = |k: usize| { let n = ALL[k]; n != "variables" && n != "encoded-character" && match host { 0 => k < 47, 1 => true, _ => k != a } };
    match host { 1 => r = all_allowed(r), 2 => { assume(ALL[a] != "ihave"); r = all_allowed(r).without_capability(ALL[a]) } _ => {} }
    let not = choose_bool();
    let src = format!("require \"ihave\"; if {}ihave [\"{}\", \"{}\"] {{ discard; }}", if not { "not " } else { "" }, ALL[a], ALL[b]);
    note(&src);
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, compile_checked(&src), 64, &mut reply_true);
    obs_trace(&t);
    reach(1);
    check(t.err.is_none() && matches!(t.ev[0], Event::Discard) == ((ok(a) && ok(b)) ^ not), 2, "true exactly if all can be used");
}
}
entry!{
/// with ihave required, an unknown or foreign command or test compiles and is an error only when reached; without it an unknown command is rejected
/// reach: 1 2 3
h_c26_unknown {
    let cmd = *pick(&["frob;", "frob \"x\" :tag 5;", "frob { fileinto \"in\"; }", "frob [\"a\", \";\"] (x, y) { a { b; } }", "frob \"}\" { \"{\"; }"]);
    let reached = choose_bool();
    let ih = choose_bool();
    let place = choose(3);
    let body = match place { 0 => cmd.to_string(), 1 => format!("if true {{ {cmd} }}"), _ => format!("if frobtest \"x\" :y (1, 2) {{ discard; }} {}", if cmd.ends_with(';') { "" } else { "keep;" }) };
    let src = format!("{}{}{body} discard;", if ih { "require \"ihave\";" } else { "" }, if reached { "" } else { "stop;" });
    note(&src);
    let res = Compiler::new().compile(src.as_bytes());
    obs(res.is_ok() as u64);
    if !ih && place != 2 { reach(3); check(res.is_err(), 1, "rejected"); return }
    check(res.is_ok(), 2, "compiles");
    let r = rt();
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, res.ok().unwrap(), 64, &mut reply_true);
    obs_trace(&t);
    reach(if reached { 1 } else { 2 });
    if reached {
        check(matches!(&t.err, Some(RuntimeError::InvalidInstruction(i)) if i.name() == if place == 2 { "frobtest" } else { "frob" }), 3, "an error that names it");
        check(t.ev.len() == 1 && matches!(t.ev[0], Event::Keep { .. }), 4, "kept");
    } else { check(t.err.is_none() && t.ev.len() == 1 && matches!(t.ev[0], Event::Keep { .. }), 5, "not reached, no error") }
}
}
