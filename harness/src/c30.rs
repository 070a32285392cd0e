//! C30: every argument of every command reaches it with the value written, literally or through any variable.
use crate::run::*;
use crate::vf::*;
use sieve::compiler::grammar::actions::action_redirect::{ByMode, ByTime, Notify, NotifyItem, Ret};

pub const MSG2: &[u8] = b"From: \"Ann B\" <ann@a.org>\r\nTo: bob@b.org, cy@c.org\r\nSubject: hello\r\nX-N: 5\r\nMessage-ID: <m1@a.org>\r\nDate: Tue, 14 Nov 2023 10:00:00 +0100\r\nContent-Type: multipart/mixed; boundary=\"b\"\r\n\r\n--b\r\nContent-Type: text/plain; charset=utf-8\r\n\r\npart one\r\n--b\r\nContent-Type: text/html\r\n\r\n<p>two</p>\r\n--b--\r\n";

/// `<<value>>` marks a string argument
pub struct Tpl { pub text: Vec<String>, pub slots: Vec<String> }
pub fn tpl(s: &str) -> Tpl {
    let (mut text, mut slots) = (vec![], vec![]);
    let mut r = s;
    while let Some(p) = r.find("<<") {
        let e = r.find(">>").unwrap();
        text.push(r[..p].to_string());
        slots.push(r[p + 2..e].to_string());
        r = &r[e + 2..];
    }
    text.push(r.to_string());
    Tpl { text, slots }
}
impl Tpl {
    pub fn fill(&self, slot: usize, how: &str) -> String {
        let mut o = self.text[0].clone();
        for (i, s) in self.slots.iter().enumerate() {
            o.push('"');
            o.push_str(if i == slot { how } else { s });
            o.push('"');
            o.push_str(&self.text[i + 1]);
        }
        o
    }
}
pub const FORMS: usize = 9;
/// the script that gives argument `slot` its value through a variable
pub fn via(t: &Tpl, slot: usize, form: usize) -> String {
    let v = &t.slots[slot];
    let b = |how: &str| t.fill(slot, how);
    match form {
        0 => b("${global.v}"),
        1 => format!("set \"v\" \"{v}\"; {}", b("${v}")),
        2 => format!("if true {{ set :local \"u\" \"q\"; set :local \"v\" \"{v}\"; }} {}", b("${v}")),
        3 => format!("set \"u\" \"q\"; if true {{ set \"v\" \"{v}\"; {} }}", b("${v}")),
        4 => { let (x, y) = v.split_at(1); format!("set \"w\" \"z\"; set \"v\" \"{y}\"; {}", b(&format!("{x}${{v}}"))) }
        5 => b("${env.v}"),
        6 => format!("if string :matches \"q-{v}\" \"*-*\" {{ {} }}", b("${2}")),
        7 => format!("global \"g\"; set \"g\" \"{v}\"; {}", b("${g}")),
        // registered at script level inside a block and used there: its slot is only known when compilation ends
        _ => format!("set \"u\" \"q\"; if true {{ set :local \"v\" \"{v}\"; if true {{ set \"w\" \"z\"; {} }} }}", b("${V}")),
    }
}
pub fn runtime() -> Runtime { rt().with_valid_notification_uri("mailto").with_valid_ext_list("urn:list").with_metadata(Metadata::Mailbox { name: "INBOX".to_string(), annotation: "/p/c".to_string() }, "note").with_metadata(Metadata::Server { annotation: "/s/m".to_string() }, "motd").with_max_out_messages(20).with_max_redirects(20) }
pub fn go_with(r: &Runtime, msg: &[u8], src: &str, v: &str) -> Trace {
    note(src);
    let mut c = ctx(r, msg);
    if src.contains("/* nouser */") { c.clear_envelope(); c = c.with_user_address("zed@z.org").with_envelope(Envelope::From, "ann@a.org"); }
    let mut c = c.with_env_variable("v", v.to_string()).with_env_variable("name", "host").with_spam_status(SpamStatus::MaybeSpam(0.5)).with_virus_status(VirusStatus::Clean);
    c.set_global_variable("v", v.to_string());
    let mut inc = false;
    let t = run_with(&mut c, compile(src), 64, &mut |e| match e {
        Event::IncludeScript { .. } if !inc => { inc = true; Input::script("s", compile("fileinto :copy \"included\";")) }
        Event::DuplicateId { .. } => Input::False,
        _ => Input::True,
    });
    check(t.ended, 3, "run ends");
    t
}
/// events with the random parts of generated messages (Message-ID, MIME boundary) made equal
pub fn norm(t: &Trace) -> Vec<Event> {
    t.ev.iter().map(|e| match e {
        Event::CreatedMessage { message_id, message } => {
            let mut m = String::from_utf8(message.clone()).unwrap();
            if let Some(p) = m.find("Message-ID: <1") { let e = p + m[p..].find("\r\n").unwrap(); m.replace_range(p..e, "Message-ID: <>"); }
            for key in ["boundary=\"1", "boundary=1"] {
                if let Some(p) = m.find(key) { let p = p + key.len() - 1; let b: String = m[p..].chars().take_while(|c| !"\"\r\n;".contains(*c)).collect(); m = m.replace(&b, "B"); }
            }
            Event::CreatedMessage { message_id: *message_id, message: m.into_bytes() }
        }
        e => e.clone(),
    }).collect()
}
pub fn obs_norm(t: &Trace) { for e in norm(t) { obs_event(&e) } obs(match &t.err { None => 0, Some(e) => 1 + errcode(e) }); obs(t.ended as u64) }
fn same(t: Tpl) {
    let slot = choose(t.slots.len());
    let form = choose(FORMS);
    let r = runtime();
    let lit = t.fill(usize::MAX, "");
    let a = go_with(&r, MSG2, &lit, &t.slots[slot]);
    let b = go_with(&r, MSG2, &via(&t, slot, form), &t.slots[slot]);
    obs_norm(&a);
    obs_norm(&b);
    reach(1);
    check(norm(&a) == norm(&b) && format!("{:?}", a.err) == format!("{:?}", b.err), 1, "an argument given through a variable acts as its literal value");
}
pub const ACT: &[&str] = &[
    "fileinto :mailboxid <<m-1>> :specialuse <<Sent2>> :flags [<<fa>>, <<fb>>] :create <<Folder>>;",
    "keep :flags [<<fa>>, <<fb fc>>];",
    "redirect :bytimeabsolute <<2030-01-02T03:04:05Z>> :bymode \"notify\" :bytrace <<x@y.org>>;",
    "redirect :list <<tag@list.org>>;",
    "reject <<no way>>;",
    "ereject <<go away>>;",
    "require \"ihave\"; error <<failed here>>;",
    "setflag <<fa>>; addflag [<<fb>>, <<fc>>]; removeflag [<<fa>>, <<zz>>]; keep;",
    "setflag \"lst\" [<<fa>>, <<fb>>]; addflag \"lst\" <<fc>>; removeflag \"lst\" <<fa>>; fileinto :flags <<ignored>> \"x\";",
    "notify :from <<Bob B <bob@b.org> >> :importance <<1>> :options [<<o1=a>>, <<o2=b>>] :message <<msg text>> <<xmpp:a@b.org>>;",
    "notify :from <<bob@b.org>> :importance <<3>> :message <<msg text>> :fcc <<Sent>> :create :flags [<<fa>>, <<fb>>] :specialuse <<Sent2>> :mailboxid <<m-1>> <<mailto:a@b.org?subject=hi>>;",
    "vacation :days 7 :subject <<Out>> :from <<bob@b.org>> :addresses [<<r@b.org>>, <<s@b.org>>] :handle <<hnd>> :fcc <<Sent>> :create :flags [<<fa>>, <<fb>>] :specialuse <<Sent2>> :mailboxid <<m-1>> <<gone fishing>>;",
    "vacation :addresses [<<q@q.org>>, <<cy@c.org>>] :handle <<hnd>> <<gone fishing>>; /* nouser */",
    "vacation :mime <<Content-Type: text/plain>>;",
    "addheader <<X-New>> <<new value>>; keep;",
    "addheader :last <<X-New>> <<new value>>; fileinto <<f1>>;",
    "deleteheader :contains <<X-N>> [<<zz>>, <<5>>]; keep;",
    "deleteheader <<Subject>>; keep;",
    "set :replace <<b>> <<xx>> \"r\" <<abcabc>>; fileinto \"${r}\";",
    "set :upperfirst :length \"r\" <<abcabc>>; fileinto \"${r}\";",
    "set \"envelope.from\" <<new@a.org>>;",
    "foreverypart { if header :mime :contenttype :is <<Content-Type>> <<text/plain>> { replace :subject <<new subj>> :from <<new@f.org>> <<replaced text>>; break; } } keep;",
    "foreverypart { replace :mime <<Content-Type: text/plain>>; break; } keep;",
    "enclose :subject <<encl>> :headers [<<X-A: 1>>, <<X-B: 2>>] <<outer text>>; keep;",
    "foreverypart { if header :mime :contenttype :is <<Content-Type>> <<text/plain>> { extracttext :replace <<one>> <<two>> \"r\"; fileinto :copy \"${r}\"; } }",
    "convert <<text/html>> <<text/plain>> [<<pix-x=1>>]; keep;",
    "include <<script1>>;",
    "include :global :once :optional <<script1>>; include :once <<script1>>;",
    "let \"r\" \"5\"; fileinto :flags [<<fa>>] \"f${r}\";",
];
entry!{
/// every string argument of 29 action scripts given through a variable of 9 kinds (host global, local, :local of a block, of the own block, joined with literal text, environment, match variable, declared global, not yet numbered :local): same events
/// reach: 1
h_c30_actions { same(tpl(pick(ACT))); }
}
pub const TST: &[&str] = &[
    "header :is [<<nope>>, <<Subject>>] [<<zz>>, <<hello>>]",
    "header :contains <<subject>> <<ell>>",
    "header :matches <<subject>> [<<q*>>, <<h?l*>>]",
    "header :regex <<subject>> [<<^q+>>, <<^h.l+o$>>]",
    "header :value \"ge\" :comparator \"i;ascii-numeric\" <<X-N>> [<<7>>, <<4>>]",
    "header :count \"eq\" <<subject>> [<<9>>, <<1>>]",
    "header :mime :param [<<boundary>>] <<Content-Type>> <<b>>",
    "address :is :domain [<<cc>>, <<to>>] [<<z.org>>, <<c.org>>]",
    "address :matches :localpart <<from>> <<a*n>>",
    "address :name <<from>> <<Ann B>>",
    "envelope :is \"from\" [<<zz>>, <<ann@a.org>>]",
    "envelope :domain :contains [\"to\"] <<b.o>>",
    "exists [<<Subject>>, <<X-N>>]",
    "body :raw :contains [<<zzz>>, <<part o>>]",
    "body :text :contains <<part one>>",
    "body :content [<<image>>, <<text/html>>] :contains [<<two>>]",
    "string :is [<<aa>>, <<bb>>] <<bb>>",
    "string :matches <<foobar>> [<<fo?ba*>>]",
    "string :regex <<foobar>> [<<^fo+bar>>]",
    "string :value \"lt\" :comparator \"i;ascii-numeric\" <<12>> <<13>>",
    "string :count \"gt\" [<<aa>>, <<bb>>] <<1>>",
    "environment :contains \"name\" <<hos>>",
    "hasflag :contains [\"lst\"] [<<gb>>, <<fa>>]",
    "mailboxexists [<<INBOX>>, <<Sent>>]",
    "mailboxidexists [<<m1>>, <<m2>>]",
    "specialuse_exists <<INBOX>> [<<Sent2>>, <<Junk>>]",
    "specialuse_exists [<<Sent2>>]",
    "metadata :is <<INBOX>> <</p/c>> [<<zz>>, <<note>>]",
    "metadataexists <<INBOX>> [<</p/c>>]",
    "servermetadata :matches <</s/m>> <<m*d>>",
    "servermetadataexists [<</s/m>>]",
    "valid_notify_method [<<mailto:a@b.org>>]",
    "notify_method_capability :is <<mailto:a@b.org>> <<online>> [<<yes>>, <<maybe>>]",
    "valid_ext_list [<<urn:list>>]",
    "duplicate :handle <<hdl>> :uniqueid <<uid>> :seconds 60 :last",
    "duplicate :header <<Message-ID>>",
    "date :value \"ge\" :originalzone <<date>> \"hour\" [<<10>>]",
    "date :is :zone \"+0200\" <<date>> \"date\" <<2023-11-14>>",
    "currentdate :value \"ge\" \"year\" [<<9999>>, <<1999>>]",
    "spamtest :value \"ge\" :comparator \"i;ascii-numeric\" <<5>>",
    "spamtest :percent :value \"eq\" :comparator \"i;ascii-numeric\" <<50>>",
    "virustest :value \"eq\" :comparator \"i;ascii-numeric\" <<1>>",
    "convert <<text/html>> <<text/plain>> [<<pix-x=1>>]",
    "header :list <<subject>> [<<urn:l1>>, <<urn:l2>>]",
    "address :list :localpart [<<from>>] [<<urn:l1>>]",
    "envelope :list :all \"from\" [<<urn:l1>>]",
    "string :list [<<val1>>, <<val2>>] [<<urn:l1>>]",
];
entry!{
/// every string argument of 47 tests (every test, most match types) given through a variable of 9 kinds, in an if or a not: the test holds as with the literal values, and the events are the same
/// reach: 1
h_c30_tests {
    let i = choose(TST.len());
    let not = choose_bool();
    let t = tpl(&format!("setflag \"lst\" \"fa\"; if {}{} {{ fileinto :copy \"T\"; }} else {{ fileinto :copy \"F\"; }}", if not { "not " } else { "" }, TST[i]));
    let slot = choose(t.slots.len());
    let form = choose(FORMS);
    let r = runtime();
    let a = go_with(&r, MSG2, &t.fill(usize::MAX, ""), &t.slots[slot]);
    let dup = TST[i].starts_with("duplicate");
    let f = folders(&a);
    check(f[0] == if not ^ dup { "F" } else { "T" }, 2, "the test holds for the literal values");
    let b = go_with(&r, MSG2, &via(&t, slot, form), &t.slots[slot]);
    obs_norm(&a);
    obs_norm(&b);
    reach(1);
    check(norm(&a) == norm(&b) && format!("{:?}", a.err) == format!("{:?}", b.err), 1, "an argument given through a variable acts as its literal value");
}
}
fn q(s: &str) -> String { format!("\"{s}\"") }
/// joins the present tags in one of two orders
fn tags(mut v: Vec<Option<String>>) -> String { if choose_bool() { v.reverse() } v.into_iter().flatten().map(|x| format!("{x} ")).collect() }
fn opt(s: &str) -> Option<String> { if choose_bool() { Some(s.to_string()) } else { None } }
fn s(x: &str) -> String { x.to_string() }
fn last_keep() -> Event { Event::Keep { flags: vec![], message_id: 0 } }
fn expect(src: &str, want: &[Event], keep: bool) -> Trace {
    let r = runtime();
    let t = go_with(&r, MSG2, src, "");
    let mut w = want.to_vec();
    if keep { w.push(last_keep()) }
    obs_norm(&t);
    reach(1);
    let ev: Vec<Event> = t.ev.iter().filter(|e| !matches!(e, Event::CreatedMessage { .. } | Event::DuplicateId { .. })).cloned().collect();
    check(ev == w && t.err.is_none(), 1, "the event carries the arguments of the action");
    t
}
entry!{
/// fileinto with every combination of :copy :create :flags :mailboxid :specialuse in two orders; keep, discard, reject, ereject, mailboxexists, include and their fields
/// reach: 1
h_c30_deliver {
    match choose(9) {
        0 => {
            let (c, m, f, d, p) = (opt(":copy"), opt(":mailboxid \"M\""), opt(":flags [\"a\", \"b c\"]"), opt(":create"), opt(":specialuse \"U\""));
            let ev = Event::FileInto { folder: s("Dir"), flags: if f.is_some() { vec![s("a"), s("b"), s("c")] } else { vec![] }, mailbox_id: m.as_ref().map(|_| s("M")), special_use: p.as_ref().map(|_| s("U")), create: d.is_some(), message_id: 0 };
            let copy = c.is_some();
            let t = tags(vec![c, m, f, d, p]);
            expect(&format!("fileinto {t}\"Dir\";"), &[ev], copy);
        }
        1 => { let f = choose_bool(); expect(if f { "keep :flags [\"a\", \"b\"];" } else { "keep;" }, &[Event::Keep { flags: if f { vec![s("a"), s("b")] } else { vec![] }, message_id: 0 }], false); }
        2 => { expect("discard;", &[Event::Discard], false); }
        3 => { let e = choose_bool(); expect(if e { "ereject \"why\";" } else { "reject \"why\";" }, &[Event::Reject { extended: e, reason: s("why") }], false); }
        4 => {
            let k = choose(4);
            let (src, mb, su) = match k { 0 => ("mailboxexists [\"A\", \"B\"]", vec![Mailbox::Name(s("A")), Mailbox::Name(s("B"))], vec![]), 1 => ("mailboxidexists [\"A\", \"B\"]", vec![Mailbox::Id(s("A")), Mailbox::Id(s("B"))], vec![]),
                2 => ("specialuse_exists \"A\" [\"U\", \"V\"]", vec![Mailbox::Name(s("A"))], vec![s("U"), s("V")]), _ => ("specialuse_exists [\"U\", \"V\"]", vec![], vec![s("U"), s("V")]) };
            expect(&format!("if {src} {{ discard; }}"), &[Event::MailboxExists { mailboxes: mb, special_use: su }, Event::Discard], false);
        }
        5 => {
            let (g, o) = (choose(3), choose_bool());
            let once = choose_bool();
            let name = if g == 1 { Script::Global(s("scr")) } else { Script::Personal(s("scr")) };
            expect(&format!("include {}{}{}\"scr\"; discard;", ["", ":global ", ":personal "][g], if o { ":optional " } else { "" }, if once { ":once " } else { "" }), &[Event::IncludeScript { name, optional: o }, Event::FileInto { folder: s("included"), flags: vec![], mailbox_id: None, special_use: None, create: false, message_id: 0 }, Event::Discard], false);
        }
        6 => {
            let (h, k, l) = (choose_bool(), choose(3), choose_bool());
            let secs = choose_bool();
            let src = format!("if duplicate {}{} {}{}{{ discard; }}", if h { ":handle \"H\" " } else { "" }, ["", ":header \"X-N\"", ":uniqueid \"U\""][k], if secs { ":seconds 77 " } else { "" }, if l { ":last " } else { "" });
            let t = expect(&src, &[], true);
            let id = ["m1@a.org", "5", "U"][k];
            check(t.ev[0] == Event::DuplicateId { id: format!("{}{id}", if h { "H" } else { "" }), expiry: if secs { 77 } else { 604800 }, last: l }, 2, "duplicate asks for its id");
        }
        7 => {
            let k = choose(4);
            let (src, l, v, m) = match k {
                0 => ("header :list \"X-N\" [\"L1\", \"L2\"]", vec![s("L1"), s("L2")], vec![s("5")], MatchAs::Lowercase),
                1 => ("header :list :comparator \"i;octet\" [\"X-N\", \"Subject\"] \"L1\"", vec![s("L1")], vec![s("5"), s("hello")], MatchAs::Octet),
                2 => ("address :list :domain [\"To\"] \"L1\"", vec![s("L1")], vec![s("b.org"), s("c.org")], MatchAs::Lowercase),
                _ => ("string :list :comparator \"i;ascii-numeric\" [\"1\", \"2\"] [\"L1\"]", vec![s("L1")], vec![s("1"), s("2")], MatchAs::Number),
            };
            let mut t = go_with(&runtime(), MSG2, &format!("if {src} {{ discard; }}"), "");
            obs_norm(&t);
            reach(1);
            // the order of lists and values is not specified
            if let Event::ListContains { lists, values, .. } = &mut t.ev[0] { lists.sort(); values.sort(); }
            check(t.ev == [Event::ListContains { lists: l, values: v, match_as: m }, Event::Discard], 1, "the event carries lists and values");
        }
        _ => {
            let (n, e) = *pick(&[("from", 0), ("to", 1), ("envid", 2), ("ret", 3), ("notify", 4), ("orcpt", 5), ("by.timerelative", 6)]);
            let _ = e;
            let env = match n { "from" => Envelope::From, "to" => Envelope::To, "envid" => Envelope::Envid, "ret" => Envelope::Ret, "notify" => Envelope::Notify, "orcpt" => Envelope::Orcpt, _ => Envelope::ByTimeRelative };
            let name = n.replace("by.timerelative", "bytimerelative");
            let src = format!("set \"envelope.{name}\" \"val@x.org\";");
            let _ = env;
            if compiles(&src) { expect(&src, &[Event::SetEnvelope { envelope: env, value: s("val@x.org") }], true); } else { reach(1); }
        }
    }
}
}
entry!{
/// redirect with every combination of :copy :list :notify :ret :bytimerelative/:bytimeabsolute :bymode :bytrace in two orders; the address in three notations
/// reach: 1
h_c30_redirect {
    let copy = opt(":copy");
    let list = opt(":list");
    let (nt, notify) = match choose(5) { 0 => (None, Notify::Default), 1 => (Some(s(":notify \"NEVER\"")), Notify::Never), 2 => (Some(s(":notify \"FAILURE\"")), Notify::Items(vec![NotifyItem::Failure])), 3 => (Some(s(":notify \"success,Failure ,  delay\"")), Notify::Items(vec![NotifyItem::Success, NotifyItem::Failure, NotifyItem::Delay])), _ => (Some(s(":notify \"delay, success\"")), Notify::Items(vec![NotifyItem::Delay, NotifyItem::Success])) };
    let (rt_, ret) = match choose(3) { 0 => (None, Ret::Default), 1 => (Some(s(":ret \"full\"")), Ret::Full), _ => (Some(s(":ret \"HDRS\"")), Ret::Hdrs) };
    let (mt, mode) = match choose(3) { 0 => (None, ByMode::Default), 1 => (Some(s(":bymode \"notify\"")), ByMode::Notify), _ => (Some(s(":bymode \"RETURN\"")), ByMode::Return) };
    let tt = opt(":bytrace");
    let trace = tt.is_some();
    let (bt, by_time) = match choose(3) { 0 => (None, ByTime::None), 1 => (Some(s(":bytimerelative 2K")), ByTime::Relative { rlimit: 2048, mode, trace }), _ => (Some(s(":bytimeabsolute \"2030-01-02T03:04:05+01:00\"")), ByTime::Absolute { alimit: 1893549845, mode, trace }) };
    let (adr, want) = *pick(&[("x@y.org", "x@y.org"), ("Foo Bar <x@y.org>", "x@y.org"), (" x@y.org ", "x@y.org")]);
    let c = copy.is_some();
    // a list is named by any string, an address may come with a name
    let recipient = if list.is_some() { Recipient::List(s(adr.trim())) } else { Recipient::Address(s(want)) };
    let t = tags(vec![copy, list, nt, rt_, mt, tt, bt]);
    expect(&format!("redirect {t}{};", q(adr)), &[Event::SendMessage { recipient, notify, return_of_content: ret, by_time, message_id: 0 }], c);
}
}
entry!{
/// notify by a non-mail method and by mail, with every combination of :from :importance :options :message and a copy to a folder, in two orders
/// reach: 1
h_c30_notify {
    let mail = choose_bool();
    let f = opt(":from \"bob@b.org\"");
    let imp = choose(4);
    let i = if imp == 0 { None } else { Some(format!(":importance \"{imp}\"")) };
    let o = opt(":options [\"k=1\", \"l=2\"]");
    let m = opt(":message \"the text\"");
    let fcc = choose_bool();
    let (cr, fl, su, mi) = if fcc { (opt(":create"), opt(":flags [\"a\", \"b\"]"), opt(":specialuse \"U\""), opt(":mailboxid \"M\"")) } else { (None, None, None, None) };
    let folder = Event::FileInto { folder: s("Sent"), flags: if fl.is_some() { vec![s("a"), s("b")] } else { vec![] }, mailbox_id: mi.as_ref().map(|_| s("M")), special_use: su.as_ref().map(|_| s("U")), create: cr.is_some(), message_id: 1 };
    let ev = if mail {
        Event::SendMessage { recipient: Recipient::Group(vec![s("a@b.org"), s("c@d.org")]), notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: 1 }
    } else {
        Event::Notify { from: f.as_ref().map(|_| s("bob@b.org")), importance: match imp { 1 => Importance::High, 3 => Importance::Low, _ => Importance::Normal }, options: if o.is_some() { vec![s("k=1"), s("l=2")] } else { vec![] }, message: s(if m.is_some() { "the text" } else { "hello" }), method: s("tel:123") }
    };
    let msg = m.is_some();
    let t = tags(vec![f, i, o, m, if fcc { Some(s(":fcc \"Sent\"")) } else { None }, cr, fl, su, mi]);
    let mut w = vec![ev];
    if fcc { w.push(folder) }
    let tr = expect(&format!("notify {t}\"{}\";", if mail { "mailto:a@b.org?cc=c@d.org&X-Q=v" } else { "tel:123" }), &w, true);
    if mail {
        let txt = match &tr.ev[0] { Event::CreatedMessage { message_id: 1, message } => String::from_utf8(message.clone()).unwrap(), _ => { check(false, 2, "mail notification builds message 1"); return } };
        note(&txt);
        let has = |l: &str| txt.contains(&format!("{l}\r\n"));
        check(txt.starts_with("From: ") && txt[..txt.find('\n').unwrap()].contains("bob@b.org"), 3, "From is the user");
        check(has("To: <a@b.org>") && has("Cc: <c@d.org>") && has("X-Q: v"), 4, "fields of the URI");
        check(has(&format!("Subject: {}", if msg { "the text" } else { "hello" })), 5, "subject");
        check(has(["Importance: Normal", "Importance: High", "Importance: Normal", "Importance: Low"][imp]), 6, "importance");
        check(has("Auto-Submitted: auto-notified"), 7, "marked as automatic");
        check(txt.ends_with(&format!("\r\n\r\n{}", if msg { "the text" } else { "hello" })), 8, "body");
    }
}
}
entry!{
/// vacation with every combination of :days/:seconds, :subject, :from, :handle, :addresses, :mime and :fcc with its options, in two orders
/// reach: 1
h_c30_vacation {
    let per = choose(3);
    let p = [None, Some(s(":days 2")), Some(s(":seconds 90"))][per].clone();
    let (sb, fr, hd, ad, mi) = (opt(":subject \"Away\""), opt(":from \"b2@b.org\""), opt(":handle \"HH\""), opt(":addresses [\"c2@c.org\"]"), opt(":mime"));
    let fcc = choose_bool();
    let (cr, fl, su, mb) = if fcc { (opt(":create"), opt(":flags [\"a\", \"b\"]"), opt(":specialuse \"U\""), opt(":mailboxid \"M\"")) } else { (None, None, None, None) };
    let folder = Event::FileInto { folder: s("Sent"), flags: if fl.is_some() { vec![s("a"), s("b")] } else { vec![] }, mailbox_id: mb.as_ref().map(|_| s("M")), special_use: su.as_ref().map(|_| s("U")), create: cr.is_some(), message_id: 1 };
    let mut w = vec![Event::SendMessage { recipient: Recipient::Address(s("ann@a.org")), notify: Notify::Never, return_of_content: Ret::Default, by_time: ByTime::None, message_id: 1 }];
    if fcc { w.push(folder) }
    let (sub, from, handle, mime) = (sb.is_some(), fr.is_some(), hd.is_some(), mi.is_some());
    let t = tags(vec![p, sb, fr, hd, ad, mi, if fcc { Some(s(":fcc \"Sent\"")) } else { None }, cr, fl, su, mb]);
    let tr = expect(&format!("vacation {t}\"gone\";"), &w, true);
    check(tr.ev[0] == Event::DuplicateId { id: format!("_vann@a.org{}", if handle { "HH" } else { "gone" }), expiry: [30 * 86400, 2 * 86400, 90][per], last: false }, 2, "asks whether it answered before");
    let txt = match &tr.ev[1] { Event::CreatedMessage { message_id: 1, message } => String::from_utf8(message.clone()).unwrap(), _ => { check(false, 3, "builds message 1"); return } };
    note(&txt);
    let has = |l: &str| txt.contains(&format!("{l}\r\n"));
    check(has(if from { "From: b2@b.org" } else { "From: <bob@b.org>" }) || (!from && has("From: bob@b.org")), 4, "From");
    check(has("To: \"Ann B\" <ann@a.org>"), 5, "To is the sender");
    check(has(if sub { "Subject: Away" } else { "Subject: Auto: hello" }), 6, "Subject");
    check(has("In-Reply-To: <m1@a.org>") && has("Auto-Submitted: auto-replied"), 7, "reply fields");
    check(txt.ends_with(if mime { "\r\ngone" } else { "\r\n\r\ngone" }) && mime != has("Content-type: text/plain; charset=utf-8"), 8, "body");
}
}
