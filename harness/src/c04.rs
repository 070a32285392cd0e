//! C04: the instruction limit bounds every run and changes nothing below it.
use crate::run::*;
use sieve::FunctionMap;
use crate::vf::*;

fn go(src: &str, inc: &str, limit: usize, bits: &[bool; 2], parts: bool) -> Trace {
    let r = rt().with_cpu_limit(limit).with_max_nested_includes(4);
    let m2 = crate::c30::MSG2;
    let mut c = ctx(&r, if parts { m2 } else { MSG });
    for (i, b) in bits.iter().enumerate() { c.set_global_variable(format!("b{i}"), Variable::Integer(*b as i64)); }
    let s = compile(inc);
    run_with(&mut c, compile(src), 200, &mut |e| match e { Event::IncludeScript { .. } => Input::script("s", s.clone()), Event::DuplicateId { .. } => Input::False, _ => Input::True })
}
const FIN: &[(&str, &str)] = &[
    ("fileinto :copy \"a\"; fileinto :copy \"b\"; discard;", ""),
    ("if eval \"global.b0 == 1\" { fileinto :copy \"a\"; } elsif eval \"global.b1 == 1\" { fileinto :copy \"b\"; keep :flags \"x\"; } else { discard; }", ""),
    ("let \"i\" \"0\"; while \"i < 3\" { let \"i\" \"i + 1\"; if eval \"global.b0 == 1\" { continue; } fileinto :copy \"${i}\"; if eval \"global.b1 == 1\" { break; } }", ""),
    ("foreverypart { if header :mime :contenttype :is \"content-type\" \"text/plain\" { fileinto :copy \"p\"; if eval \"global.b0 == 1\" { break; } } } keep :flags \"z\";", ""),
    ("include \"s\"; if eval \"global.b1 == 1\" { include \"s\"; } fileinto :copy \"m\";", "if eval \"global.b0 == 1\" { fileinto :copy \"r\"; return; } fileinto :copy \"i\";"),
    ("addheader \"X-A\" \"b\"; if eval \"global.b0 == 1\" { fileinto :copy \"a\"; } addheader \"X-B\" \"c\";", ""),
    ("setflag \"q\"; redirect \"x@y.org\"; if eval \"global.b0 == 1\" { stop; } reject \"no\";", ""),
    ("if anyof (eval \"global.b0 == 1\", allof (eval \"global.b1 == 1\", mailboxexists \"z\"), not exists \"subject\") { fileinto \"t\"; } else { fileinto \"u\"; }", ""),
];
fn is_prefix(a: &[Event], b: &[Event]) -> bool { a.len() <= b.len() && a == &b[..a.len()] }
entry!{
/// 8 finite scripts (sequence, branches, loops, parts, includes, header edits, tests answered by the host) with two free conditions under every limit from 0 to 60: one threshold; at or above it the run is as without limit; below it the events are a prefix of that, then the error once, then the pending delivery
/// reach: 1 2
h_c04_threshold {
    let (src, inc) = *pick(FIN);
    let bits = [bools(), bools()];
    let parts = src.starts_with("foreverypart");
    note(src);
    let full = go(src, inc, 10000, &bits, parts);
    check(full.ended && full.err.is_none(), 1, "runs without a limit");
    let (mut seen, mut prev) = (false, 0);
    for l in 0..60 {
        let t = go(src, inc, l, &bits, parts);
        obs(t.ev.len() as u64);
        check(t.ended, 2, "ends");
        match &t.err {
            None => { seen = true; check(t.ev == full.ev, 3, "below the limit nothing changes"); }
            Some(e) => {
                check(matches!(e, RuntimeError::CPULimitReached), 4, "the error names the limit");
                check(!seen, 5, "a larger limit never stops a run that a smaller one let end");
                check(t.steps == t.ev.len() + 1, 6, "one error");
                // the events before the error, then the delivery pending at that point (with the rebuilt message first if it changed)
                let before = t.ev.iter().filter(|e| !matches!(e, Event::Keep { .. } | Event::Discard | Event::CreatedMessage { .. })).cloned().collect::<Vec<_>>();
                let fb = full.ev.iter().filter(|e| !matches!(e, Event::Keep { .. } | Event::Discard | Event::CreatedMessage { .. })).cloned().collect::<Vec<_>>();
                check(is_prefix(&before, &fb), 7, "what happened before the limit is what happens without it");
                check(before.len() >= prev, 8, "a larger limit gets as far");
                prev = before.len();
                let kept = t.ev.iter().filter(|e| matches!(e, Event::Keep { .. })).count() == 1;
                let gone = before.iter().any(|e| matches!(e, Event::SendMessage { .. } | Event::Reject { .. }) || matches!(e, Event::FileInto { folder, .. } if folder == "t" || folder == "u")) || t.ev.contains(&Event::Discard);
                check(kept != gone, 9, "the message is kept unless it was delivered or discarded before");
                reach(1);
            }
        }
    }
    check(seen, 10, "the run ends within 60 instructions");
    reach(2);
}
}
const INF: &[&str] = &[
    "while \"1\" { }",
    "while \"1\" { fileinto :copy \"a\"; }",
    "while \"1\" { if eval \"global.b0 == 1\" { continue; } fileinto :copy \"a\"; }",
    "while \"1\" { while \"1\" { if eval \"global.b0 == 1\" { break; } fileinto :copy \"a\"; continue; } }",
    "let \"i\" \"0\"; while \"i >= 0\" { let \"i\" \"i + 1\"; set \"v\" \"${v}${i}\"; }",
    "foreverypart { while \"1\" { foreverypart { break; } } }",
    "while \"1\" { include \"s\"; }",
    "while \"1\" { include :once \"s\"; }",
    "while \"1\" { if mailboxexists \"z\" { fileinto :copy \"z\"; } }",
    "while \"1\" { foreverypart { fileinto :copy \"p\"; } }",
    "while \"1\" { if duplicate { } if not true { stop; } }",
    "while \"1\" { redirect :copy \"x@y.org\"; keep; }",
];
entry!{
/// 12 scripts that never end by themselves, under every limit from 0 to 50: the run ends with the error, after at most as many events as instructions, and the message is kept
/// reach: 1
h_c04_endless {
    let src = *pick(INF);
    let l = choose(tier(26, 51));
    let bits = [bools(), bools()];
    note(src);
    let t = go(src, "if eval \"global.b1 == 1\" { return; } fileinto :copy \"i\";", l, &bits, choose_bool());
    obs_trace(&t);
    reach(1);
    check(t.ended, 1, "ends");
    check(matches!(t.err, Some(RuntimeError::CPULimitReached)), 2, "with the limit as the reason");
    check(t.ev.len() <= l + 1, 3, "no more events than instructions");
    check(t.steps == t.ev.len() + 1, 4, "one error");
    check(matches!(t.ev.last(), Some(Event::Keep { .. })), 5, "the message is kept");
}
}
entry!{
/// a loop of k = 1 to 7 rounds whose body is one of 8 kinds: each further round costs the same number of instructions, at least two
/// reach: 1
h_c04_rounds {
    let body = *pick(&["", "fileinto :copy \"a\";", "if eval \"global.b0 == 1\" { continue; } fileinto :copy \"a\";", "if true { if true { continue; } }", "foreverypart { fileinto :copy \"a\"; }", "include \"s\";", "foreverypart { continue; }", "while \"1\" { break; }"]);
    let bits = [bools(), bools()];
    let need = |k: usize| -> usize {
        let src = format!("let \"global.i\" \"0\"; while \"global.i < {k}\" {{ let \"global.i\" \"global.i + 1\"; {body} }}");
        for l in 0..200 { if go(&src, "fileinto :copy \"i\";", l, &bits, false).err.is_none() { return l } }
        check(false, 1, "ends within 200 instructions");
        0
    };
    let k = choose(5) + 1;
    note(body);
    let (a, b, c) = (need(k), need(k + 1), need(k + 2));
    obs((b - a) as u64);
    reach(1);
    check(b >= a + 2 && c - b == b - a, 2, "every round counts");
}
}
const ASK: &[(&str, usize, usize)] = &[
    ("fileinto :copy \"a\";", 1, 1), ("keep :flags \"a\";", 1, 1), ("redirect :copy \"x@y.org\";", 1, 1), ("notify \"xmpp:a@b.org\";", 1, 1), ("set \"envelope.to\" \"n@b.org\";", 1, 1), ("reject \"no\";", 1, 1),
    ("if mailboxexists \"m\" { addflag \"x\"; }", 2, 3), ("if not mailboxexists \"m\" { addflag \"x\"; }", 3, 2), ("if duplicate :uniqueid \"u\" { addflag \"x\"; }", 2, 3), ("if header :list \"from\" \"urn:l\" { addflag \"x\"; }", 2, 3),
    ("if anyof (mailboxexists \"m\", mailboxexists \"n\") { addflag \"x\"; }", 4, 3), ("include \"s\";", 2, 2), ("let \"global.l\" \"ask('a')\";", 1, 1), ("if eval \"ask('a') == 7\" { addflag \"x\"; }", 2, 2),
];
entry!{
/// one or two (thorough: three) of 14 statements that hand the host an event (deliveries, notifications, envelope changes, tests answered true or false, functions, includes): each counts in full whatever is answered, alone and behind the others
/// reach: 1
h_c04_answers {
    let n = 1 + choose(tier(2, 3));
    let st: Vec<((&str, usize, usize), bool)> = (0..n).map(|_| (*pick(ASK), choose_bool())).collect();
    let need = |st: &[((&str, usize, usize), bool)]| -> usize {
        let mut fns = FunctionMap::new().with_external_function("ask", 0, 1);
        let mut answers = vec![];
        for s in st { if s.0.0.contains("anyof") && !s.1 { answers.push(false); } if s.0.0.starts_with("if") && !s.0.0.contains("eval") { answers.push(s.1); } }
        let src: String = st.iter().map(|s| s.0.0).collect::<Vec<_>>().join(" ");
        let s = Compiler::new().with_no_capability_check(true).register_functions(&mut fns).compile(src.as_bytes()).unwrap();
        for l in 0..60 {
            let r = rt().with_cpu_limit(l).with_max_redirects(9).with_max_out_messages(9);
            let mut c = ctx(&r, MSG);
            let mut at = 0;
            let t = run_with(&mut c, s.clone(), 60, &mut |e| match e {
                Event::IncludeScript { .. } => Input::script("s", compile("addflag \"y\";")),
                Event::Function { .. } => Input::FncResult(Variable::Integer(1)),
                Event::MailboxExists { .. } | Event::DuplicateId { .. } | Event::ListContains { .. } => { let a = answers.get(at).copied().unwrap_or(true); at += 1; if a { Input::True } else { Input::False } }
                _ => Input::True,
            });
            check(t.ended, 1, "the run ends");
            if t.err.is_none() { return l }
        }
        check(false, 2, "the run ends within 60 instructions");
        0
    };
    let (all, first, rest) = (need(&st), need(&st[..1]), need(&st[1..]));
    for s in &st { note(s.0.0); }
    obs(all as u64);
    reach(1);
    let cost = if st[0].1 { st[0].0.2 } else { st[0].0.1 };
    check(first >= cost, 3, "every instruction counts, whatever the host answers");
    check(all == first + rest, 4, "a statement counts the same alone and with others");
}
}
