//! C08: the final disposition of the message (implicit keep).
use crate::run::*;
use crate::vf::*;

#[derive(Clone, Copy, PartialEq)]
enum A { Keep, KeepFlags, File, FileCopy, FileFlags, Discard, Redir, RedirCopy, RedirSelf, RedirBad, Reject, SetFlag, ClearFlag, Stop, Error, Bad, Edit }
const ALL: &[A] = &[A::Keep, A::KeepFlags, A::File, A::FileCopy, A::FileFlags, A::Discard, A::Redir, A::RedirCopy, A::RedirSelf, A::RedirBad, A::Reject, A::SetFlag, A::ClearFlag, A::Stop, A::Error, A::Bad, A::Edit];
fn src(a: A) -> &'static str {
    match a {
        A::Keep => "keep;", A::KeepFlags => "keep :flags \"a\";", A::File => "fileinto \"F\";", A::FileCopy => "fileinto :copy \"F\";", A::FileFlags => "fileinto :flags [\"b\", \"c\"] \"F\";", A::Discard => "discard;",
        A::Redir => "redirect \"x@y.z\";", A::RedirCopy => "redirect :copy \"x@y.z\";", A::RedirSelf => "redirect \"Bob@b.org\";", A::RedirBad => "redirect \"nobody\";", A::Reject => "reject \"no\";",
        A::SetFlag => "setflag \"g\";", A::ClearFlag => "setflag \"\";", A::Stop => "stop;", A::Error => "error \"e\";", A::Bad => "frobnicate;", A::Edit => "addheader \"X-A\" \"1\";",
    }
}
fn show(e: &Event) -> String {
    match e {
        Event::Keep { flags, message_id } => format!("keep{flags:?}#{message_id}"),
        Event::FileInto { folder, flags, message_id, .. } => format!("file {folder}{flags:?}#{message_id}"),
        Event::SendMessage { recipient: Recipient::Address(a), message_id, .. } => format!("send {a}#{message_id}"),
        Event::Reject { reason, .. } => format!("reject {reason}"),
        Event::Discard => "discard".into(),
        Event::CreatedMessage { message_id, .. } => format!("new#{message_id}"),
        _ => "?".into(),
    }
}
#[derive(Clone, PartialEq)]
enum Fin { Keep(Vec<&'static str>, usize), Discard, None }
/// quirk: an explicit keep without flags is cancelled by a later fileinto or redirect (known finding)
fn model(p: &[A], quirk: bool) -> (Vec<String>, bool) {
    let (mut out, mut fin, mut glob, mut err): (Vec<String>, Fin, Vec<&'static str>, bool) = (vec![], Fin::Keep(vec![], 0), vec![], false);
    let (mut explicit, mut dirty, mut id, mut sent) = (false, false, 0, 0);
    let fl = |v: &[&'static str]| format!("{:?}", v);
    for a in p {
        let flush = |out: &mut Vec<String>, dirty: &mut bool, id: &mut usize| if *dirty { *id += 1; *dirty = false; out.push(format!("new#{id}")) };
        match a {
            A::Keep | A::KeepFlags => { flush(&mut out, &mut dirty, &mut id); fin = Fin::Keep(if *a == A::KeepFlags { vec!["a"] } else { glob.clone() }, id); explicit = true; }
            A::File | A::FileCopy | A::FileFlags => {
                flush(&mut out, &mut dirty, &mut id);
                let keepit = if quirk { matches!(&fin, Fin::Keep(f, _) if !f.is_empty()) } else { explicit };
                if *a != A::FileCopy && !keepit { fin = Fin::None; }
                out.push(format!("file F{}#{id}", fl(if *a == A::FileFlags { &["b", "c"] } else { &glob })));
            }
            A::Redir | A::RedirCopy if sent >= 1 => {} // default limit of one redirection: ignored, the message stays where it was
            A::Redir | A::RedirCopy => {
                sent += 1;
                flush(&mut out, &mut dirty, &mut id);
                if *a == A::Redir && matches!(fin, Fin::Keep(..)) && (quirk || !explicit) { fin = Fin::None; }
                out.push(format!("send x@y.z#{id}"));
            }
            A::Reject => { fin = Fin::None; explicit = false; out.push("reject no".into()); }
            A::Discard => { fin = Fin::Discard; explicit = false; }
            A::SetFlag => glob = vec!["g"], A::ClearFlag => glob = vec![],
            A::Edit => dirty = true,
            A::Stop => break,
            A::Error | A::Bad => { err = true; break }
            A::RedirSelf | A::RedirBad => {}
        }
    }
    match fin {
        Fin::Keep(f, mut i) => {
            if f.is_empty() { i = id } // without flags it is the implicit one
            if dirty { id += 1; i = id; out.push(format!("new#{id}")); }
            out.push(format!("keep{}#{i}", fl(if f.is_empty() { &glob } else { &f })));
        }
        Fin::Discard => out.push("discard".into()),
        Fin::None => {}
    }
    (out, err)
}
fn run8(p: &[A]) {
    let s: String = format!("require [\"ihave\"]; {}", p.iter().map(|a| src(*a)).collect::<Vec<_>>().join(" "));
    note(&s);
    let r = rt();
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, compile(&s), 40, &mut |_| if choose_bool() { Input::True } else { Input::False });
    let got: Vec<String> = t.ev.iter().map(show).collect();
    let (want, err) = model(p, false);
    let (kq, _) = model(p, true);
    noteb(got.join(" | ").as_bytes()); noteb(want.join(" | ").as_bytes());
    for g in &got { obs_bytes(g.as_bytes()); }
    check(t.ended, 1, "the run ends");
    check(t.err.is_some() == err, 2, "an error is reported exactly when the script fails");
    check(t.ev.iter().filter(|e| matches!(e, Event::Keep { .. } | Event::Discard)).count() <= 1, 3, "at most one keep or discard");
    if got != want && got == kq { check(false, 20, "KNOWN an explicit keep without flags is cancelled by a later fileinto or redirect"); }
    check(got == want, 4, "actions happen in order and the message ends where the script put it");
    if got.last().map_or(false, |g| g.starts_with("keep")) { reach(1) } else { reach(2) }
}
entry!{
/// every sequence of up to 3 (thorough: 4) of 17 actions: keep, keep :flags, fileinto (plain, :copy, :flags), discard, redirect (plain, :copy, own address, invalid), reject, flag changes, header edit, stop, error, unknown command; hosts answer true or false freely
/// reach: 1 2
h_c08_actions { let n = choose(1 + tier(3, 4)); let p: Vec<A> = (0..n).map(|_| *pick(ALL)).collect(); run8(&p); }
}
entry!{
/// sequences of 4 (thorough: 5) of the 7 disposing actions
/// reach: 1 2
h_c08_long { let v = &[A::Keep, A::KeepFlags, A::File, A::FileCopy, A::Discard, A::Redir, A::Reject, A::Edit]; let p: Vec<A> = (0..tier(4, 5)).map(|_| *pick(v)).collect(); run8(&p); }
}
entry!{
/// up to 3 of 8 actions, then a require of a capability the runtime does not have (or does), then up to 1 action: the error ends the script, keeping the message unless cancelled before
/// reach: 1 2
h_c08_require {
    let v = &[A::Keep, A::KeepFlags, A::File, A::FileFlags, A::Discard, A::Redir, A::Edit, A::SetFlag];
    let pre: Vec<A> = (0..choose(tier(3, 4))).map(|_| *pick(v)).collect();
    let post: Vec<A> = (0..choose(2)).map(|_| *pick(v)).collect();
    let cap = *pick(&["ereject", "copy", "vnd.unknown"]);
    let s = format!("require [\"fileinto\", \"imap4flags\", \"editheader\"]; {} if true {{ require [\"date\", \"{cap}\"]; {} }}", pre.iter().map(|a| src(*a)).collect::<Vec<_>>().join(" "), post.iter().map(|a| src(*a)).collect::<Vec<_>>().join(" "));
    note(&s);
    let r = rt().without_capabilities(["ereject"]);
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, compile_checked(&s), 40, &mut reply_true);
    let bad = cap != "copy";
    let mut p = pre;
    if bad { p.push(A::Bad) }
    p.extend(post);
    let got: Vec<String> = t.ev.iter().map(show).collect();
    let ((want, err), (kq, _)) = (model(&p, false), model(&p, true));
    noteb(got.join(" | ").as_bytes()); noteb(want.join(" | ").as_bytes());
    for g in &got { obs_bytes(g.as_bytes()); }
    check(t.ended, 1, "the run ends");
    check(t.err.is_some() == err, 2, "an error is reported exactly when a capability is missing");
    if got != want && got == kq { check(false, 20, "KNOWN an explicit keep without flags is cancelled by a later fileinto or redirect"); }
    check(got == want, 4, "actions happen in order and the message ends where the script put it");
    if bad { reach(1) } else { reach(2) }
}
}
