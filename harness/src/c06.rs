//! C06: limits on redirects and outgoing messages hold over any sequence of actions, and an action over the limit sends nothing (a notification is then left to the host).
use crate::run::*;
use crate::vf::*;

const A: &[&str] = &["redirect \"x@y.org\";", "redirect :copy \"z@y.org\";", "redirect \"bob@b.org\";", "redirect :list \"bob@b.org\";", "redirect \"nowhere\";", "notify \"mailto:n@m.org\";", "notify :message \"t\" \"tel:1\";", "vacation \"gone\";", "keep;", "notify :fcc \"F\" \"mailto:n@m.org\";"];
fn seq(n: usize, red: usize, out: usize, recv: usize, maxrecv: usize, loops: bool) {
    let mut msg = String::new();
    for _ in 0..recv { msg.push_str("Received: from a by b; Tue, 14 Nov 2023 10:00:00 +0000\r\n"); }
    msg.push_str("From: ann@a.org\r\nTo: bob@b.org\r\nSubject: s\r\n\r\nb\r\n");
    let k: Vec<usize> = (0..n).map(|_| choose(A.len())).collect();
    let body: String = k.iter().map(|i| format!("{} ", A[*i])).collect();
    let src = if loops { format!("let \"global.i\" \"0\"; while \"global.i < 2\" {{ let \"global.i\" \"global.i + 1\"; {body}}}") } else { body };
    note(&src);
    let r = rt().with_max_redirects(red).with_max_out_messages(out).with_max_received_headers(maxrecv);
    let mut c = ctx(&r, msg.as_bytes());
    let t = run_with(&mut c, compile(&src), 64, &mut |e| if let Event::DuplicateId { .. } = e { Input::False } else { Input::True });
    // reference
    let (mut nr, mut no, mut keep) = (0, 0, true);
    let mut w: Vec<String> = vec![];
    for _ in 0..1 + loops as usize {
        for i in &k {
            match i {
                0 | 1 | 3 => if nr < red && no < out && recv < maxrecv { nr += 1; no += 1; w.push(["x@y.org", "z@y.org", "", "bob@b.org"][*i].into()); if *i != 1 { keep = false } },
                5 | 9 => { w.push(if no < out { "n@m.org" } else { "mailto:n@m.org" }.into()); no += 1; if *i == 9 { w.push("F".into()) } }
                6 => { no += 1; w.push("tel".into()) }
                7 => if no < out && recv <= maxrecv { no += 1; w.push("ann@a.org".into()) },
                8 => keep = true,
                _ => {}
            }
        }
    }
    if keep { w.push("INBOX".into()) }
    let mut g: Vec<String> = vec![];
    let (mut sent, mut redirected) = (0, 0);
    for e in &t.ev {
        match e {
            Event::SendMessage { recipient: Recipient::Address(a), message_id, .. } => { sent += 1; if *message_id == 0 { redirected += 1 } g.push(a.clone()) }
            Event::SendMessage { recipient: Recipient::List(a), .. } => { sent += 1; redirected += 1; g.push(a.clone()) }
            Event::SendMessage { recipient: Recipient::Group(a), .. } => { sent += 1; g.push(a.join(",")) }
            Event::Notify { method, .. } => g.push(if method == "tel:1" { "tel".into() } else { method.clone() }),
            Event::FileInto { folder, .. } => g.push(folder.clone()),
            Event::Keep { .. } => g.push("INBOX".into()),
            _ => {}
        }
    }
    for x in &g { obs_bytes(x.as_bytes()) }
    reach(if w.len() < n { 2 } else { 1 });
    check(t.ended && t.err.is_none(), 1, "runs without error");
    check(sent <= out, 2, "no more messages than allowed");
    check(redirected <= red, 3, "no more redirections than allowed");
    check(recv < maxrecv || redirected == 0, 4, "a message with too many Received fields is not redirected");
    check(g == w, 5, "an action below the limits happens, one above does nothing (a notification is handed to the host)");
}
entry!{
/// every sequence of 3 (thorough: 4) actions out of redirect (plain, :copy, to oneself, :list, invalid), notify (mail, mail with copy, other), vacation, keep under limits of 0 to 3 redirects and 0 to 3 messages
/// reach: 1 2
h_c06_seq { let (r, o) = (choose(4), choose(4)); seq(tier(3, 4), r, o, 0, 10, false); }
}
entry!{
/// every sequence of 2 (thorough: 3) of these in a loop of two rounds, limits 0 to 4
/// reach: 1 2
h_c06_loop { let (r, o) = (choose(4), choose(5)); seq(tier(2, 3), r, o, 0, 10, true); }
}
entry!{
/// every pair of actions on a message with 0 to 3 Received fields, limit 0 to 3
/// reach: 1 2
h_c06_received { let (h, m) = (choose(4), choose(4)); seq(2, 3, 3, h, m, false); }
}
