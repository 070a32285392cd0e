ID='c23-auto-submitted-case'; PROP='C23'
NEEDS='a message with an Auto-Submitted field whose value "no" is not spelled in lower case'
BREAKS='Auto-Submitted: No counts as automatic mail, so the notification is not sent'
EDITS=[('src/runtime/actions/action_notify.rs','''.is_none_or(|v| !v.eq_ignore_ascii_case("no"))''','''.is_none_or(|v| v != "no")''')]
MAIN=r'''
    let on = |m: &str, s: &str| { let rt = Runtime::new(); let c = rt.filter(m.as_bytes()).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org"); go_ctx(c, s, &[]) };
    let n = |h: &str| on(&format!("From: a@example.org\r\nAuto-Submitted: {h}\r\nSubject: x\r\n\r\nb\r\n"), r#"require "enotify"; notify :message "m" "xmpp:a@b.org"; discard;"#);
    expect(n("no"), &["notify xmpp:a@b.org m", "discard"]);
    expect(n("No"), &["notify xmpp:a@b.org m", "discard"]);
    expect(n("auto-replied"), &["discard"]);
'''
