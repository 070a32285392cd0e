ID='c22-resent-bcc'; PROP='C22'
NEEDS='a message that names the user only in Resent-Bcc'
BREAKS='a user addressed by Resent-Bcc is not found among the recipients, no reply is made'
EDITS=[('src/runtime/actions/action_vacation.rs','''                | HeaderName::ResentBcc
''','')]
MAIN='''
    let m = b"From: ann@a.org\\r\\nTo: list@b.org\\r\\nResent-Bcc: bob@b.org\\r\\nSubject: hello\\r\\n\\r\\nbody\\r\\n";
    let rt = Runtime::new();
    let c = rt.filter(m).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org");
    let v = go_ctx(c, r#"vacation "away";"#, &[]);
    if !v.iter().any(|e| e.contains("Duplicate")) { println!("{v:?}"); std::process::exit(1) }
'''
