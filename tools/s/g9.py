ID='c22-sender-case'; PROP='C22'
NEEDS='an automatic sender spelled with capitals'
BREAKS='automatic senders are recognised in lower case only'
EDITS=[('src/runtime/actions/action_vacation.rs','''                        from = value.to_string().to_ascii_lowercase();''','''                        from = value.to_string().into_owned();''')]
MAIN='''
    let rt = Runtime::new();
    let c = rt.filter(MSG).with_user_address("bob@b.org").with_envelope(Envelope::From, "Owner-list@a.org").with_envelope(Envelope::To, "bob@b.org");
    let v = go_ctx(c, r#"vacation "away";"#, &[]);
    if v.iter().any(|e| e.contains("Duplicate")) { println!("{v:?}"); std::process::exit(1) }
'''
