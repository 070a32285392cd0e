ID='c24-replace-bcc'; PROP='C24'
NEEDS='a message with Bcc replaced as a whole'
BREAKS='replace of the whole message loses Bcc'
EDITS=[('src/runtime/actions/action_mime.rs','''HeaderName::To | HeaderName::Cc | HeaderName::Bcc | HeaderName::Received => (),''','''HeaderName::To | HeaderName::Cc | HeaderName::Received => (),''')]
MAIN='''
    let m = b"From: ann@a.org\\r\\nTo: x@b.org\\r\\nBcc: bob@b.org\\r\\nSubject: hello\\r\\n\\r\\nbody\\r\\n";
    let rt = Runtime::new();
    let v = go_ctx(rt.filter(m), r#"replace "new";"#, &[]);
    if !v[0].contains("Bcc: bob@b.org") { println!("{v:?}"); std::process::exit(1) }
'''
