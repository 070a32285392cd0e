ID='c22-suppress-space'; PROP='C22'
NEEDS='an X-Auto-Response-Suppress field with several values separated by comma and space, the last of which is OOF or All'
BREAKS='only values directly after the comma are recognised'
EDITS=[('src/runtime/actions/action_vacation.rs','''                            v.to_ascii_lowercase()
                                .split(',')
                                .any(|v| ["all", "oof"].contains(&v.trim()))''','''                            v.to_ascii_lowercase()
                                .trim()
                                .split(',')
                                .any(|v| ["all", "oof"].contains(&v))''')]
MAIN='''
    let rt = Runtime::new();
    let msg: &[u8] = b"From: Ann <ann@a.org>\\r\\nTo: bob@b.org\\r\\nX-Auto-Response-Suppress: DR, OOF\\r\\n\\r\\nx\\r\\n";
    let c = rt.filter(msg).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org");
    expect(go_ctx(c, r#"vacation "away";"#, &[]), &["keep [] 0"]);
'''
