ID='c22-suppress-list'; PROP='C22'
NEEDS='an X-Auto-Response-Suppress field with a space after a comma'
BREAKS='OOF after a comma and a space is not seen and the automatic reply is sent'
EDITS=[('src/runtime/actions/action_vacation.rs', '["all", "oof"].contains(&v.trim())', '["all", "oof"].contains(&v)')]
MAIN='    let on = |m: &str, s: &str| { let rt = Runtime::new(); let c = rt.filter(m.as_bytes()).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org"); go_ctx(c, s, &[]) };\n    let n = |v: &str| on(&format!("From: ann@a.org\\r\\nTo: bob@b.org\\r\\nX-Auto-Response-Suppress: {v}\\r\\nSubject: x\\r\\n\\r\\nb\\r\\n"), r#"require "vacation"; vacation "gone"; discard;"#).len();\n    assert_eq!(n("OOF"), 1);\n    assert_eq!(n("DR, OOF"), 1);\n    assert!(n("DR") > 1);\n'
