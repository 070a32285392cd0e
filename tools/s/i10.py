ID='c33-references-dropped'; PROP='C33'
NEEDS='a vacation reply to a message whose References field stands after its Message-ID'
BREAKS='the references of the message replied to are left out of the reply'
EDITS=[('src/runtime/actions/action_vacation.rs', '                HeaderName::References => {\n', '                HeaderName::References if message_id.is_none() => {\n')]
MAIN='    let on = |m: &str, s: &str| { let rt = Runtime::new(); let c = rt.filter(m.as_bytes()).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org"); go_ctx(c, s, &[]) };\n    let n = |h: &str| on(&format!("From: ann@a.org\\r\\nTo: bob@b.org\\r\\n{h}Subject: x\\r\\n\\r\\nb\\r\\n"), r#"require "vacation"; vacation "gone"; discard;"#).iter().any(|e| e.contains("References: <r@x> <i@x>"));\n    assert!(n("References: <r@x>\\r\\nMessage-ID: <i@x>\\r\\n"));\n    assert!(n("Message-ID: <i@x>\\r\\nReferences: <r@x>\\r\\n"));\n'
