ID='c19-delete-order'; PROP='C19'
NEEDS='a deleteheader that removes three occurrences of a field or more'
BREAKS='occurrences are removed front to back, so that later ones are missed and other fields are lost'
EDITS=[('src/runtime/actions/action_editheader.rs', 'deleted_headers.iter().rev() {', 'deleted_headers.iter().rev().rev() {')]
MAIN='\n    let rt = Runtime::new();\n    let m = b"From: ann@a.org\\r\\nX-A: 1\\r\\nX-A: 2\\r\\nX-B: 1\\r\\nX-C: 1\\r\\nX-A: 3\\r\\nSubject: s\\r\\nX-D: 1\\r\\nX-E: 1\\r\\n\\r\\nb\\r\\n";\n    let c = rt.filter(m).with_user_address("bob@b.org");\n    let e = go_ctx(c, r#"require ["editheader","fileinto"]; deleteheader "X-A"; fileinto "F";"#, &[]);\n    assert!(e[0].contains("X-B") && e[0].contains("X-C") && !e[0].contains("X-A"), "{e:?}");\n'
