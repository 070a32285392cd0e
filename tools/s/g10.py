ID='c33-name-backslash'; PROP='C33'
NEEDS='a user name with a backslash at its end'
BREAKS='a backslash in the name of the user is not quoted: the From field of a reply is malformed'
EDITS=[('src/runtime/context.rs','''            if ['\\"', '\\\\'].contains(&ch) {''','''            if ['\\"'].contains(&ch) {''')]
MAIN='''
    let rt = Runtime::new();
    let c = ctx(&rt).with_user_full_name("Bob\\\\");
    let v = go_ctx(c, r#"notify "mailto:a@x.org";"#, &[]);
    if !v[0].contains(r#"From: \\"Bob\\\\\\\\\\" <bob@b.org>"#) { println!("{}", v[0]); std::process::exit(1) }
'''
