ID='c23-bcc-twice'; PROP='C23'
NEEDS='a mailto method naming the same address twice as bcc'
BREAKS='an address given twice as bcc is a recipient twice'
EDITS=[('src/runtime/actions/action_notify.rs','''        .chain(params.cc.iter())
        .chain(params.bcc.iter())
        .any(|v| v.eq_ignore_ascii_case(&value))''','''        .chain(params.cc.iter())
        .any(|v| v.eq_ignore_ascii_case(&value))''')]
MAIN='''
    let v = go(r#"notify "mailto:a@x.org?bcc=b@x.org&bcc=B@x.org";"#, &[]);
    let s = v.iter().find(|e| e.starts_with("send")).unwrap();
    if s.matches("x.org").count() != 2 { println!("{v:?}"); std::process::exit(1) }
'''
