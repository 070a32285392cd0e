ID='c19-index-after-insert'; PROP='C19'
NEEDS='addheader of a field name with characters outside letters, digits and hyphen'
BREAKS='underscores become part of the name of an added field'
EDITS=[('src/runtime/actions/action_editheader.rs','''            if ch.is_alphanumeric() || ch == '-' {''','''            if ch.is_alphanumeric() || matches!(ch, '-' | ':') {''')]
MAIN='''
    let v = go(r#"addheader "X-A:b" "v";"#, &[]);
    if !v[0].contains("X-Ab: v") { println!("{v:?}"); std::process::exit(1) }
'''
