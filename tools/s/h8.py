ID='c21-tab-in-angle'; PROP='C21'
NEEDS='an escaped quote inside a quoted local part followed by a backslash at the end'
BREAKS='an escape outside quotes is honoured'
EDITS=[('src/runtime/actions/action_redirect.rs',"""            '\\\\' if in_quote => {""","""            '\\\\' if in_quote || !has_at => {""")]
MAIN=r'''
    let v = go("redirect \"a\\\\b@x.org\";", &[]);
    println!("{v:?}");
    expect(v, &["send Address(\"a\\\\b@x.org\") 0"]);
'''
