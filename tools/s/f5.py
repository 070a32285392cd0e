ID='c18-remove-two'; PROP='C18'
NEEDS='two or more flags removed by one removeflag, the first not the last of the variable'
BREAKS='removeflag removes the wrong flag once it has removed one'
EDITS=[('src/runtime/actions/action_flags.rs','''                        current_flags.swap_remove(pos);
                        current_flags_lc.swap_remove(pos);''','''                        current_flags.remove(pos);
                        current_flags_lc.swap_remove(pos);''')]
MAIN='''
    let v = go(r#"setflag ["a", "b", "c", "d"]; removeflag ["a", "b"]; keep;"#, &[]);
    let f = v.last().unwrap();
    if !(f.contains("\\"c\\"") && f.contains("\\"d\\"") && !f.contains("\\"a\\"") && !f.contains("\\"b\\"")) { println!("{v:?}"); std::process::exit(1) }
'''
