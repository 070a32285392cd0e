ID='c18-removeflag-first-only'; PROP='C18'
NEEDS='a removeflag naming two flags where the removal of the first moves the second one'
BREAKS='removeflag keeps the lowercase shadow list in a different order, so a later name removes the wrong flag'
EDITS=[('src/runtime/actions/action_flags.rs','''                        current_flags.swap_remove(pos);
                        current_flags_lc.swap_remove(pos);''','''                        current_flags.swap_remove(pos);
                        current_flags_lc.remove(pos);''')]
MAIN='''
    let mut got = go(r#"addflag ["A", "B", "C", "D"]; removeflag ["A", "D"]; keep;"#, &[]);
    if got.len() == 1 { for f in ["\\"B\\"", "\\"C\\""] { if !got[0].contains(f) { println!("{got:?}"); std::process::exit(1) } } for f in ["\\"A\\"", "\\"D\\""] { if got[0].contains(f) { println!("{got:?}"); std::process::exit(1) } } }
    got.clear();
'''
