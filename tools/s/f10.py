ID='c30-fcc-special-use'; PROP='C30'
NEEDS='a vacation with both :mailboxid and :specialuse of its copy'
BREAKS='the copy of a vacation reply gives the mailbox id also as the special use'
EDITS=[('src/runtime/actions/action_vacation.rs','''                special_use: fcc
                    .special_use
                    .as_ref()''','''                special_use: fcc
                    .mailbox_id
                    .as_ref()
                    .filter(|_| fcc.flags.len() > 1)
                    .or(fcc.special_use.as_ref())''')]
MAIN='''
    let rt = Runtime::new();
    let mut c = ctx(&rt);
    let s = Compiler::new().with_no_capability_check(true).compile(br#"vacation :fcc "F" :flags ["a", "b"] :mailboxid "id" :specialuse "su" "away";"#).unwrap();
    let mut input = Input::script("main", s);
    let mut seen = false;
    while let Some(e) = c.run(input) {
        input = Input::False;
        if let Ok(Event::FileInto { mailbox_id, special_use, .. }) = e { seen = true; if special_use.as_deref() != Some("su") || mailbox_id.as_deref() != Some("id") { println!("{mailbox_id:?} {special_use:?}"); std::process::exit(1) } }
    }
    assert!(seen);
'''
