ID='c08-discard-then-error'; PROP='C08'
NEEDS='discard, then a runtime error'
BREAKS='a message discarded before a runtime error is neither discarded nor kept'
EDITS=[('src/runtime/context.rs','''            } else {
                vec![event]
            }
            .into_iter();''','''            } else {
                vec![]
            }
            .into_iter();''')]
MAIN='''
    let v = go(r#"require "ihave"; discard; error "x";"#, &[]);
    if !v.iter().any(|e| e == "discard") { println!("{v:?}"); std::process::exit(1) }
'''
