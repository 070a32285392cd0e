ID='c08-redirect-after-fileinto'; PROP='C08'
NEEDS='discard before a redirect without :copy'
BREAKS='redirect after discard takes the discard back: nothing is reported discarded'
EDITS=[('src/runtime/actions/action_redirect.rs','''if !self.copy && matches!(&ctx.final_event, Some(Event::Keep { .. })) {''','''if !self.copy {''')]
MAIN='''
    let v = go(r#"discard; redirect "x@y.org";"#, &[]);
    if !v.iter().any(|e| e == "discard") { println!("{v:?}"); std::process::exit(1) }
'''
