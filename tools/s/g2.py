ID='c06-own-address-counted'; PROP='C06'
NEEDS='a redirect to the own address before another redirect'
BREAKS='a redirect to the own address, which sends nothing, uses up a redirection'
EDITS=[('src/runtime/actions/action_redirect.rs','''                if !self.list && address.eq_ignore_ascii_case(ctx.user_address.as_ref()) {
                    return;''','''                if !self.list && address.eq_ignore_ascii_case(ctx.user_address.as_ref()) {
                    ctx.num_redirects += 1;
                    return;''')]
MAIN='''
    let v = go(r#"redirect "Bob@b.org"; redirect "x@y.org";"#, &[]);
    if !v.iter().any(|e| e.starts_with("send")) { println!("{v:?}"); std::process::exit(1) }
'''
