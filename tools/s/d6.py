ID='c06-copy-uncounted'; PROP='C06'
NEEDS='redirect :copy followed by another redirect'
BREAKS='a redirect :copy does not count as a redirection'
EDITS=[('src/runtime/actions/action_redirect.rs','''                ctx.num_redirects += 1;''','''                ctx.num_redirects += usize::from(!self.copy || self.list);''')]
MAIN='''
    let v = go(r#"redirect :copy "x@y.org"; redirect "z@y.org"; redirect "w@y.org";"#, &[]);
    if v.iter().filter(|e| e.starts_with("send")).count() != 1 { println!("{v:?}"); std::process::exit(1) }
'''
