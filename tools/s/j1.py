ID='c06-list-uncounted'; PROP='C06'
NEEDS='redirections to a list followed by one to an address, with a limit that the two exceed together'
BREAKS='a redirection to a list does not count as a redirection'
EDITS=[('src/runtime/actions/action_redirect.rs', '                ctx.num_redirects += 1;\n', '                ctx.num_redirects += usize::from(!self.list);\n')]
MAIN='\n    let rt = Runtime::new().with_max_redirects(1);\n    let s = r#"require ["extlists","copy"]; redirect :list "tag:a@b.org,2020:x"; redirect :copy "x@y.org"; discard;"#;\n    let n = go_ctx(ctx(&rt), s, &[]).iter().filter(|e| e.starts_with("send")).count();\n    assert_eq!(n, 1);\n'
