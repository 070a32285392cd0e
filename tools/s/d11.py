ID='c16-quoteregex-equals'; PROP='C16'
NEEDS='set :quoteregex on a text with = or :'
BREAKS='characters special in groups are not quoted'
EDITS=[('src/runtime/actions/action_set.rs',"""'*', '\\\\', '?', '.', '[', ']', '(', ')', '+', '{', '}', '|', '^', '=', ':',
                        '$',""","""'*', '\\\\', '?', '.', '[', ']', '(', ')', '+', '{', '}', '|', '^', ':', '$',""")]
MAIN='''
    expect(go(r#"set :quoteregex "v" "a=b"; fileinto "${v}";"#, &[]), &[r"file a\\=b [] 0"]);
'''
