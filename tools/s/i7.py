ID='c07-urlencode-cut'; PROP='C07'
NEEDS='an :encodeurl of a multi-byte character right at the size limit of a variable'
BREAKS='the room for an escaped character is counted by characters instead of bytes, so that the text outgrows the limit and is cut in the middle of an escape'
EDITS=[('src/runtime/actions/action_set.rs','''result.len() + (char.len_utf8() * 3) <= max_len''','''result.len() + 3 <= max_len''')]
MAIN=r'''
    let rt = Runtime::new().with_max_variable_size(4);
    let f = |v: &str| go_ctx(ctx(&rt), &format!(r#"require ["variables","fileinto"]; set :encodeurl "a" "{v}"; fileinto "x${{a}}";"#), &[]);
    expect(f("ab"), &["file xab [] 0"]);
    expect(f("a\u{e9}"), &["file xa [] 0"]);
'''
