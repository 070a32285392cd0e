ID='c07-url-escape-cut'; PROP='C07'
NEEDS=':encodeurl of a value whose last escape fits exactly'
BREAKS='the last escape that fits exactly is left out'
EDITS=[('src/runtime/actions/action_set.rs','''result.len() + (char.len_utf8() * 3) <= max_len''','''result.len() + (char.len_utf8() * 3) < max_len''')]
MAIN='''
    let rt = Runtime::new().with_max_variable_size(4);
    let v = go_ctx(ctx(&rt), r#"set :encodeurl "a" "x y"; fileinto "${a}";"#, &[]);
    expect(v, &["file x%20 [] 0"]);
'''
