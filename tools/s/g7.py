ID='c16-length-of-encoded'; PROP='C16'
NEEDS=':length together with :encodeurl'
BREAKS=':length counts the value before it is encoded'
EDITS=[('src/compiler/grammar/actions/action_set.rs','''            Modifier::EncodeUrl => 15,
            Modifier::Length => 10,''','''            Modifier::EncodeUrl => 10,
            Modifier::Length => 15,''')]
MAIN='''
    let v = go(r#"set :encodeurl :length "a" "x y"; fileinto "${a}";"#, &[]);
    expect(v, &["file 5 [] 0"]);
'''
