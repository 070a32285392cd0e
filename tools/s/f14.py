ID='c12-expr-tab'; PROP='C12'
NEEDS='an escaped tab in a string constant of an expression'
BREAKS='the escape \\t in an expression string is the letter t'
EDITS=[('src/compiler/grammar/expr/tokenizer.rs','''                                        b't' => {
                                            buf.push(b'\\t');
                                        }
''','')]
MAIN='''
    let v = go(r#"let "a" "'x\\\\ty'"; fileinto "${a}";"#, &[]);
    expect(v, &["file x\\ty [] 0"]);
'''
