ID='c20-unknown-nested-block'; PROP='C20'
NEEDS='ihave required and an unknown command with a block that holds two blocks'
BREAKS='an unknown command ends with the second block inside its block'
EDITS=[('src/compiler/grammar/mod.rs','''                    _ => curly_count -= 1,''','''                    2 => curly_count -= 1,
                    _ => curly_count = 1,''')]
MAIN='''
    let ok = |s: &str| Compiler::new().compile(s.as_bytes()).is_ok();
    expect(vec![ok(r#"require "ihave"; if false { foo { bar { baz { a; } b; } c; } }"#).to_string()], &["true"]);
'''
