ID='c09-not-not'; PROP='C09'
NEEDS='not not before a test'
BREAKS='a double negation is a single one'
EDITS=[('src/compiler/grammar/test.rs','''                        is_not = !is_not;
                        continue;''','''                        is_not = true;
                        continue;''')]
MAIN='''
    let v = go(r#"if not not exists "subject" { fileinto "a"; }"#, &[]);
    expect(v, &["file a [] 0"]);
'''
