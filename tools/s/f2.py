ID='c11-subtract-mirrored'; PROP='C11'
NEEDS='a number minus an array'
BREAKS='an array filtered by subtraction loses only its first equal item'
EDITS=[('src/runtime/expression.rs','''                a.iter()
                    .filter(|v| *v != &b)
                    .cloned()''','''                a.iter()
                    .skip_while(|v| *v == &b)
                    .cloned()''')]
MAIN='''
    let v = go(r#"let "a" "[1, 2, 1, 3] - 1"; let "n" "a[0] * 10 + a[1]"; fileinto "x${n}";"#, &[]);
    expect(v, &["file x23 [] 0"]);
'''
