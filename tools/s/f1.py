ID='c11-compare-truncated'; PROP='C11'
NEEDS='a float compared by order with an integer, equal up to the fraction'
BREAKS='an ordered comparison of a float on the left with an integer on the right drops the fraction'
EDITS=[('src/runtime/expression.rs','''(Self::Float(a), Self::Integer(b)) => a.partial_cmp(&(*b as f64)),''','''(Self::Float(a), Self::Integer(b)) => (*a as i64).partial_cmp(b),''')]
MAIN='''
    let v = go(r#"let "a" "7 / 2"; let "b" "a > 3"; let "c" "a <= 3"; fileinto "x${b}${c}";"#, &[]);
    expect(v, &["file x10 [] 0"]);
'''
