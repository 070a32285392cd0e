ID='c11-array-prepend'; PROP='C11'
NEEDS='adding a list on the right to a single value'
BREAKS='the value is put behind the list'
EDITS=[('src/runtime/expression.rs', '            (a, Variable::Array(b)) => [a]\n                .into_iter()\n                .chain(b.iter().cloned())\n                .collect', '            (a, Variable::Array(b)) => b\n                .iter()\n                .cloned()\n                .chain([a])\n                .collect')]
MAIN='\n    let s = r#"require ["vnd.stalwart.expressions","variables","fileinto"]; let "b" "[\'x\',\'y\']"; let "a" "\'z\' + b"; let "c" "a[0]"; fileinto "${c}";"#;\n    expect(go(s, &[]), &["file z [] 0"]);\n'
