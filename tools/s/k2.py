ID='c12-minus-after-comma'; PROP='C12'
NEEDS='a minus sign in front of an item or argument that is not the first'
BREAKS='a minus after a comma is taken for a subtraction and the expression is rejected'
EDITS=[('src/compiler/grammar/expr/tokenizer.rs', '                            | Token::OpenBracket\n                            | Token::Comma\n', '                            | Token::OpenBracket\n')]
MAIN='\n    let s = r#"require ["vnd.stalwart.expressions","variables","fileinto"]; let "a" "[1, -2]"; let "b" "a[1]"; fileinto "${b}";"#;\n    expect(go(s, &[]), &["file -2 [] 0"]);\n'
