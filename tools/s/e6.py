ID='c17-number-text'; PROP='C17'
NEEDS='a quoted string of digits with a leading zero, plus sign or trailing zero as text, with a dot'
BREAKS='a string that spells a decimal number with trailing zeros is read as the number'
EDITS=[('src/compiler/lexer/tokenizer.rs','''                    } else if let Some(number) = constant.parse::<f64>().ok().and_then(|n| {
                        if n.to_string() == constant {''','''                    } else if let Some(number) = constant.parse::<f64>().ok().and_then(|n| {
                        if n.to_string() == constant.trim_end_matches('0') {''')]
MAIN='''
    expect(go(r#"fileinto "1.50";"#, &[]), &["file 1.50 [] 0"]);
'''
