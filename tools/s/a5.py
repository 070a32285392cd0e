ID='c01-number-suffix'; PROP='C01'
NEEDS='a number with a unit suffix whose product exceeds 64 bits'
BREAKS='the multiplication by the unit overflows, which aborts the compilation'
EDITS=[('src/compiler/lexer/tokenizer.rs','Token::Number(number.saturating_mul(multiplier))','Token::Number(number * multiplier)')]
MAIN='''
    let r = std::panic::catch_unwind(|| Compiler::new().compile(b"if size :over 17179869184g { discard; }").is_ok());
    if r.is_err() { std::process::exit(1) }
'''
