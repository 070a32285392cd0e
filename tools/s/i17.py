ID='c01-number-overflow'; PROP='C01'
NEEDS='a number with a suffix whose product leaves the 64-bit range'
BREAKS='the compiler panics instead of answering'
EDITS=[('src/compiler/lexer/tokenizer.rs', 'number.saturating_mul(multiplier)', 'number * multiplier')]
MAIN='\n    let r = std::panic::catch_unwind(|| { let _ = Compiler::new().compile(b"if size :over 99999999999999G { stop; }"); });\n    assert!(r.is_ok());\n'
