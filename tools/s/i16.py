ID='c03-header-list-limit'; PROP='C03'
NEEDS='a deleteheader or addheader with a value or name just over the header limit'
BREAKS='a header value one byte over the limit is accepted'
EDITS=[('src/compiler/grammar/actions/action_editheader.rs', 'Value::Text(value) if value.len() > self.compiler.max_header_size', 'Value::Text(value) if value.chars().count() > self.compiler.max_header_size')]
MAIN='\n    let f = |v: &str| Compiler::new().with_max_header_size(8).compile(format!(r#"require "editheader"; addheader "X-A" "{v}";"#).as_bytes()).is_ok();\n    assert!(f("12345678")); assert!(!f("123456789")); assert!(f("123456\\u{e9}")); assert!(!f("1234567\\u{e9}"));\n'
