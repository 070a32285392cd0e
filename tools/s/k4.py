ID='c20-regex-third'; PROP='C20'
NEEDS='a :regex test with a list of three patterns of which the last is malformed'
BREAKS='a malformed pattern behind the second is accepted'
EDITS=[('src/compiler/grammar/mod.rs', '            for key in key_list {\n                if let Value::Text(expr) = key {', '            for key in key_list.iter_mut().take(2) {\n                if let Value::Text(expr) = key {')]
MAIN='\n    let f = |p: &str| Compiler::new().compile(format!("require [\\"regex\\",\\"fileinto\\"]; if header :regex \\"subject\\" {p} {{ stop; }}").as_bytes()).is_ok();\n    assert!(f(r#""a+""#)); assert!(!f(r#""(a""#)); assert!(!f(r#"["b", "c", "(a"]"#)); assert!(f(r#"["b", "(a)"]"#));\n'
