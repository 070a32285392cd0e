ID='c07-quote-late'; PROP='C07'
NEEDS='a :quoteregex whose last escape would just not fit'
BREAKS='the escape is cut in half: the value ends with a lone backslash'
EDITS=[('src/runtime/actions/action_set.rs', '                    ]\n                    .contains(&char)\n                    {\n                        if result.len() + char.len_utf8() < max_len {', '                    ]\n                    .contains(&char)\n                    {\n                        if result.len() + char.len_utf8() <= max_len {')]
MAIN='\n    let rt = Runtime::new().with_max_variable_size(4);\n    let f = |v: &str| go_ctx(ctx(&rt), &format!(r#"require ["variables","fileinto"]; set :quoteregex "a" "{v}"; fileinto "x${{a}}";"#), &[]);\n    expect(f("ab."), &["file xab\\\\. [] 0"]);\n    expect(f("abc."), &["file xabc [] 0"]);\n'
