ID='c16-replace-first-empty'; PROP='C16'
NEEDS='a :replace whose replacement is a variable that holds the text being replaced'
BREAKS='a replacement that contains the replaced text is not made'
EDITS=[('src/runtime/actions/action_set.rs','''            Modifier::Replace { find, replace } => input.replace(
                ctx.eval_value(find).to_string().as_ref(),
                ctx.eval_value(replace).to_string().as_ref(),
            ),''','''            Modifier::Replace { find, replace } => {
                let find = ctx.eval_value(find).to_string().into_owned();
                let replace = ctx.eval_value(replace).to_string().into_owned();
                let mut result = String::with_capacity(input.len());
                let mut rest = input;
                while let Some(pos) = rest.find(find.as_str()) {
                    if find.is_empty() {
                        break;
                    }
                    result.push_str(&rest[..pos]);
                    result.push_str(&replace);
                    rest = &rest[pos + find.len()..];
                }
                result.push_str(rest);
                result
            }''')]
MAIN='''
    let v = go(r#"set "e" ""; set :replace "${e}" "-" "x" "ab"; fileinto "${x}";"#, &[]);
    println!("{v:?}");
    expect(v, &["file -a-b- [] 0"]);
'''
