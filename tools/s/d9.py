ID='c02-header-cut'; PROP='C02'
NEEDS='a header value longer than the limit with a character of several bytes across it'
BREAKS='a value is cut inside a character, which panics'
EDITS=[('src/runtime/actions/action_editheader.rs','''                if header_value.len() + ch.len_utf8() <= max_len {
                    header_value.push(ch);
                } else {
                    return header_value;
                }''','''                header_value.push(ch);
                if header_value.len() >= max_len {
                    header_value.truncate(max_len);
                    return header_value;
                }''')]
MAIN='''
    let rt = Runtime::new().with_max_header_size(5);
    let c = ctx(&rt);
    let v = go_ctx(c, r#"addheader "X-T" "abcdé";"#, &[]);
    if !v[0].contains("X-T: abcd\\\\r") { println!("{v:?}"); std::process::exit(1) }
'''
