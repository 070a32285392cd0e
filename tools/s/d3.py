ID='c33-bare-cr'; PROP='C33'
NEEDS='a header value (addheader, enclose, replace) with a carriage return that no line feed follows'
BREAKS='a bare carriage return stays in the header field'
EDITS=[('src/runtime/actions/action_editheader.rs','''        for ch in self.chars() {
            if !['\\n', '\\r'].contains(&ch) {''','''        let mut chars = self.chars().peekable();
        while let Some(ch) = chars.next() {
            if ch != '\\n' && (ch != '\\r' || chars.peek().is_some_and(|next| *next != '\\n')) {''')]
MAIN='''
    let rt = Runtime::new();
    let mut c = ctx(&rt);
    c.set_global_variable("v", "a\\rBcc: x");
    let v = go_ctx(c, r#"addheader "X-T" "${global.v}";"#, &[]);
    if !v[0].contains("X-T: aBcc: x") { println!("{v:?}"); std::process::exit(1) }
'''
