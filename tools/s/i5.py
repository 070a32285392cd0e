ID='c32-attribute-case'; PROP='C32'
NEEDS='a Content-Type attribute written in capitals in the message'
BREAKS='the attribute is not found'
EDITS=[('src/runtime/eval.rs','''if a.name.eq_ignore_ascii_case(attr) {
                                Some(Variable::from(a.value''','''if a.name.as_ref() == attr.as_str() {
                                Some(Variable::from(a.value''')]
MAIN=r'''
    let on = |m: &str, s: &str| { let rt = Runtime::new(); let c = rt.filter(m.as_bytes()).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org"); go_ctx(c, s, &[]) };
    let n = |a: &str| on(&format!("From: a@example.org\r\nContent-Type: text/plain; {a}=utf-8\r\n\r\nb\r\n"), r#"require ["variables","fileinto"]; fileinto "x${header.content-type.attr.charset}";"#);
    expect(n("charset"), &["file xutf-8 [] 0"]);
    expect(n("CHARSET"), &["file xutf-8 [] 0"]);
'''
