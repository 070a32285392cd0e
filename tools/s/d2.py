ID='c24-extract-first-html'; PROP='C24'
NEEDS='extracttext :first on an HTML part'
BREAKS='the first characters are taken from the markup instead of its text'
EDITS=[('src/runtime/actions/action_mime.rs','''html_to_text(html.as_ref()).chars().take(*first).collect()''','''html_to_text(&html.chars().take(*first).collect::<String>())''')]
MAIN='''
    let rt = Runtime::new();
    let c = rt.filter(b"Content-Type: text/html\\r\\n\\r\\n<p>some text</p>\\r\\n");
    expect(go_ctx(c, r#"foreverypart { extracttext :first 6 "v"; fileinto "${v}"; }"#, &[]), &["file some t [] 0"]);
'''
