ID='c32-array-one'; PROP='C32'
NEEDS='a header variable that asks for all addresses of a single field with one address'
BREAKS='not a list but the only element is given, so that looking at its length or elements fails'
EDITS=[('src/runtime/eval.rs', '1 if header.index_hdr != 0 && header.index_part != 0 => result.pop(),', '1 if header.index_hdr != 0 => result.pop(),')]
MAIN='\n    let s = r#"require ["vnd.stalwart.expressions","fileinto"]; let "a" "count(header.to:cc[-1].addr[*])"; let "b" "header.to[-1].addr[*]"; fileinto "x";"#;\n    let f = |e: &str| go(&format!(r#"require ["vnd.stalwart.expressions","fileinto","variables"]; let "a" "{e}"; fileinto "${{a}}";"#), &[]);\n    let _ = s;\n    expect(f("header.to[-1].addr[*][0]"), &["file bob@b.org [] 0"]);\n'
