ID='c32-address-from-back'; PROP='C32'
NEEDS='an address part of an address by negative index in a field that is not an address field by name'
BREAKS='a negative address index of a field of another name counts from the front'
EDITS=[('src/runtime/eval.rs','''                            Ordering::Less => list
                                .rev()
                                .nth((self.index_part.unsigned_abs() - 1) as usize)
                                .and_then(|a| part.eval_strict(a))
                                .map(|s| Variable::String(s.to_string().into())),''','''                            Ordering::Less if self.index_part != -1 => list
                                .nth((self.index_part.unsigned_abs() - 1) as usize)
                                .and_then(|a| part.eval_strict(a))
                                .map(|s| Variable::String(s.to_string().into())),
                            Ordering::Less => list
                                .next_back()
                                .and_then(|a| part.eval_strict(a))
                                .map(|s| Variable::String(s.to_string().into())),''')]
MAIN='''
    let rt = Runtime::new();
    let c = rt.filter(b"X-A: a@x.org, b@x.org, c@x.org\\r\\n\\r\\nx\\r\\n");
    expect(go_ctx(c, r#"fileinto "${header.x-a.addr[-3]}";"#, &[]), &["file a@x.org [] 0"]);
'''
