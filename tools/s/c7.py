ID='c30-vacation-flags-handle'; PROP='C30'
NEEDS='a vacation with both :handle and :addresses given through variables registered by :local in a block'
BREAKS='the addresses of the vacation test read a slot that does not exist'
EDITS=[('src/compiler/grammar/instruction.rs','''                v.addresses.map_local_vars(last_id);
                v.handle.map_local_vars(last_id);
                v.reason.map_local_vars(last_id);
''','''                v.handle.map_local_vars(last_id);
                v.reason.map_local_vars(last_id);
''')]
MAIN='''
    let msg: &[u8] = b"From: ann@a.org\\r\\nTo: other@b.org\\r\\nSubject: x\\r\\n\\r\\nb\\r\\n";
    let rt = Runtime::new();
    let c = rt.filter(msg).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org");
    let out = go_ctx(c, "set \\"a\\" \\"q\\"; if true { set :local \\"v\\" \\"other@b.org\\"; } vacation :addresses \\"${v}\\" :handle \\"h\\" \\"gone\\";", &[]);
    expect(vec![out.iter().any(|l| l.starts_with("DuplicateId")).to_string()], &["true"]);
'''
