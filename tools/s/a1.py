ID='c09-elsif-chain-exit'; PROP='C09'
NEEDS='an if with at least two elsif branches, no else, and one of the earlier branches taken'
BREAKS='only one of the pending exit jumps of an if/elsif chain without else is patched, the others point nowhere and end the script'
EDITS=[('src/compiler/grammar/instruction.rs','''                            if !next_is_block {
                                for pos in prev_block.if_jmps.drain(..) {
''','''                            if !next_is_block {
                                for pos in prev_block.if_jmps.pop() {
''')]
MAIN='''
    let s = r#"if mailboxexists "a" { fileinto "A"; } elsif mailboxexists "b" { fileinto "B"; } elsif mailboxexists "c" { fileinto "C"; } fileinto "End";"#;
    expect(go(s, &[true]), &["file A [] 0", "file End [] 0"]);
    expect(go(s, &[false, true]), &["file B [] 0", "file End [] 0"]);
    expect(go(s, &[]), &["file End [] 0"]);
'''
