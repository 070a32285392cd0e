ID='c09-elsif-chain-exit'; PROP='C09'
NEEDS='an if with more than five branches with an else, the first of which is taken, with commands following the chain'
BREAKS='only the last five exits of an if/elsif chain are patched; the taken first branch falls out of the script'
EDITS=[('src/compiler/grammar/instruction.rs','''                        Word::Else => {
                            let cur_pos = state.instructions.len();
                            for pos in prev_block.if_jmps.drain(..) {''','''                        Word::Else => {
                            let cur_pos = state.instructions.len();
                            for pos in prev_block.if_jmps.drain(..).rev().take(5) {''')]
MAIN='''
    let mut s = String::from("if mailboxexists \\"a\\" { fileinto :copy \\"1\\"; } ");
    for i in 2..9 { s.push_str(&format!("elsif mailboxexists \\"a{i}\\" {{ fileinto :copy \\"{i}\\"; }} ")); }
    s.push_str("else { fileinto :copy \\"9\\"; } fileinto \\"end\\";");
    expect(go(&s, &[true]), &["file 1 [] 0", "file end [] 0"]);
'''
