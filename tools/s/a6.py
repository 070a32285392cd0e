ID='c10-break-pop'; PROP='C10'
NEEDS='an unnamed break from inside an if within a foreverypart, followed by a second loop or a use of the current part'
BREAKS='such a break leaves the iteration state of the loop on the stack, so that a later loop sees the wrong parts'
EDITS=[('src/compiler/grammar/instruction.rs','''                                if matches!(block.btype, Word::ForEveryPart) {
                                    state.instructions.push(Instruction::ForEveryPartPop(1));''','''                                if matches!(block.btype, Word::ForEveryPart)
                                    && block.label.is_none()
                                {
                                    state.instructions.push(Instruction::ForEveryPartPop(1));''')]
MAIN='''
    let m: &[u8] = b"From: a@a.org\\r\\nContent-Type: multipart/mixed; boundary=B\\r\\n\\r\\n--B\\r\\nContent-Type: text/plain\\r\\nX-P: one\\r\\n\\r\\nx\\r\\n--B\\r\\nContent-Type: text/plain\\r\\nX-P: three\\r\\n\\r\\ny\\r\\n--B--\\r\\n";
    let s = r#"foreverypart :name "L" { if header :mime "X-P" "one" { fileinto "one"; break; } } foreverypart { if header :mime "X-P" "three" { fileinto "three"; } }"#;
    let rt = Runtime::new();
    expect(go_ctx(rt.filter(m), s, &[]), &["file one [] 0", "file three [] 0"]);
'''
