ID='c10-part-not-restored'; PROP='C10'
NEEDS='a foreverypart loop inside another one and a use of the current part after the inner loop ended'
BREAKS='when an inner foreverypart runs out of parts the part current in the outer loop is not restored'
EDITS=[('src/runtime/context.rs','''                        } else if let Some((prev_part, prev_part_iter)) = self.part_iter_stack.pop()
                        {
                            debug_assert!(fep.jz_pos > self.pos - 1);
                            self.part_iter = prev_part_iter;
                            self.part = prev_part;
''','''                        } else if let Some((prev_part, prev_part_iter)) = self.part_iter_stack.pop()
                        {
                            debug_assert!(fep.jz_pos > self.pos - 1);
                            self.part_iter = prev_part_iter;
                            if self.part_iter_stack.is_empty() {
                                self.part = prev_part;
                            }
''')]
MAIN='''
    let m: &[u8] = b"From: a@a.org\\r\\nContent-Type: multipart/mixed; boundary=B\\r\\n\\r\\n--B\\r\\nContent-Type: multipart/mixed; boundary=C\\r\\nX-P: one\\r\\n\\r\\n--C\\r\\nContent-Type: text/plain\\r\\nX-P: two\\r\\n\\r\\nx\\r\\n--C--\\r\\n--B\\r\\nContent-Type: text/plain\\r\\nX-P: three\\r\\n\\r\\ny\\r\\n--B--\\r\\n";
    let s = r#"foreverypart { if header :mime "X-P" "one" { foreverypart { if header :mime "X-P" "two" { fileinto "inner"; } } if header :mime "X-P" "one" { fileinto "outer"; } } }"#;
    let rt = Runtime::new();
    expect(go_ctx(rt.filter(m), s, &[]), &["file inner [] 0", "file outer [] 0"]);
'''
