ID='c10-pop-part'; PROP='C10'
NEEDS='a break out of an inner foreverypart, then the part looked at by the rest of the outer round'
BREAKS='break out of a loop over parts leaves the current part at the one of the inner loop'
EDITS=[('src/runtime/context.rs','''                            if let Some((prev_part, prev_part_iter)) = self.part_iter_stack.pop() {
                                self.part_iter = prev_part_iter;
                                self.part = prev_part;
                            } else {''','''                            if let Some((_, prev_part_iter)) = self.part_iter_stack.pop() {
                                self.part_iter = prev_part_iter;
                                if self.part_iter_stack.is_empty() {
                                    self.part = 0;
                                }
                            } else {''')]
MAIN='''
    let m = b"Subject: s\\r\\nContent-Type: multipart/mixed; boundary=x\\r\\n\\r\\n--x\\r\\nContent-Type: multipart/mixed; boundary=y\\r\\n\\r\\n--y\\r\\nContent-Type: text/plain\\r\\n\\r\\na\\r\\n--y--\\r\\n--x--\\r\\n";
    let rt = Runtime::new();
    let v = go_ctx(rt.filter(m), r#"foreverypart { if header :mime :type "content-type" "multipart" { foreverypart { break; } if header :mime :type "content-type" "multipart" { fileinto :copy "multi"; } else { fileinto :copy "other"; } } }"#, &[]);
    expect(v, &["file multi [] 0", "file multi [] 0", "keep [] 0"]);
'''
