ID='c01-line-after-text-crlf'; PROP='C01'
NEEDS='an error after a multi-line text whose final dot is followed by CRLF'
BREAKS='the position of an error after a multi-line text with CRLF ends is one line too low'
EDITS=[('src/compiler/lexer/tokenizer.rs','''                            (Some((b'\\r', _)), Some(b'\\n')) => {
                                self.next_byte();
                                true
                            }
                            (Some((b'\\n', _)), _) => true,''','''                            (Some((b'\\r', _)), Some(b'\\n')) => true,
                            (Some((b'\\n', _)), _) => {
                                self.new_line();
                                true
                            }'''),('src/compiler/lexer/tokenizer.rs','''                        if is_eof {
                            self.new_line();
                            self.state''','''                        if is_eof {
                            self.text_line_pos += 1;
                            self.state''')]
MAIN='''
    let f = |s: &str| { let e = Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).unwrap_err(); println!("{e:?}"); e };
    for (s, l, p) in [("set \\"a\\" text:\\r\\nx\\r\\n.\\r\\n;\\r\\nbogus;", 5, 1), ("redirect :bogus text:\\nx\\n.\\n;\\n", 1, 9), ("set \\"a\\" text:\\nx\\n.\\n text:", 4, 6)] {
        let e = f(s); if e.line_num() != l { println!("line {} want {l}", e.line_num()); std::process::exit(1) } let _ = p;
    }
'''
