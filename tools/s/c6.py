ID='c11-index-past-end'; PROP='C11'
NEEDS='an array indexed by its own length'
BREAKS='an index one past the end reads the last item instead of nothing'
EDITS=[('src/runtime/expression.rs','''                    let index = self.expr_stack.pop().unwrap_or_default().to_usize();
                    let array = self.expr_stack.pop().unwrap_or_default().into_array();
                    self.expr_stack
                        .push(array.get(index).cloned().unwrap_or_default());''','''                    let index = self.expr_stack.pop().unwrap_or_default().to_usize();
                    let array = self.expr_stack.pop().unwrap_or_default().into_array();
                    let index = if index == array.len() && index > 1 { index - 1 } else { index };
                    self.expr_stack
                        .push(array.get(index).cloned().unwrap_or_default());''')]
MAIN='''
    expect(go("let \\"v\\" \\"[1, 2, 3][3]\\"; fileinto \\"<${v}>\\";", &[]), &["file <> [] 0"]);
'''
