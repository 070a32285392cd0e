ID='c31-clear-two'; PROP='C31'
NEEDS='a block that first sets three or more variables and is entered again (or followed by another block using the same slots)'
BREAKS='only the first two variables of a block are emptied at its end'
EDITS=[('src/compiler/grammar/instruction.rs','''                match_vars: self.block.match_test_vars,
                local_vars_idx: self.vars_num as u32,
                local_vars_num: vars_num_block as u32,''','''                match_vars: self.block.match_test_vars,
                local_vars_idx: self.vars_num as u32,
                local_vars_num: vars_num_block.min(2) as u32,''')]
MAIN='''
    expect(go("let \\"global.i\\" \\"0\\"; while \\"global.i < 2\\" { let \\"global.i\\" \\"global.i + 1\\"; set \\"a\\" \\"1\\"; set \\"b\\" \\"2\\"; set \\"c\\" \\"x${c}\\"; fileinto :copy \\"${c}\\"; }", &[]), &["file x [] 0", "file x [] 0", "keep [] 0"]);
'''
