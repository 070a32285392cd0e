ID='c31-local-depth'; PROP='C31'
NEEDS='a block variable three blocks up, used in an inner block'
BREAKS='a variable of a block is known only in the blocks directly around'
EDITS=[('src/compiler/grammar/instruction.rs','''            for block in self.block_stack.iter().rev() {
                if let Some(var_id) = block.vars_local.get(&name) {''','''            for (depth, block) in self.block_stack.iter().rev().enumerate() {
                if depth > 2 && depth + 1 < self.block_stack.len() {
                    continue;
                }
                if let Some(var_id) = block.vars_local.get(&name) {''')]
MAIN='''
    let v = go(r#"if true { set "a" "1"; if true { if true { if true { if true { fileinto "x${a}"; } } } } }"#, &[]);
    expect(v, &["file x1 [] 0"]);
'''
