ID='c12-comma-jump'; PROP='C12'
NEEDS='a logical operator with a host function on its right inside an array item followed by another item'
BREAKS='the jump of && or || inside an item is not placed at the comma: the right side is called although the left decides'
EDITS=[('src/compiler/grammar/expr/parser.rs','''                                let jmp_pos = *jmp_pos;
                                self.update_jmp_pos(jmp_pos);
                                self.output.push(Expression::BinaryOperator(bop));
                                self.operator_stack.pop();''','''                                self.output.push(Expression::BinaryOperator(bop));
                                self.operator_stack.pop();''')]
MAIN='''
    let mut f = FunctionMap::new().with_external_function("ask", 0, 1);
    let s = Compiler::new().with_no_capability_check(true).register_functions(&mut f).compile(br#"let "a" "[0 && ask(1), 7]"; let "n" "a[1]"; fileinto "x${n}";"#).unwrap();
    let rt = Runtime::new().with_functions(&mut f);
    let mut c = ctx(&rt);
    let mut input = Input::script("main", s);
    while let Some(e) = c.run(input) {
        input = Input::True;
        match e.unwrap() {
            Event::Function { .. } => { println!("called"); std::process::exit(1) }
            Event::FileInto { folder, .. } => assert_eq!(folder, "x7"),
            _ => (),
        }
    }
'''
