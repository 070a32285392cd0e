
prop('C01', 'Compilation always ends, with a script or a located error',
     'For any bytes offered as a script, compilation terminates and returns either a compiled script or an error whose line lies inside the text. It never panics, overflows, reads out of range or exhausts the stack.',
     ['inputs', 'programs'], 'all byte strings as scripts, under every compiler limit',
     'The tests compile some 60 well-formed scripts; malformed, truncated and mutated text is unbounded and is what a server receives from users.',
     ['src/compiler/mod.rs', 'src/compiler/lexer/tokenizer.rs', 'src/compiler/lexer/string.rs', 'src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs', 'src/compiler/grammar/expr/parser.rs'],
     [('tokenizer state machine', 'Tokenizer::get_token/next'), ('block stack', 'Compiler::compile'), ('typed argument readers', 'parse_string/parse_strings/expect_number')],
     ['Compiler::compile result'])
prop('C13', ':matches implements the wildcard language and fills match variables',
     'A :matches comparison succeeds exactly when the value belongs to the language of the pattern (* any run, ? one character, backslash quotes), under the chosen comparator. The match variables then hold the whole value and the text of each wildcard, leftmost wildcards being as short as possible. The verdict does not depend on whether match variables are used.',
     ['inputs'], 'all patterns and values',
     'The glob tests are a table of some 40 pairs; the matcher is a backtracking state machine whose faults need particular pattern/value alignments.',
     ['src/runtime/tests/glob.rs', 'src/runtime/tests/comparator.rs', 'src/compiler/grammar/test.rs'],
     [('glob_match / glob_match_capture', 'src/runtime/tests/glob.rs'), ('match variable store', 'Context::set_match_var')],
     ['branch taken after the test', 'global variables set from ${0}..${3}'])
prop('C14', 'Comparison tests succeed exactly when some value matches some key',
     'string, header and similar tests succeed exactly when at least one selected value stands in the stated relation (:is, :contains, :value, :count) to at least one key under the stated comparator, and a negated test has the opposite outcome. :index and :last select the field counted from the start or the end.',
     ['inputs', 'programs'], 'all value lists, key lists, match types, relations and comparators',
     'Tests use single values and keys mostly; early exits, list positions, empty strings, non-numeric keys and every relation/comparator pair are a large product.',
     ['src/runtime/tests/comparator.rs', 'src/runtime/tests/test_string.rs', 'src/runtime/tests/test_header.rs', 'src/runtime/tests/mod.rs'],
     [('Comparator::is/contains/relational', 'src/runtime/tests/comparator.rs'), ('RelationalMatch::cmp_num', 'src/runtime/tests/comparator.rs'), ('value/key loops', 'TestString::exec, TestHeader::exec')],
     ['branch taken after the test'])
prop('C18', 'Flag lists behave as case-insensitive sets and reach the delivery actions',
     'setflag, addflag and removeflag replace, extend and reduce a list of flags that never holds an empty flag or the same flag twice in any case, whatever mix of strings and space-separated lists they are given; the default list and each named list are independent. keep and fileinto carry the explicitly given flags if any, else the default list. hasflag succeeds exactly when some flag of the list stands in the stated relation to some key.',
     ['inputs', 'programs', 'histories'], 'all sequences of flag actions, all flag strings',
     'Tests run a handful of fixed flag sequences; duplicate detection, case folding, splitting and removal interact over sequences of actions.',
     ['src/runtime/actions/action_flags.rs', 'src/compiler/grammar/actions/action_flags.rs', 'src/runtime/tests/test_hasflag.rs', 'src/runtime/actions/action_fileinto.rs'],
     [('EditFlags::exec', 'src/runtime/actions/action_flags.rs'), ('tokenize_flags / get_global_flags', 'src/runtime/actions/action_flags.rs')],
     ['flags of Keep and FileInto events', 'branch taken after hasflag'])
prop('C08', 'The message ends exactly where the script puts it; implicit keep otherwise',
     'If no delivering, redirecting, rejecting or discarding action cancelled it, a run ends with exactly one keep, also after a stop or a runtime error; a cancelled keep never comes back by itself, an explicit keep is honoured, and actions marked :copy or silently ignored ones (own address, invalid address, limit reached) cancel nothing. Actions are reported in script order, each once.',
     ['programs', 'inputs', 'fault_sequences'], 'all sequences of actions, all host answers',
     'Tests check single actions; the outcome depends on the order and combination of every action executed before the end or failure of the script.',
     ['src/runtime/context.rs', 'src/runtime/actions/action_fileinto.rs', 'src/runtime/actions/action_redirect.rs', 'src/runtime/actions/action_mime.rs'],
     [('final event', 'Context::run tail, Context::finish_loop'), ('implicit keep cancellation', 'FileInto::exec, Redirect::exec, Reject')],
     ['Context::run events until None'])
prop('C09', 'Conditionals follow the reference semantics, tests are evaluated left to right',
     'if/elsif/else run exactly the first block whose test holds (else the else block); allof, anyof and not have their logical value whatever their nesting, operands being evaluated left to right only until the value is decided. stop ends the script at once; elsif and else are accepted only directly after an if or elsif block.',
     ['programs', 'inputs', 'histories'], 'all scripts of nested conditionals, all truth assignments and host answers',
     'The compiler flattens conditions into jumps; tests exercise a dozen shapes, wrong jump targets show only for particular nestings and truth values.',
     ['src/compiler/grammar/test.rs', 'src/compiler/grammar/instruction.rs', 'src/runtime/context.rs'],
     [('short-circuit jumps Jz/Jnz', 'CompilerState::parse_test'), ('if_jmps patching', 'Compiler::compile CurlyClose'), ('jump execution', 'Context::run')],
     ['sequence of Context::run events', 'Compiler::compile result'])
prop('C10', 'Loops visit what they should and break, continue, return leave the right loop',
     'while repeats while its expression holds, foreverypart visits every MIME part in order (nested: the parts below the current one). break, break :name, continue, return and stop leave exactly the loops they should, from any nesting, and everything after them runs as if the loop had ended normally.',
     ['programs', 'inputs'], 'all nestings of loops and conditionals around a leaving statement, all test answers',
     'Only a few loop shapes are tested; jump targets and the part stack depend on the nesting.',
     ['src/compiler/grammar/instruction.rs', 'src/runtime/context.rs', 'src/runtime/tests/mime.rs'],
     [('break_jmps, last_block_start, ForEveryPartPop', 'Compiler::compile'), ('part iterator stack', 'Context::run')],
     ['sequence of Context::run events'])
prop('C11', 'Expression operators have their mathematical value on every operand',
     'Arithmetic on integers is exact and saturates at the ends of the 64-bit range, comparison, logical and unary operators and array operations give the defined result for every pair of operand kinds (integer, float, string, array); a string takes part in arithmetic as the number it spells, else as 0; division by zero gives 0. No operand makes evaluation panic.',
     ['inputs'], 'all operand values and operand kinds',
     'Tests evaluate a few small expressions; saturation, signs, mixed kinds and out-of-range indexes need particular operands.',
     ['src/runtime/expression.rs', 'src/runtime/variables.rs', 'src/runtime/eval.rs'],
     [('operators', 'Variable::op_add ... op_ge'), ('expression evaluation', 'Context::eval_expression'), ('number parsing', 'Variable::parse_number')],
     ['global variables after let'])
prop('C12', 'Expressions group and evaluate by precedence, with short-circuit and host calls',
     'A malformed expression (operands or operators that do not alternate, unbalanced or empty brackets, stray commas, wrong number of arguments) is rejected, a well-formed one accepted. It means what its operators, precedences, parentheses, string escapes and constants say, whatever their spelling and spacing; && and || evaluate their right side only when needed; host functions are called once per evaluation, in order, with the values of their arguments, and evaluation resumes with the answer.',
     ['programs', 'inputs', 'schedules'], 'all expression trees, operand values and host answers',
     'The expression tests are a list of fixed formulas without host calls inside operands.',
     ['src/compiler/grammar/expr/parser.rs', 'src/compiler/grammar/expr/tokenizer.rs', 'src/runtime/expression.rs'],
     [('shunting yard', 'ExpressionParser::parse'), ('tokens', 'Tokenizer::next'), ('resumption', 'Context::eval_expression, expr_pos/expr_stack')],
     ['Function events', 'branch taken', 'global variables after let'])
prop('C16', 'set and string constants compute the text their definition gives',
     'A string constant has every valid ${...} replaced by the current value of that variable (names in any case) and everything else kept; set stores the value transformed by its modifiers in the order of their precedence; let stores the value of its expression. A variable keeps its value until the next assignment to it, in every namespace.',
     ['inputs', 'programs'], 'all texts, modifier combinations and sequences of assignments',
     'Tests use single modifiers on fixed texts; combinations, adjacent braces and multi-byte text are a large product.',
     ['src/runtime/actions/action_set.rs', 'src/compiler/grammar/actions/action_set.rs', 'src/compiler/lexer/string.rs', 'src/runtime/eval.rs'],
     [('modifiers', 'Modifier::apply'), ('interpolation', 'CompilerState::tokenize_string'), ('variable store', 'Context::set_variable / eval_value')],
     ['FileInto folder', 'global variables'])
prop('C31', 'Variables live in their block and script, and never leak between them',
     'A name first set in a block belongs to that block from there on (with :local to the script), a name already known is assigned in place, and reading an unknown name gives nothing. The variables of a block are empty each time it is entered. Variables and match variables of an including and an included script never mix.',
     ['programs', 'inputs', 'histories'], 'all nestings of blocks, loops, includes and assignments',
     'Slots are shared between blocks that follow each other, so a wrong slot number or a missed clear shows only for particular nestings and orders.',
     ['src/compiler/grammar/instruction.rs', 'src/compiler/mod.rs', 'src/runtime/context.rs', 'src/runtime/actions/action_include.rs'],
     [('scopes', 'CompilerState::register_local_var, block.match_test_vars'), ('clearing', 'Instruction::Clear'), ('include stack', 'Context::run script_stack')],
     ['FileInto folders in order'])
prop('C30', 'Every argument of every action and test arrives as it was written',
     'The events of an action and the verdict of a test depend on each of their string arguments only through its value: an argument written literally and the same text given through a local, :local, global, environment or match variable, or joined from both, act the same. Every field of an event holds the value of its own argument and tags have the meaning their name says, in any combination and order.',
     ['programs', 'inputs'], 'all actions and tests, all their arguments and tag combinations, all kinds of variables',
     'Tests pass most arguments literally and few tags at a time; a field that is swapped, dropped, or read from a wrong variable slot shows only for that argument and that kind of variable.',
     ['src/compiler/grammar/instruction.rs', 'src/compiler/grammar/actions/action_redirect.rs', 'src/compiler/grammar/actions/action_vacation.rs', 'src/compiler/grammar/actions/action_notify.rs', 'src/compiler/grammar/actions/action_fileinto.rs', 'src/runtime/actions/action_notify.rs', 'src/runtime/actions/action_vacation.rs'],
     [('variable slots', 'MapLocalVars implementations'), ('argument parsers', 'CompilerState::parse_fileinto, parse_redirect, ...'), ('events', 'FileInto::exec, Redirect::exec, Notify::exec, Vacation::exec')],
     ['all events of Context::run'])
prop('C17', 'Source text is read as the language defines: strings, numbers, comments, lines',
     'A quoted or multi-line string denotes the text its escapes and dot-stuffing define, and ends where they say; ${...} references and encoded characters in it are recognised exactly where well-formed and everything else is kept as written; a number has its value times its suffix; comments, line ends, letter case and white space between tokens change nothing; an error names the line of the offending text.',
     ['programs', 'inputs'], 'all texts of tokens, strings, numbers, comments and gaps',
     'Tests are a few script files; where a string ends after backslashes, a dot line, a broken reference or a comment with stars takes particular byte sequences.',
     ['src/compiler/lexer/tokenizer.rs', 'src/compiler/lexer/string.rs', 'src/compiler/lexer/word.rs', 'src/compiler/grammar/instruction.rs'],
     [('tokenizer', 'Tokenizer::next, get_string'), ('strings', 'CompilerState::tokenize_string'), ('positions', 'CompileError::line_num')],
     ['FileInto folder', 'DuplicateId expiry', 'CompileError line', 'sequence of events'])
prop('C05', 'Includes run the named script, nest to the limit, and come back where they were',
     'include runs the script of that name and then goes on after the include, also when it is left by return, at any depth and from within any block or loop of either script; stop ends the whole run. :once runs a script a single time, :optional tolerates a missing one, :global asks for the global one; a script is asked for once and kept. More than max_nested_includes levels is an error, recursion included.',
     ['programs', 'histories', 'faults'], 'all scripts including each other, host answers and limits',
     'Tests include a few fixed scripts; return positions, part stacks and caching depend on how scripts are nested and in which order they were seen.',
     ['src/runtime/actions/action_include.rs', 'src/compiler/grammar/actions/action_include.rs', 'src/runtime/context.rs'],
     [('include', 'Include::exec'), ('script stack', 'Context::run: script_stack, Instruction::Return'), ('cache', 'Context::script_cache')],
     ['IncludeScript events', 'FileInto folders in order', 'RuntimeError::TooManyIncludes'])
prop('C04', 'Every run ends within the instruction limit, which changes nothing below it',
     'Whatever the script does (loops, recursion, includes, conditions), a run executes at most cpu_limit instructions; one that needs more ends with CPULimitReached after a prefix of the events of the unlimited run, and the pending delivery still happens. A run that fits is the same as without limit. Every round of a loop counts.',
     ['programs', 'inputs', 'schedules'], 'all limits, looping and finite scripts, and condition values',
     'The tests contain no endless scripts; a way round the counter needs a particular jump or an include.',
     ['src/runtime/context.rs', 'src/runtime/expression.rs'],
     [('instruction counter', 'Context::run num_instructions'), ('error end', 'Context::finish_loop')],
     ['sequence of Context::run events', 'RuntimeError::CPULimitReached'])
prop('C06', 'Limits on redirections and outgoing messages hold over every sequence of actions',
     'In one run no more than max_redirects messages are redirected and no more than max_out_messages are sent by redirect, vacation and mailto notifications together; a message with max_received_headers Received fields or more is not redirected. An action over a limit sends nothing and leaves the delivery of the message as it was; one below the limits takes place.',
     ['programs', 'histories'], 'all sequences of sending actions, limits, and numbers of Received fields',
     'Tests never exceed a limit; counters are shared between actions and matter only after several of them.',
     ['src/runtime/actions/action_redirect.rs', 'src/runtime/actions/action_vacation.rs', 'src/runtime/actions/action_notify.rs'],
     [('counters', 'Context::num_redirects, num_out_messages'), ('loop protection', 'Redirect::exec max_received_headers')],
     ['SendMessage events', 'Keep event'])
prop('C02', 'No script and no message makes the interpreter panic, overflow or hang',
     'Running any compiled script on any message, with any host answers, ends without a panic, an arithmetic overflow, an index outside a list, or a memory fault: whatever the structure of the message (nested, empty, cut, broken), the edits made to it before, and the values of the arguments.',
     ['inputs', 'programs', 'histories'], 'all messages, edits in sequence, argument values',
     'Tests run well-formed scripts on a few messages; offsets, sizes and part numbers go wrong only for particular combinations of edits and shapes.',
     ['src/runtime/context.rs', 'src/runtime/eval.rs', 'src/runtime/actions/action_mime.rs', 'src/runtime/actions/action_editheader.rs', 'src/runtime/actions/action_vacation.rs', 'src/runtime/actions/action_notify.rs'],
     [('part numbers', 'Replace::exec, Enclose::exec, ForEveryPart'), ('size', 'Context::message_size'), ('slices of the raw message', 'Context::build_message')],
     ['the run ends'])
prop('C19', 'An edited message is exactly the old one with the edits, in every version',
     'addheader, deleteheader, replace, enclose and convert, in any order and number, give a message that is the original with exactly these edits: fields added at their place, exactly the matching occurrences deleted, parts replaced or wrapped, all other bytes kept. Each version is handed over once, before the action that refers to it, and actions, the implicit keep included, refer to the version current at their time. Later tests see the edited message.',
     ['inputs', 'histories', 'programs'], 'all messages and sequences of edits, tests and deliveries',
     'Tests make one or two edits on a fixed message; offsets into the original, occurrence counts and version numbers go wrong only in particular sequences.',
     ['src/runtime/actions/action_editheader.rs', 'src/runtime/actions/action_mime.rs', 'src/runtime/context.rs', 'src/runtime/actions/mod.rs', 'src/runtime/actions/action_fileinto.rs', 'src/runtime/actions/action_keep.rs', 'src/runtime/actions/action_redirect.rs'],
     [('header edits', 'AddHeader::exec, DeleteHeader::exec, Context::insert_header'), ('part edits', 'Replace::exec, Enclose::exec, Convert::exec'), ('assembling', 'Context::build_message'), ('versions', 'Context::build_message_id, main_message_id')],
     ['CreatedMessage events', 'message_id of FileInto, Keep, SendMessage events'])
prop('C33', 'Messages the interpreter writes are well formed whatever text goes into them',
     'The messages made by vacation, mailto notifications, enclose and replace have exactly the header fields their definition gives, each once and on lines of its own, and the body asked for, whatever characters (line breaks included) the script, the URI, the user name or the message replied to put into them. A reply is addressed to the sender, refers to the message and to its references, and an automatic subject is cut only when too long.',
     ['inputs', 'programs'], 'all argument texts, mailto URIs, senders, Message-ID and References fields',
     'Tests use harmless texts; a line break in one of a dozen places, an unterminated or folded field, or a subject of exactly the limit needs that one input.',
     ['src/runtime/actions/action_vacation.rs', 'src/runtime/actions/action_notify.rs', 'src/runtime/actions/action_mime.rs'],
     [('vacation reply', 'Vacation::exec'), ('notification', 'Notify::exec, validate_uri'), ('enclosing message', 'Enclose::exec, Replace::exec')],
     ['CreatedMessage events'])
prop('C07', 'No variable outgrows the size limit; only what exceeds it is cut off',
     'Whatever stores it (set with any modifiers, let, extracttext, a flag action) and wherever (local, global or envelope variable, once or again and again in a loop), a text value is never longer than the configured maximum variable size; a longer value is the longest start of whole characters (or whole escapes) that fits, and a value that fits is unchanged.',
     ['inputs', 'programs'], 'all values, limits and ways to store them',
     'The default limit of 4096 bytes is never reached by test scripts; a path that skips the limit, or a cut inside a character, shows only when a value of the right length meets the limit.',
     ['src/runtime/actions/action_set.rs', 'src/runtime/actions/action_mime.rs', 'src/runtime/actions/action_flags.rs', 'src/runtime/context.rs'],
     [('storing', 'Context::set_variable'), ('modifiers', 'Modifier::apply'), ('extracttext', 'ExtractText::exec')],
     ['values read back in fileinto folders, SetEnvelope events, global variables'])
prop('C22', 'A vacation reply is made exactly when due, asked once, to the right sender',
     'The vacation action asks the host whether the reply is a duplicate exactly when a reply is due: there is a sender that is neither automatic nor the owner, a known address of the owner is among the recipients, no list or automatic-mail field is present, and neither loop nor message limit is exceeded. The question identifies sender and handle (or reason) and carries the period asked for; the reply is sent exactly when the host says it is none, to the envelope sender, from the owner, with subject and references that follow from the message as the script left it.',
     ['inputs', 'programs'], 'all senders, recipients, header fields, known addresses, tags, limits and edits',
     'Tests show single cases; each exclusion has its own branch, several look at texts without case, and they interact with edits, limits and configuration.',
     ['src/runtime/actions/action_vacation.rs', 'src/compiler/grammar/actions/action_vacation.rs'],
     [('when due', 'TestVacation::exec'), ('the reply', 'Vacation::exec'), ('tags', 'CompilerState::parse_vacation')],
     ['DuplicateId, CreatedMessage and SendMessage events'])
prop('C26', 'An extension is usable exactly where required and allowed',
     'A construct of an extension compiles exactly if each extension it belongs to is required by a require before it, in the same block or one around it; the error names a missing one. A run stops with an error at a require of an extension the host does not allow (or does not know), and keeps the message; ihave is true exactly when every extension it names is one the host allows (other than variables and encoded-character, which cannot be asked for), and with it an unknown command is an error only when reached.',
     ['inputs', 'programs'], 'all constructs, extensions, forms and places of require, and allowed sets',
     'Tests require what they use; that each tag checks its own capability, and that a require counts only from where it stands, is visible only in the programs that leave one out.',
     ['src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs', 'src/compiler/grammar/mod.rs', 'src/compiler/grammar/actions/action_require.rs', 'src/runtime/mod.rs'],
     [('compile-time check', 'CompilerState::validate_argument, has_capability'), ('ihave', 'CompilerState::parse_test_ihave'), ('at run time', 'Context::run (Require), Runtime::allowed_capabilities')],
     ['compile results', 'run-time errors', 'events'])
prop('C32', 'Message, envelope and environment variables give the value they name',
     'A header variable with names, indexes (from the front, the back, all) and a part (text, raw, address parts, dates, ids, Content-Type and Received parts) gives exactly that part of exactly those fields of the message as edited so far, in the current part inside a loop; body, part, envelope and environment variables give theirs; what does not exist is empty, and nothing panics.',
     ['inputs', 'programs'], 'all messages, indexes, parts and edits within the bounds',
     'Tests name a few variables on one message; positions from the back, several names, list-valued fields and added fields each select differently.',
     ['src/runtime/eval.rs', 'src/compiler/lexer/string.rs'],
     [('header variables', 'Context::eval_header, HeaderVariable::eval_part'), ('parsing the name', 'CompilerState::parse_header_variable, parse_variable'), ('others', 'Context::variable')],
     ['values read back in fileinto folders'])
prop('C34', 'A script\'s change of the envelope is announced to the host once, in order',
     'set, let, the flag actions and extracttext on an envelope variable change the value that later statements (of this and of included scripts) see, and hand the host one SetEnvelope event with that part and value, in the order of the statements and between the events of the actions around them, whatever block they stand in and however the script then ends.',
     ['programs', 'histories'], 'all sequences of statements within the bounds',
     'One test sets one part with one statement; a statement whose event is queued but not handed over loses it only when another follows.',
     ['src/runtime/context.rs', 'src/runtime/actions/action_set.rs', 'src/runtime/actions/action_flags.rs', 'src/runtime/actions/action_mime.rs'],
     [('queueing', 'Context::add_set_envelope_event'), ('handing over', 'Context::run (Set, Let, EditFlags, ExtractText)')],
     ['SetEnvelope events', 'order of events'])
prop('C03', 'A script is rejected exactly when it exceeds a compile limit',
     'The compiler rejects a script that is longer than the script limit, has a string, variable name or header name that is too long, blocks, tests or foreverypart loops nested too deep, too many match or local variables or includes, and the error names that limit; a script at the limit is accepted.',
     ['inputs', 'programs'], 'all limits and scripts at, below and above them',
     'Tests stay far below every limit; a limit off by one, counted over the wrong blocks, or not checked in one of the places that nest shows only in scripts at exactly that depth in that mixture.',
     ['src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs', 'src/compiler/grammar/mod.rs', 'src/compiler/lexer/tokenizer.rs', 'src/compiler/mod.rs'],
     [('nesting', 'Compiler::compile (block_stack), CompilerState::parse_test'), ('strings and names', 'Tokenizer::get_token, CompilerState::tokenize_string, register_variable')],
     ['compile results'])
prop('C20', 'Ill-formed scripts are rejected, well-formed ones accepted',
     'A script with a misplaced command, block, separator or bracket, an elsif or else without its if, a break outside its loop, an unknown or repeated label, a missing, surplus, repeated or conflicting argument or tag, or an argument of another kind is rejected; every combination the grammar allows is accepted, names and tags in any case and order. Where ihave is required, unknown commands and tests are skipped with everything in them and fail only when reached.',
     ['inputs', 'programs'], 'all token sequences and argument combinations',
     'Tests show some dozens of malformed scripts; whether each tag of each command is checked, and every token in every state, needs all combinations.',
     ['src/compiler/grammar/instruction.rs', 'src/compiler/grammar/test.rs', 'src/compiler/grammar/mod.rs', 'src/compiler/lexer/tokenizer.rs'],
     [('commands and blocks', 'Compiler::compile'), ('tests', 'CompilerState::parse_test'), ('arguments', 'CompilerState::validate_argument and the parse functions of the actions and tests'), ('unknown', 'CompilerState::ignore_command, ignore_test')],
     ['compile results', 'deliveries'])
prop('C23', 'A notification is sent exactly when due, as its method and arguments say',
     'notify sends nothing for automatic mail or a malformed method. A well-formed mailto method is sent, within the message limit, once to each address it names, with the fields, subject and body it asks for and exactly one of each field of a notification; the sender asked for is used only if it is the user. Other methods (and mail over the limit) are given to the host with all arguments. Constant methods and senders are checked when compiled; valid_notify_method and notify_method_capability hold exactly for well-formed methods the host supports.',
     ['inputs', 'programs'], 'all methods, arguments, messages, limits and hosts',
     'Tests use a dozen well-formed URIs; the parser is a state machine of its own, in which each separator, escape and parameter counts in every state.',
     ['src/runtime/actions/action_notify.rs', 'src/compiler/grammar/actions/action_notify.rs'],
     [('the method', 'parse_mailto, parse_uri, validate_uri'), ('the message', 'Notify::exec'), ('the sender', 'validate_from')],
     ['CreatedMessage, SendMessage, Notify, FileInto events', 'compile results'])
prop('C24', 'replace, enclose, convert and extracttext change their part and nothing else',
     'Any sequence of replace, enclose, convert and header edits on the whole message or on parts visited by (nested) foreverypart loops gives the message in which exactly those parts have the content and fields asked for, and every other byte is that of the original; extracttext, body, size, header and exists tests and the loops that follow see that message, as does every delivery made from then on, and deliveries made before keep theirs.',
     ['inputs', 'programs', 'histories'], 'all sequences of operations on all parts of the messages within the bounds',
     'Tests apply one operation to one part of one message; part numbers, offsets and boundaries shift only when operations meet in one message.',
     ['src/runtime/actions/action_mime.rs', 'src/runtime/actions/action_editheader.rs', 'src/runtime/context.rs', 'src/runtime/eval.rs'],
     [('operations', 'Replace::exec, Enclose::exec, Convert::exec, ExtractText::exec'), ('the message written', 'Context::build_message, build_message_id'), ('loops', 'Context::run (ForEveryPart*), find_nested_parts_ids')],
     ['CreatedMessage events', 'message ids of deliveries', 'folders named after values read'])
prop('C35', 'Every setting of the host interface has its effect and no other',
     'Each setting of the runtime and of a run (limits, addresses, names, lists, environment, protected fields, capabilities, time), in each form in which it can be given and in any order with any other, decides what it is for and nothing else; a message handed over parsed runs as its bytes do; the envelope is what the last calls made it, and after the run the names of the globals, the change of the message and the message returned are those of the run.',
     ['inputs', 'programs'], 'all pairs of settings, forms, and messages within the bounds',
     'Tests use the few settings they need, each in one form; a setter that writes the neighbouring field, or replaces where it should add, is never noticed.',
     ['src/runtime/mod.rs', 'src/runtime/context.rs', 'src/lib.rs'],
     [('runtime settings', 'Runtime::set_*/with_*/without_*'), ('run settings', 'Context::set_*/with_*'), ('results', 'Context::global_variable_names, has_message_changed, take_message')],
     ['events and values read by probing scripts', 'accessors of Context'])
prop('C36', 'date and currentdate give each part of the moment, in the zone asked for',
     'currentdate looks at the host time and date at the date of the selected fields (Date, another one, one added by the script), in UTC, in the zone named or in that of the field; each part (year, month, day, date, julian, hour, minute, second, time, weekday, iso8601, std11, zone) has the value the calendar gives it, and a zone is accepted exactly if it is well formed and exists.',
     ['inputs', 'programs'], 'all parts, zones and fields at the moments chosen',
     'Tests compare a few parts of one date; ends of months and years, zones that change the day, and fields from the back need that one moment.',
     ['src/compiler/grammar/tests/test_date.rs', 'src/runtime/tests/test_date.rs', 'src/runtime/context.rs', 'src/runtime/variables.rs'],
     [('parts', 'DatePart::eval'), ('selection', 'TestDate::exec, Context::find_headers'), ('zones', 'CompilerState::parse_timezone')],
     ['deliveries'])
prop('C21', 'redirect sends to exactly the address its argument spells, or to nobody',
     'redirect with a well-formed address (words or a quoted string at a domain with a dot, bare or in angle brackets after any name, white space around) sends one message to exactly that address; without one (no or two @, open quotes, control characters, text after the address) it sends nothing and the message is kept, as it is when the address is the owner\'s in any case. redirect :list hands over any list name unchanged.',
     ['inputs'], 'all addresses and names within the bounds',
     'Tests redirect to plain addresses; quotes, escapes, brackets in names and line breaks decide where someone\'s mail goes.',
     ['src/runtime/actions/action_redirect.rs'],
     [('reading the address', 'sanitize_address'), ('sending', 'Redirect::exec')],
     ['SendMessage and Keep events'])
prop('C37', 'A compiled script stored and read back is, and runs as, the one compiled',
     'A compiled script written with rkyv or serde and read back equals the script compiled, and run on the same message with the same host it produces the same events, texts and errors: nothing in it (arguments, flags, numbers, variable names and slots, jump targets, patterns, header variables) is lost, defaulted or changed by storage.',
     ['inputs', 'programs'], 'all scripts within the bounds, both storage forms',
     'No test stores and reads back a script; a field left out, converted or rebuilt differently shows only for a script that uses it, after a restart of the host.',
     ['src/lib.rs', 'src/compiler/mod.rs', 'src/compiler/grammar/instruction.rs', 'src/compiler/grammar/expr/mod.rs', 'src/compiler/grammar/actions', 'src/runtime/mod.rs'],
     [('storage of instructions', 'serde and rkyv implementations of Sieve, Instruction and what they contain'), ('values', 'Value, Number, Regex, VariableType, HeaderVariable'), ('patterns built again on use', 'Regex, LazyRegex')],
     ['equality of scripts', 'Context::run events until None'])
