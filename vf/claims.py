CLAIMS = {
 'C01': dict(note='eval2 and its helpers proved against the C value for every operator, operand type and value, sub-expressions abstracted by the eval2 contract; parser+typing+folding proved value-exact for every adjacent operator pair and operand-type pair on concrete token shapes.'),
 'C13': dict(note='every HashMap operation proved against the finite-map contract on an arbitrary well-formed table of symbolic capacity (probe, count, resize and copy loops by loop invariants); key comparison and hash by contract, themselves checked for short keys (bounded).'),
 'C14': dict(note='allocate/arena_on/ast_arena_*/strarray_push proved for every arena and array state; the zero-fill loop is checked with page size 128 and arena_off with at most 3 pages (bounded).'),
 'C02': dict(note='convert_pp_int (with is_int_suffix / digit loops cut by invariants) proved for every spelling against the C23 6.4.4.1 type table and value.'),
 'C03': dict(note='string/char literal readers, UTF-8/16/32 encoders and escapes proved per step by loop cuts for text of any length; joining of adjacent literals of mixed prefixes is checked for short literals (bounded).'),
 'C04': dict(note='one tokenizer step, whitespace/comment skipping and the punctuator table proved for every text; identifier and pp-number scanning with spellings up to 6 bytes (bounded); the XID tables compared with Annex D exactly for all code points.'),
 'C16': dict(note='line-splice and newline loops proved by loop cut for files of any length; line numbering of a short file (bounded).'),
 'C06': dict(note='gen_cast, gen_bool_opt and every load/skip-cast path: for all 100 pairs of integer/pointer/bool types, with and without the optimiser, the instructions the real code prints are executed on a symbolic x86-64 machine and must leave the converted value for every operand value; chains of casts elided by new_cast/is_redundant_cast keep the C value.'),
 'C10': dict(note='gen_expr2/gen_expr_opt and the arithmetic, comparison, shift, division and logical helpers: the instructions the real code prints are executed on a symbolic x86-64 machine with sub-expressions abstracted by the gen_expr contract; every operator x operand-shape x type unit is proved for all operand values, offsets, immediates and temporary-stack states. Multiplication and division are uninterpreted outside constants with closed forms.'),
 'C19': dict(note='push/pop of temporaries against the slot discipline: every saved register or spill slot is shown untouched between push and pop for an arbitrary sub-expression (which may use any registers it accounts for, including calls), and each function keeps the part of the gen_expr contract its callers rely on.'),
 'C11': dict(note='bit-field loads, stores, compound assignments and ++/-- through gen_expr2/gen_void_expr: the printed instructions are executed on the symbolic machine over an object with neighbours; the field gets the C value and every other byte and bit of the object is unchanged, for all field offsets, widths listed and values. Fields straddling their storage unit (packed) are a known finding.'),
 'C20': dict(note='pointer + - integers, pointer differences, subscripts, ++/-- and compound assignment through the real parser for every element size and index type and value, rows of variable length included; dereference, address-of, member access and pointer-plus-constant addressing: the optimised and plain code read and write exactly the byte address the expression designates, for all pointers, offsets and constants; address arithmetic hidden under narrower integer casts keeps its truncation.'),
 'C05': dict(note='every operator (binary, unary, logical, conditional, assignment, compound assignment, ++/--, atomic forms) parsed and typed by the real parser over arbitrary operands: result type, operand conversions, evaluation counts and the value of the typed tree follow C11 6.3.1 for every operand type and bit-field width; is_compatible proved equal to the structural rules (function types: at most 3 parameters, bounded) and symmetric.'),
 'C07': dict(note='struct_decl and union_decl under the System V / GCC layout rules stated independently: from every running position (an object of any size and any bit-field before), each kind of next member (bit-fields of every storage unit and width, objects, aligned attributes, packed) is placed, and the size and alignment of the aggregate come out, as the ABI prescribes. Kinds and attributes are enumerated, sizes and widths symbolic. aligned(n) smaller than the type on a struct member of a packed struct is a known finding.'),
 'C09': dict(note='assign_lvar_offsets and get_lvar_align proved by induction over the scope tree (nested scopes by their contract): locals of a live scope chain occupy disjoint, aligned intervals inside the reported frame, for arbitrary sizes and frame positions. The prologue that reserves the frame is not under contract; spill slots are C19.'),
 'C17': dict(level='model_checking', note='escape_string, quote_makefile, join_tokens, stringize, __FILE__ and __BASE_FILE__: the quoted text is read back by an independent reader of the target (C string literal, GNU make) and must be the original; exhaustive for every text up to 5 bytes (names), two tokens of up to 3 bytes (joining). All units are bounded.'),
 'C18': dict(note='case dispatch of gen_stmt proved for any list of labels by a loop cut and executed on the symbolic machine for every controlling value; promotion of the controlling expression proved per type. Recording of labels by label_stmt (conversion, duplicate detection, range merging) is checked for at most two recorded ranges and three labels on one statement (bounded).'),
}
NA = {
 'C08': 'classification of arguments is a recursion over arbitrary aggregate types feeding the call and prologue code of gen_expr for any parameter list; the contract of one parameter needs the whole register/stack assignment of the list as ghost state, and the caller and callee code moves aggregates by byte loops over that state: not brought within reach of the verifier here',
 'C12': 'initializers are built by a recursive-descent parser over brace nesting and designators and written by a writer recursing over the same tree with relocations; a contract needs the image of an arbitrary initializer tree as an inductive predicate, which CBMC contracts cannot state (no recursive predicates over the heap); the scalar conversions it uses are C01 and C06',
 'C15': 'the value arithmetic of #if is decided under C01, C02 and C03; which groups are skipped depends on a token stream of unbounded length through skip_cond_incl, expand_macro and a stack of directives, whose contract needs the whole stream as ghost state. One defect of #if arithmetic found on the way is described in DESIGN.md',
 'C21': 'the standard describes rescanning by the history of hidden names over the whole remaining stream; neither a function contract on subst/expand_macro nor CBMC can quantify over arbitrary macro definitions and streams, and the prescribed result is itself partly unspecified (6.10.5.4)',
 'C22': 'folding goes through long double (x87 80-bit) arithmetic, strtold and ldexpl, and generated code through x87 and SSE instructions: CBMC has no x87 model and its IEEE solver does not decide 80-bit multiplication and division',
 'C23': 'whole-program statement over every accepted C program and the linked executable: not a postcondition of any function; its parts are C01-C20',
 'C24': 'a statement about processes, files and signals (fork, exec, wait, unlink, temporary files): the deciding behaviour is the operating system, which a contract could only assume',
 'C25': 'memory safety and termination of the entire compiler on arbitrary bytes: needs heap contracts for every function of the parser with recursive token and node lists, beyond CBMC contracts; the loops of the tokenizer and hashmap are covered in C04, C13 and C16',
 'C26': 'cleanup and defer actions run through the control-flow graph of arbitrary statement trees (goto, switch, loops), recorded in linked scope chains of unbounded depth; the contract needs paths through the tree as ghost state, which is not expressible on the functions that emit it',
}
