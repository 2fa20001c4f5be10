#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
MS="src/macro_set/mod.rs"
p("E01","Macro expansion follows the C preprocessor's replacement rules",
  "Expanding a token sequence against a set of object-like and function-like macros yields exactly the tokens the C standard's macro replacement prescribes: arguments are collected across nested parentheses and split at top-level commas, fully expanded before substitution, and the result is rescanned together with the rest of the sequence. A function-like macro name not followed by `(` stays as it is, and replacement text is never re-examined as an invocation with tokens that preceded or followed it in a way C would not allow. (Where the standard leaves nested replacement unspecified, either reading is fine.)",
  ["programs","inputs"],"every set of macro definitions and every token sequence over their names, plain identifiers, literals, operators and brackets",
  "The unit tests replay a dozen hand-written examples (mostly the standard's); the guarantee is over all definition graphs, call nestings and call sites that span the end of a replacement list.",
  [MS],[("expand_macro_body",MS),("expand_fn_macro_body",MS),("expand_arguments",MS),("collect_args",MS)],["MacroSet::expand","MacroSet::expand_var_macro"])
p("E02","Recursive macros terminate and are not replaced again",
  "Expansion terminates without crashing for every definition graph, including self-referential and mutually recursive object-like and function-like macros. A macro name met while that macro is being replaced is left as a plain identifier and is never replaced later, even when it is passed on as an argument or rescanned, while uses outside its own replacement are still expanded.",
  ["programs"],"every definition graph, cyclic ones included, and every starting macro or expression",
  "One test has a two-macro cycle; termination and the no-replacement rule are statements about all cycles of any length and every route (body, argument, rescan) by which a name can come back.",
  [MS],[("non_replaced_names / NonReplacable",MS)],["MacroSet::expand","MacroSet::expand_var_macro","MacroSet::expand_fn_macro"])
p("E03","# turns an argument's unexpanded spelling into one string literal",
  "When a function-like macro whose body applies `#` to a parameter is invoked, the result is a single string literal spelling the unexpanded argument tokens in order, `\"\"` for an empty argument, and comma-separated for `__VA_ARGS__`. String and character literals inside the argument are escaped so that the produced literal, read back as a C string, gives the argument's spelling, and the literal takes part in later concatenation and stringification like one written by hand.",
  ["inputs","programs"],"every argument token sequence, through direct and forwarded (expand-then-stringify) invocations",
  "Tests stringify about ten fixed arguments; the spelling rule is per token and per neighbouring pair of tokens.",
  [MS],[("stringify",MS),("Token::stringify",MS)],["MacroSet::expand"])
p("E04","## pastes exactly its two neighbouring tokens",
  "`##` between two tokens of a replacement list yields the one token spelled by joining them, an argument next to `##` is used unexpanded, an empty argument contributes nothing, and chains associate left to right. The pasted token is itself subject to replacement on rescan, and a paste that does not form a token is reported as an error.",
  ["inputs","programs"],"every pair or chain of identifiers, numbers, punctuators, literals and arguments joined by `##`, with and without comments around it",
  "Tests cover one example per token class pair; the rule is over all pairs, chains, empty operands and rescans of the result.",
  [MS,"src/ast/punctuation.rs"],[("expand_concat",MS),("Token::concat",MS),("Punctuation::concat","src/ast/punctuation.rs")],["MacroSet::expand"])
p("E05","Variadic macros receive their trailing arguments in order",
  "In a variadic function-like macro `__VA_ARGS__` stands for all arguments after the named ones, in order and separated by commas, whatever their number, and each named parameter gets exactly its own argument. Forwarding `__VA_ARGS__` to another macro splits it into separate arguments again.",
  ["inputs","programs"],"every number of named parameters and of arguments, including none, and every use or forwarding of __VA_ARGS__",
  "Tests use at most one named parameter and three arguments and never forward __VA_ARGS__ to a macro with named parameters.",
  [MS],[("expand_arguments (VarArgs)",MS)],["MacroSet::expand","MacroSet::expand_fn_macro"])
p("E06","Expanding a macro as a template agrees with invoking it",
  "The parameter list and body obtained by expanding a function-like macro on its own form a template: replacing each parameter position in the body by the corresponding argument's tokens gives the same tokens as expanding an invocation with those arguments, for arguments that are not themselves macros; a body whose result depends on spelling an operator that is not resolved yet is refused instead. Every parameter position refers to the right parameter of the returned list, also through nested macros and with comments in the parameter list.",
  ["programs","inputs"],"every function-like macro (nested to any depth) and every argument list of inert tokens",
  "No test relates the two entry points; the agreement is a relation over all macros and arguments.",
  [MS],[("expand_fn_macro",MS),("tokenize / detokenize",MS)],["MacroSet::expand_fn_macro","MacroSet::expand"])
p("E07","Definitions behave like a C macro table over any history",
  "After any sequence of define and undefine operations, each name has at most one current definition, the last one, whichever kind it is; undefining removes only the given kind and reports whether it did; an undefined name expands to an error and is left alone inside other expansions. Defining reports a redefinition exactly when a current definition existed whose kind, parameters or replacement list differ apart from whitespace and comments.",
  ["histories"],"every sequence of define/undefine/expand operations over a shared pool of names, bodies and parameter lists",
  "The tests redefine four macros once each; the guarantee is over histories.",
  [MS],[("define_var_macro / define_fn_macro",MS),("undefine_var_macro / undefine_fn_macro",MS)],["MacroSet::define_var_macro","MacroSet::define_fn_macro","MacroSet::undefine_var_macro","MacroSet::undefine_fn_macro"])
p("E08","Malformed macros are rejected with the documented error",
  "Expanding a macro reports a leading or trailing `##`, a wrong number of arguments (with the macro's name, required and given counts), a duplicate parameter, a parameter that is not an identifier, `__VA_ARGS__` outside a variadic macro, `#` not followed by a parameter in an invoked macro, an invalid token, or an unknown macro through the matching error. Well-formed macros never produce an error.",
  ["programs","inputs"],"every macro with one such defect injected into an otherwise well-formed definition or call, and every macro without one",
  "Each error has at most one or two example tests; that no well-formed macro is refused has none.",
  [MS],[("ExpansionError",MS),("tokenize_arg_names",MS)],["MacroSet::expand_var_macro","MacroSet::expand_fn_macro","MacroSet::expand"])
p("E09","Expansion is total, deterministic and leaves the set unchanged",
  "For arbitrary definitions and token text, however malformed, expansion returns a value or an error and never panics, overflows the stack or loops. The result depends only on the current definitions: not on the order they were made, on repetition, on cloning the set, or on earlier expansions.",
  ["inputs","programs","histories"],"arbitrary (also ill-formed) definitions, parameter lists and token text",
  "Tests only feed well-formed or single-defect input and call each expansion once.",
  [MS],[("MacroSet",MS),("Token::concat",MS)],["MacroSet::expand","MacroSet::expand_var_macro","MacroSet::expand_fn_macro"])
p("E10","Comments are whitespace to macro expansion",
  "Inserting comments anywhere in replacement lists, parameter lists, arguments or between a function-like macro's name and its argument list does not change the expansion apart from comment tokens that may be kept in the output.",
  ["programs","inputs"],"every well-formed macro set and expression, and every placement of comments in it",
  "Tests put comments only around `##` and in one parameter list.",
  [MS],[("until_no_whitespace",MS),("is_whitespace",MS)],["MacroSet::expand"])
L="src/ast/literal/"
p("L01","Integer literals denote their C value and suffix",
  "Every C integer literal (decimal, octal, hexadecimal, binary; any legal suffix in any case and order) is accepted with its exact mathematical value and the type its suffix names, and generating code for it yields that value. Text that is not an integer literal is not accepted as one.",
  ["inputs"],"every value below 2^127, base, digit case, and suffix spelling, and near-miss spellings",
  "Tests check a few values per base and suffix.",
  [L+"int.rs"],[("LitInt::parse_str",L+"int.rs"),("LitInt::to_tokens",L+"int.rs")],["Lit::try_from","VarMacro::generate"])
p("L02","Floating literals denote their C value and precision",
  "Every decimal C floating literal is accepted with the nearest value of the type its suffix names (float for f/F, double without, long double for l/L), and the generated constant evaluates to exactly that value, infinities included.",
  ["inputs"],"every mantissa/exponent form with optional parts, signs, and suffixes, and near-miss spellings",
  "Tests check about ten spellings.",
  [L+"float.rs"],[("LitFloat::parse_str",L+"float.rs"),("LitFloat::to_tokens",L+"float.rs")],["Lit::try_from","VarMacro::generate"])
p("L03","Character literals denote their C code and type",
  "Every C character literal, plain or prefixed with u8, u, U or L, with plain characters and simple, octal, hexadecimal and universal escapes, is accepted with the code and the character type C gives it, and generated code is a constant of that code with the matching Rust type. Empty, over-long or badly escaped character literals are not accepted.",
  ["inputs"],"every prefix, character and escape, and malformed variants",
  "Tests cover some escapes for some prefixes.",
  [L+"char.rs","src/ast/literal.rs"],[("LitChar::parse_str",L+"char.rs"),("escaped_char","src/ast/literal.rs")],["Lit::try_from","VarMacro::generate"])
p("L04","String literals denote their C contents, also when juxtaposed",
  "Every C string literal with any prefix (with u8, u and U: whose contents are Unicode text) decodes to exactly the code units C gives it (bytes, UTF-8, UTF-16, UTF-32 or wide), for plain characters and all escapes, and adjacent literals join to the concatenation of their contents with the common prefix. Badly escaped or unterminated strings are not accepted.",
  ["inputs"],"every sequence of characters and escapes per prefix, and every run of adjacent literals with compatible prefixes",
  "Tests check single examples of each form.",
  [L+"string.rs","src/ast/literal.rs"],[("LitString::parse_str",L+"string.rs"),("LitString::parse",L+"string.rs")],["Lit::try_from","Lit::parse"])
p("L05","Each preprocessing token is classified as what it is",
  "Token text is recognised as identifier, literal, punctuator, block comment or identifier continuation exactly when C spells it so: identifiers start with a letter, `_` or a universal character and continue with letters, digits and combining characters, all C punctuators are recognised and nothing else is, and a token's text survives expansion unchanged. Text that is none of these is reported as an invalid token.",
  ["inputs"],"all Unicode identifier text, universal character names, punctuators, comments, and near misses",
  "Tests check a handful of each.",
  ["src/ast/identifier.rs","src/ast/punctuation.rs","src/ast/comment.rs",MS],[("Identifier::parse_str","src/ast/identifier.rs"),("PUNCTUATION","src/ast/punctuation.rs"),("Token::from_str",MS)],["Identifier::try_from","Punctuation::try_from","Comment::try_from","MacroSet::expand"])
X="src/ast/expr.rs"
p("C01","Constant integer macros fold to the value C computes",
  "A variable-like macro built only from integer literals with unary + - ! ~ and binary * / % + - << >> & ^ | generates exactly the value the C expression has, whenever C defines it and no unsigned arithmetic in it wraps around (where the constant has no reported type, it is taken at the type of the C expression). Folding a division or remainder by zero, an oversized shift, or an overflow never panics.",
  ["inputs","programs"],"every constant integer expression tree, with and without redundant parentheses",
  "Tests fold a few fixed expressions.",
  [X,L+"int.rs"],[("Expr::finish (Binary, Unary)",X),("impl ops for LitInt",L+"int.rs")],["VarMacro::generate"])
p("C02","Constant floating macros fold to the value C computes",
  "A variable-like macro over floating literals (and mixed integer literals) with + - * / and unary + - ! generates the value of the C expression, each operation being evaluated in float when both operands are float or one is float and the other an integer and in double otherwise (long double counts as double), and its reported type is f32 or f64 accordingly.",
  ["inputs","programs"],"every constant floating expression tree with finite intermediate values",
  "Tests fold single operations.",
  [X,L+"float.rs","src/ast/binary_expr.rs"],[("Expr::finish (Binary)",X),("impl ops for LitFloat",L+"float.rs"),("mixed float/int","src/ast/binary_expr.rs")],["VarMacro::generate"])
p("C03","Generated expressions keep the C expression's meaning",
  "For every macro body that is an expression over variables or parameters, literals, unary, binary, conditional, call, index and member operators, the generated Rust expression evaluates to the value of the C expression for every valuation: precedence, associativity and grouping are preserved, operands keep their order, and each parameter lands where the C parameter was. Redundant parentheses in the C text do not change the meaning of the output.",
  ["programs","inputs"],"every expression tree printed with minimal or redundant parentheses, every valuation of its variables where C defines the result",
  "Tests compare the text of a couple of dozen fixed expressions.",
  [X,"src/ast/binary_expr.rs","src/ast/unary_expr.rs","src/ast/ternary_expr.rs"],[("parse_term_prec*",X),("BinaryExpr::to_token_stream","src/ast/binary_expr.rs"),("precedence",X)],["FnMacro::generate","VarMacro::generate"])
p("C04","Function-like macros become functions exactly when fully typed",
  "A function-like macro is generated as one `unsafe extern \"C\"` function with its parameters in order and their known types and the inferred return type exactly when every parameter type is known, the result type can be inferred and nothing in the body needs a macro (names other than parameters and known enum variants, calls of unknown functions, member access, stringification or pasting of parameters, modifying a parameter or taking its address, jumps out of the macro, variadic arguments, or an existing function of that name). Otherwise it is one exported macro taking the same parameters in order, re-exported under the macro's name.",
  ["programs","configurations"],"every parameter list, body, and assignment of known types to parameters, functions and names",
  "Tests cover a few bodies with one context.",
  ["src/fn_macro.rs","src/context.rs"],[("FnMacro::generate","src/fn_macro.rs"),("export_as_macro","src/context.rs")],["FnMacro::generate"])
p("C05","String constants are NUL-terminated and hold the exact contents",
  "A variable-like macro that is a string literal (or run of literals) generates a constant whose contents are exactly the string's code units followed by one terminating NUL. Its type is a C-string reference when the string has no prefix, the target Rust version supports it (1.59 or later, or unknown) and it has no interior NUL, otherwise a byte or integer array reference of length contents+1, with an explicit 'static lifetime only for targets that need it (before 1.17). A string converted to a pointer points to the same contents.",
  ["inputs","configurations"],"every string literal of every prefix and every Rust target version and prefix configuration",
  "Tests check a few strings against the default configuration.",
  [L+"string.rs","src/var_macro.rs"],[("LitString::to_token_stream",L+"string.rs"),("VarMacro::generate","src/var_macro.rs")],["VarMacro::generate"])
p("C06","C types map to the matching Rust type however they are spelled",
  "Every spelling of a C scalar type (any legal order of signed, unsigned, short, long, int, char, float, double, with qualifiers anywhere) in a cast, declaration or sizeof maps to the one corresponding Rust FFI type, pointers map to `*const` or `*mut` according to their pointee's qualifiers at every level, and named, struct and resolved types keep their name. Illegal combinations are not accepted as types.",
  ["inputs","configurations"],"every permutation of specifiers and qualifiers, every pointer depth, and every type-resolution and prefix configuration",
  "Tests enumerate a few dozen spellings without qualifiers or prefixes.",
  ["src/ast/ty.rs"],[("Type::parse","src/ast/ty.rs"),("BuiltInType::to_tokens","src/ast/ty.rs")],["VarMacro::generate","FnMacro::generate"])
p("C07","Casts of constants keep the C value",
  "Casting an integer, floating or character constant expression to an integer or floating type generates a constant expression that Rust evaluates to the value C gives the cast, including truncation, sign change and widening, and whose reported type is the cast's type. Operators may surround the casts where their operands have one common type. A cast of zero to a pointer type is the null pointer of matching mutability, and a cast to void discards its operand.",
  ["inputs","programs"],"every literal value, every chain of casts and every surrounding operator",
  "Tests cast a few values.",
  ["src/ast/cast.rs",X],[("Cast::to_tokens","src/ast/cast.rs"),("Cast ambiguity resolution",X)],["VarMacro::generate"])
p("C08","Configured path prefixes are applied to every generated item",
  "With an FFI prefix and a core/std prefix configured, every FFI type in the output is reached through the FFI prefix and every core item and macro through the other; apart from those prefixes the output is the same as without, and no other identifier is prefixed. Names supplied by the user or resolved by the context are emitted verbatim.",
  ["configurations","programs"],"every supported macro and every combination of the two prefixes",
  "Unit tests run without prefixes.",
  ["src/context.rs","src/codegen/mod.rs","src/ast/ty.rs"],[("ffi_prefix / trait_prefix","src/context.rs")],["VarMacro::generate","FnMacro::generate"])
p("C09","Only constants are generated as constants",
  "A variable-like macro whose body is not a constant expression (it uses an undefined name, calls a function, dereferences a pointer, assigns, depends on the expansion site, or is a statement or empty) is refused with an error instead of being generated as a constant; one built from literals, casts to known types, sizeof and context-known enum variants is generated.",
  ["programs","configurations"],"every constant expression with and without one non-constant ingredient at any depth",
  "Tests check single-token bodies.",
  ["src/var_macro.rs","src/ast/var.rs","src/ast/function_call.rs","src/ast/unary_expr.rs"],[("VarMacro::generate","src/var_macro.rs"),("is_variable_macro","src/context.rs")],["VarMacro::generate"])
p("C10","Generated statements do what the C statements do",
  "For a macro body of statements (declarations, assignments of every kind, increments, if/else, do-while, break, continue, blocks and calls) the generated Rust performs the same reads, writes and calls in the same order as C and leaves every variable with the same value, for every initial valuation.",
  ["programs","inputs"],"every statement tree over a pool of variables and every valuation for which C defines the run",
  "Tests compare the text of a few statements.",
  ["src/ast/statement.rs","src/ast/var_decl.rs","src/ast/binary_expr.rs"],[("Statement::to_tokens","src/ast/statement.rs"),("assignment blocks","src/ast/binary_expr.rs")],["FnMacro::generate"])
p("C11","Accepted macros always generate well-formed Rust",
  "Whenever generation succeeds, the output parses as Rust: a constant macro gives one expression and, if reported, one type; a function-like macro gives one function item or one macro definition plus its re-export, whose parameters are exactly the macro's and whose body refers to no undeclared macro parameter and parses once arguments are substituted.",
  ["programs","configurations"],"every macro for which parsing and generation succeed, from grammar-derived and random token sequences, under every context",
  "Tests parse the output of a few dozen fixed inputs.",
  ["src/fn_macro.rs","src/var_macro.rs",X],[("to_tokens implementations","src/ast")],["FnMacro::generate","VarMacro::generate"])
p("C12","Parsing and generation never panic",
  "For every token sequence, parameter list, name and context, parsing and generating a macro return a value or an error and never panic, overflow the stack or loop; macro names that are not identifiers, parameter lists that are not identifiers followed by at most one trailing `...`, and bodies that are not a whole expression or statement sequence are refused.",
  ["inputs","programs","configurations"],"arbitrary token sequences (including ill-formed ones), names, parameter lists and contexts",
  "Tests feed well-formed macros.",
  ["src/macro_body.rs","src/fn_macro.rs","src/var_macro.rs","src/ast"],[("MacroBody::parse","src/macro_body.rs"),("FnMacro::parse_args","src/fn_macro.rs")],["FnMacro::parse","VarMacro::parse","FnMacro::generate","VarMacro::generate"])
p("C13","Comments do not change the generated code",
  "Inserting comments between any two tokens of a macro body, before it or after it, changes neither whether the macro is accepted nor what is generated for it.",
  ["programs","inputs"],"every accepted macro body and every placement of comments",
  "Tests place comments in a handful of positions.",
  ["src/ast/tokens.rs","src/macro_body.rs"],[("meta","src/ast/tokens.rs")],["FnMacro::generate","VarMacro::generate"])
p("C14","Names known to the context are resolved consistently",
  "An identifier the context knows as an enum variant is replaced by the variant's Rust expression and has its type; the type of a call to a known function is its return type and untyped parameters passed to it take its parameter types; a field access on a known type has the field's type; a known type name used in a cast or declaration is recognised as a type. Unknown identifiers are emitted verbatim.",
  ["programs","configurations"],"every macro body over known and unknown names and every context table",
  "Tests exercise one or two names with a fixed context.",
  ["src/ast/var.rs","src/ast/function_call.rs","src/context.rs","src/ast/binary_expr.rs"],[("Var::finish","src/ast/var.rs"),("FunctionCall::finish","src/ast/function_call.rs")],["FnMacro::generate","VarMacro::generate"])
p("C15","Volatile accesses stay volatile and happen exactly once",
  "Reading through a pointer cast to a volatile-qualified type generates exactly one volatile read, and assigning, compound-assigning, incrementing or decrementing through it generates exactly the C sequence of volatile reads and writes at the same address with the C value, the whole expression having the C value. Non-volatile accesses are not made volatile.",
  ["programs","inputs"],"every volatile access form, operator, operand and surrounding expression",
  "Tests cover plain assignment and read.",
  ["src/ast/binary_expr.rs","src/ast/unary_expr.rs"],[("volatile assignment","src/ast/binary_expr.rs"),("volatile read / increment","src/ast/unary_expr.rs")],["FnMacro::generate"])
p("C16","Inline assembly keeps its template, operands and effects",
  "A GNU inline-asm statement generates an `asm!` invocation with the same instruction lines, each operand reference bound to the operand it names in C, every output, input, in-out and tied operand passed with the matching direction and register class, every register clobber listed, and memory or flags clobbers reflected in the options.",
  ["programs","inputs"],"every template, operand list with plain, read-write and tied constraints, and clobber list",
  "Tests cover five fixed asm statements.",
  ["src/ast/asm.rs"],[("Asm::parse / to_tokens","src/ast/asm.rs")],["FnMacro::generate"])
p("C17","Generated constants equal what a C compiler computes",
  "For constant variable-like macros whose operand types C and Rust treat alike, compiling the generated constant with the Rust compiler at its reported type gives the same value as compiling the C macro with a C compiler.",
  ["programs","inputs"],"generated macro sets (definitions, calls, casts, literals of every kind) compiled by both compilers",
  "No test compiles the generated code.",
  ["src/var_macro.rs",MS,X],[("whole pipeline","src/lib.rs")],["MacroSet + VarMacro::generate, through rustc and gcc"])
p("C18","Pointer arithmetic, indexing and member access keep their target",
  "Dereferencing, indexing, pointer addition and subtraction, pre/post increment inside a dereference, address-of and member access (`.` and `->`) generate Rust that designates the same object as in C for every valuation of pointers and indices.",
  ["programs","inputs"],"every access expression over pointer and struct variables and parameters",
  "Tests compare the text of eight expressions.",
  ["src/ast/unary_expr.rs",X],[("UnaryExpr::to_token_stream (Deref)","src/ast/unary_expr.rs"),("parse_term_prec1",X)],["FnMacro::generate"])
p("C19","Argument stringification and pasting survive generation",
  "Macro bodies that stringify or paste parameters generate a macro in which the same parameters are stringified (with a terminating NUL, and joined with neighbouring string literals in order) or pasted with the same neighbours in order, with pasted parameters taken as identifiers.",
  ["programs","inputs"],"every body mixing literals, #parameter and ## chains",
  "Tests cover a few fixed chains.",
  ["src/ast/stringify.rs","src/ast/identifier_expr.rs",X],[("Stringify","src/ast/stringify.rs"),("IdentifierExpr::parse_concat_ident","src/ast/identifier_expr.rs"),("ConcatString",X)],["FnMacro::generate"])
p("C20","Generated functions and macros compile and behave like the C macro",
  "For every function-like macro whose body the generator accepts, the generated Rust function or macro compiles and, run on the same arguments and memory, returns the value and leaves the variables and memory that the C macro does when compiled by a C compiler, including the calls it makes and the order of sequenced side effects.",
  ["programs","inputs"],"every accepted macro body over int, double and pointer operands that needs no implicit C arithmetic conversion, every argument list and initial memory, for executions without undefined behaviour",
  "Tests compare token text only; nothing in the repository compiles the generated code.",
  ["src/fn_macro.rs","src/ast/binary_expr.rs","src/ast/unary_expr.rs","src/ast/statement.rs"],[("FnMacro::generate","src/fn_macro.rs")],["FnMacro::generate"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
