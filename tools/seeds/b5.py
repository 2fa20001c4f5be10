EX='src/ast/expr.rs'; TY='src/ast/ty.rs'; ST='src/ast/statement.rs'; ASM='src/ast/asm.rs'; ID='src/ast/identifier.rs'; PU='src/ast/punctuation.rs'
MS='src/macro_set/mod.rs'; BIN='src/ast/binary_expr.rs'; UN='src/ast/unary_expr.rs'
SEEDS=[
dict(id='c13-before-shift', property='C13', needs='a comment before a shift operator',
 breaks='A comment before << or >> makes the macro unparsable.',
 edits=[(EX,'delimited(meta, alt((value(BinaryOp::Shl, punct("<<")), value(BinaryOp::Shr, punct(">>")))), meta),','terminated(alt((value(BinaryOp::Shl, punct("<<")), value(BinaryOp::Shr, punct(">>")))), meta),')],
 demo=r'''    let a = var("1 << 4", &Cx::default());
    let b = var("1 /*c*/ << 4", &Cx::default());
    assert_eq!(a, b);'''),
dict(id='c13-index-end', property='C13', needs='a comment before the closing bracket of an index',
 breaks='A comment at the end of an index makes the macro unparsable.',
 edits=[(EX,'Self::parse, preceded(meta, punct("]"))), |index| {','Self::parse, punct("]")), |index| {')],
 demo=r'''    assert_eq!(func("p,i", "p [ i /*c*/ ]", &Cx::default()), func("p,i", "p [ i ]", &Cx::default()));'''),
dict(id='c13-else', property='C13', needs='a comment between an if block and else',
 breaks='A comment before else makes the macro unparsable.',
 edits=[(ST,'opt(preceded(delimited(meta, id("else"), meta), block)),','opt(preceded(terminated(id("else"), meta), block)),')],
 demo=r'''    let cx = Cx::default();
    assert_eq!(func("a", "{ if ( a ) { f ( ) ; } /*c*/ else { g ( ) ; } }", &cx), func("a", "{ if ( a ) { f ( ) ; } else { g ( ) ; } }", &cx));'''),
dict(id='c13-ptr-const', property='C13', needs='a comment between * and const in a type',
 breaks='A comment between * and a qualifier in a type makes the macro unparsable.',
 edits=[(TY,'preceded(pair(punct("*"), meta), opt(const_volatile_qualifier)),','preceded(punct("*"), opt(const_volatile_qualifier)),')],
 demo=r'''    let cx = Cx::default();
    assert_eq!(func("a", "( int * /*c*/ const ) a", &cx), func("a", "( int * const ) a", &cx));'''),
dict(id='e10-parameter-comment', property='E10', needs='a comment in the parameter list before a parameter',
 breaks='A comment in the parameter list shifts the parameters after it.',
 edits=[(MS,"        .filter(|t| matches!(t, Token::Punctuation(_) | Token::Identifier(_)))\n        .position","        .position")],
 demo=r'''    assert_eq!(expand(&["F(a,/*c*/,b) a - b", "X F ( 1 , 2 )"]).ok(), expand(&["F(a,b) a - b", "X F ( 1 , 2 )"]).ok());'''),
dict(id='e07-line-comment', property='E07', needs='a redefinition which differs in a line comment',
 breaks='A redefinition which only differs in a line comment is a different one.',
 edits=[(MS,'(s.starts_with("/*") && s.ends_with("*/")) || s.starts_with("//")','s.starts_with("/*") && s.ends_with("*/")')],
 demo=r'''    let mut m = MacroSet::new();
    m.define_var_macro("A", ["1"]);
    let a = m.define_var_macro("A", ["1", "// c"]);
    let mut m = MacroSet::new();
    m.define_var_macro("A", ["1"]);
    let b = m.define_var_macro("A", ["1", "/* c */"]);
    assert_eq!(a, b);
    assert_eq!(expand(&["F(a) a", "X F ( 1 )"]).unwrap(), "1");'''),
dict(id='l05-combining', property='L05', needs='an identifier with a combining mark',
 breaks='An identifier with a combining mark is not an identifier.',
 edits=[(ID,"chars.all(unicode_ident::is_xid_continue)","chars.all(|c| c.is_alphanumeric() || c == '_')"),(ID,"verify(identifier_char, |c| unicode_ident::is_xid_continue(*c)),","verify(identifier_char, |c| c.is_alphanumeric() || *c == '_'),")],
 demo=r'''    assert_eq!(expand(&["e\u{301} 5", "X e\u{301}"]).ok(), Some("5".to_string()));
    assert!(expand(&["X ne\u{301}e"]).is_ok());'''),
dict(id='l05-digraph', property='L05', needs='the token %:%:',
 breaks='The token %:%: is not a token.',
 edits=[(PU,'"<:", ":>", "<%", "%>", "%:", "%:%:",\n];','"<:", ":>", "<%", "%>", "%:",\n];')],
 demo=r'''    assert!(expand(&["X %:%:"]).is_ok() || expand(&["X a %:%: b"]).is_ok() || expand(&["X %:%:"]) == expand(&["X %:"]));'''),
dict(id='e06-nine-parameters', property='E06', needs='a template with more than eight parameters',
 breaks='The ninth parameter of a macro is the first one in its template.',
 edits=[(MS,"MacroToken::Arg(MacroArg { index: arg_index })","MacroToken::Arg(MacroArg { index: arg_index % 8 })")],
 demo=r'''    let m = set(&["F(a,b,c,d,e,f,g,h,i) i - a"]);
    let (_, b) = m.expand_fn_macro("F").unwrap();
    let s = show(&b);
    let m = set(&["F(a,b,c,d,e,f,g,h,i) a - a"]);
    let (_, b) = m.expand_fn_macro("F").unwrap();
    assert_ne!(s, show(&b));'''),
dict(id='e05-empty-rest', property='E05', needs='an empty argument among the variadic ones',
 breaks='Empty variadic arguments are dropped.',
 edits=[(MS,"for (i, arg) in args[(arg_names.len() - 1)..].iter().enumerate() {","for (i, arg) in args[(arg_names.len() - 1)..].iter().filter(|a| !a.is_empty()).enumerate() {")],
 demo=r'''    assert_eq!(expand(&["F(...) f ( __VA_ARGS__ )", "X F ( 1 , , 2 )"]).unwrap().matches(',').count(), 2);'''),
]
