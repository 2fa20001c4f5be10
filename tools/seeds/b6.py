EX='src/ast/expr.rs'; FC='src/ast/function_call.rs'; IE='src/ast/identifier_expr.rs'; TY='src/ast/ty.rs'; CT='src/context.rs'
SEEDS=[
dict(id='c18-double-deref', property='C18', needs='two dereferences in a row',
 breaks='A pointer to a pointer is only dereferenced once.',
 edits=[(EX,"|(op, expr)| Self::Unary(UnaryExpr { op, expr: Box::new(expr) }),","|(op, expr)| match (op, expr) {\n            (UnaryOp::Deref, Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr })) => Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }),\n            (op, expr) => Self::Unary(UnaryExpr { op, expr: Box::new(expr) }),\n          },")],
 demo=r'''    let cx = Cx::default();
    assert_ne!(func("p", "* * p", &cx), func("p", "* p", &cx));'''),
dict(id='c19-long-paste', property='C19', needs='six pieces pasted into one name',
 breaks='Pieces after the fifth of a pasted identifier are lost.',
 edits=[(IE,"          ids.extend(item);","          if ids.len() < 5 {\n            ids.extend(item);\n          }")],
 demo=r'''    let cx = Cx::default();
    assert_ne!(func("a,b,c,d,e,g", "a ## b ## c ## d ## e ## g", &cx), func("a,b,c,d,e,g", "a ## b ## c ## d ## e", &cx));'''),
dict(id='c14-ulonglong', property='C14', needs='a parameter or function of the type c_ulonglong in the context',
 breaks='c_ulonglong in the context becomes c_ulong.',
 edits=[(TY,'} else if id == "c_ulonglong" {\n          Self::ULongLong','} else if id == "c_ulonglong" {\n          Self::ULong')],
 demo=r'''    let mut cx = Cx::default();
    cx.args.insert("a", "c_ulonglong");
    assert!(func("a", "a", &cx).unwrap().contains("c_ulonglong"));'''),
dict(id='c20-variadic-only', property='C20', needs='a macro whose only parameter is ..., passed on to a function',
 breaks='The arguments of a macro which only has variadic ones are converted as one tuple.',
 edits=[(FC,'ctx.arg_name(arg2.index()) == "..."','ctx.arg_name(arg2.index()) == "..." && arg2.index() > 0')],
 demo=r'''    let cx = Cx::default();
    assert!(!func("...", "f ( __VA_ARGS__ )", &cx).unwrap().contains("into"));'''),
]
