@fn brack_plugin::plugins::Plugins::call_document_hook
  ensures
    world(*final($0)) == hook_called(world(*old($0)), Hk::Document, In::Values(vvs($1@))),
    r is Ok <==> hook_said(world(*old($0)), Hk::Document, In::Values(vvs($1@))) is Some,
    r matches Ok(u) ==> hook_said(world(*old($0)), Hk::Document, In::Values(vvs($1@))) == Some(opt(u)),
@fn brack_plugin::plugins::Plugins::call_stmt_hook
  ensures
    world(*final($0)) == hook_called(world(*old($0)), Hk::Stmt, In::Values(vvs($1@))),
    r is Ok <==> hook_said(world(*old($0)), Hk::Stmt, In::Values(vvs($1@))) is Some,
    r matches Ok(u) ==> hook_said(world(*old($0)), Hk::Stmt, In::Values(vvs($1@))) == Some(opt(u)),
@fn brack_plugin::plugins::Plugins::call_expr_hook
  ensures
    world(*final($0)) == hook_called(world(*old($0)), Hk::Expr, In::Values(vvs($1@))),
    r is Ok <==> hook_said(world(*old($0)), Hk::Expr, In::Values(vvs($1@))) is Some,
    r matches Ok(u) ==> hook_said(world(*old($0)), Hk::Expr, In::Values(vvs($1@))) == Some(opt(u)),
@fn brack_plugin::plugins::Plugins::call_text_hook
  ensures
    world(*final($0)) == hook_called(world(*old($0)), Hk::Text, In::Values(vvs($1@))),
    r is Ok <==> hook_said(world(*old($0)), Hk::Text, In::Values(vvs($1@))) is Some,
    r matches Ok(u) ==> hook_said(world(*old($0)), Hk::Text, In::Values(vvs($1@))) == Some(opt(u)),
