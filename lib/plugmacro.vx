@fn brack_plugin::plugins::Plugins::call_macro_command
  ensures
    world(*final($0)) == called(world(*old($0)), $1@, $2@, Type::TAST, In::Macro($3, $4@)),
    r is Ok <==> said::<Json<AST>>(world(*old($0)), $1@, $2@, Type::TAST, In::Macro($3, $4@)) is Some,
    r matches Ok(u) ==> said::<Json<AST>>(world(*old($0)), $1@, $2@, Type::TAST, In::Macro($3, $4@)) == Some(Json(u)),
