@fn brack_plugin::plugins::Plugins::call_inline_command
  ensures
    world(*final($0)) == called(world(*old($0)), $1@, $2@, Type::TInline, In::Values(vvs($3@))),
    r is Ok <==> said::<String>(world(*old($0)), $1@, $2@, Type::TInline, In::Values(vvs($3@))) is Some,
    r matches Ok(u) ==> said::<String>(world(*old($0)), $1@, $2@, Type::TInline, In::Values(vvs($3@))) == Some(u),
@fn brack_plugin::plugins::Plugins::call_block_command
  ensures
    world(*final($0)) == called(world(*old($0)), $1@, $2@, Type::TBlock, In::Values(vvs($3@))),
    r is Ok <==> said::<String>(world(*old($0)), $1@, $2@, Type::TBlock, In::Values(vvs($3@))) is Some,
    r matches Ok(u) ==> said::<String>(world(*old($0)), $1@, $2@, Type::TBlock, In::Values(vvs($3@))) == Some(u),
