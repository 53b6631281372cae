@fn brack_plugin::plugins::Plugins::argument_types
  ensures
    r is Ok <==> found(world(*$0), $1@, $2@, $3),
    r matches Ok(v) ==> v == entry(world(*$0), $1@, $2@, $3).argument_types,
