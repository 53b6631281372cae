@rename get vget
@rename first vfirst
@rename unwrap_or_default vor_empty
@rename ok_or_else vok_or_else
@fn brack_plugin::plugin::Plugin::call
  ensures
    final($0).name == old($0).name, final($0).feature_flag == old($0).feature_flag, final($0).signature_to_metadata == old($0).signature_to_metadata,
    ({ let p = pw(*old($0)); let k = ($1@, $2); let q = P { log: p.log.push(Call { name: p.table[k].call_name@, input: $3.input() }), ..p };
       if p.table.contains_key(k) { pw(*final($0)) == q && (r matches Ok(u) ==> answer::<U>(p.wasm, q.log) == Some(u)) && (r is Err ==> answer::<U>(p.wasm, q.log) is None) }
       else { r is Err && pw(*final($0)) == p } }),
@fn brack_plugin::plugins::Plugins::call
  ensures
    world(*final($0)) == called(world(*old($0)), $1@, $2@, $3, $4.input()),
    r is Ok <==> said::<U>(world(*old($0)), $1@, $2@, $3, $4.input()) is Some,
    r matches Ok(u) ==> said::<U>(world(*old($0)), $1@, $2@, $3, $4.input()) == Some(u),
