@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/fsread.rs
@include ../lib/plugfns.vx
@include ../lib/plugmacro.vx
@include ../lib/plugtypes.vx
@include ../lib/plugcmds.vx
@include ../lib/plughooks.vx
@include ../lib/loadfns.vx
