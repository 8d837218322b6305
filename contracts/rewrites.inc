//@rewrite "\"[^\"]*\"\.into\(\)" => "vx_msg()"
//@rewrite "AsRef<\[u8\]>" => "VxAsRef"
//@rewrite "BoxProvider: 'static \+ Sized \+ Ord \+ PartialOrd" => "BoxProvider: Sized"
//@rewrite "type Error: Debug;" => "type Error;"
//@rewrite "<TProvErr: Debug, TProcErr: Debug = Infallible>" => "<TProvErr, TProcErr = Infallible>"
//@rewrite "<TProvErr: Debug>" => "<TProvErr>"
//@rewrite "<E: Debug>" => "<E>"
//@rewrite "E: Debug,\n" => ""
//@rewrite "\.into_iter\(\)" => ".vx_into_iter()"
