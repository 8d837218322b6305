//@file client/src/procedures/types.rs
//@rewrite "<R: Runner>\((self), (_?runner): &R\)" => "<R: Runner>($1, $2: &mut R)"
/// what one step of a procedure does to what is readable, and what it returns
pub trait Procedure: Sized {
    type Output;
    spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<Self::Output, ProcedureError>) -> bool;
//@fn trait Procedure::execute
@ret r
@sig
    requires old(_runner).inv(),
    ensures final(_runner).inv(), self.step(*old(_runner), *final(_runner), r),
//@end
}
pub trait GenerateSecret: Sized {
    type Output;
    /// the relation between the parameters and what is generated
    spec fn gens(&self, r: Result<Products<Self::Output>, FatalProcedureError>) -> bool;
    spec fn tgt(&self) -> Location;
//@fn trait GenerateSecret::generate
@ret r
@sig
    ensures self.gens(r),
//@end
//@fn trait GenerateSecret::target
@ret r
@sig
    ensures *r == self.tgt(),
//@end
//@fn trait GenerateSecret::exec
@ret r
@sig
    requires old(runner).inv(),
    ensures
        final(runner).inv(), same_but(*old(runner), *final(runner), self.tgt().id()),
        match r {
            Ok(o) => exists|p: Products<Self::Output>| #[trigger] self.gens(Ok(p)) && p.output == o && final(runner).at(self.tgt().id()) == Some(p.secret@),
            Err(_) => final(runner).at(self.tgt().id()) == old(runner).at(self.tgt().id())
                && (fault() || old(runner).blocked(self.tgt().id()) || exists|e: FatalProcedureError| #[trigger] self.gens(Err(e))),
        },
//@end
}
pub trait DeriveSecret<const N: usize>: Sized {
    type Output;
    spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<Self::Output>, FatalProcedureError>) -> bool;
    spec fn srcs(&self) -> Seq<Location>;
    spec fn tgt(&self) -> Location;
//@fn trait DeriveSecret::derive
@ret r
@sig
    ensures self.derives(views(guard), r),
//@end
//@fn trait DeriveSecret::source
@ret r
@sig
    ensures r@ =~= self.srcs(),
//@end
//@fn trait DeriveSecret::target
@ret r
@sig
    ensures *r == self.tgt(),
//@end
//@fn trait DeriveSecret::exec
@ret r
@rx "\|guard\|" => "|guard: [Buffer<u8>; N]|"
@closure 0
-> (vx_r: Result<Products<Self::Output>, FatalProcedureError>) ensures self.derives(views(guard), vx_r)
@sig
    requires old(runner).inv(),
    ensures
        final(runner).inv(), same_but(*old(runner), *final(runner), self.tgt().id()),
        match r {
            Ok(o) => exists|b: Seq<Seq<u8>>, p: Products<Self::Output>| #[trigger] self.derives(b, Ok(p)) && sees(*old(runner), self.srcs(), b) && p.output == o && final(runner).at(self.tgt().id()) == Some(p.secret@),
            Err(_) => final(runner).at(self.tgt().id()) == old(runner).at(self.tgt().id())
                && (fault() || old(runner).blocked(self.tgt().id()) || !all_readable(*old(runner), self.srcs())
                    || exists|b: Seq<Seq<u8>>, e: FatalProcedureError| #[trigger] self.derives(b, Err(e)) && sees(*old(runner), self.srcs(), b)),
        },
//@end
}
pub trait UseSecret<const N: usize>: Sized {
    type Output;
    spec fn uses(&self, b: Seq<Seq<u8>>, r: Result<Self::Output, FatalProcedureError>) -> bool;
    spec fn srcs(&self) -> Seq<Location>;
//@fn trait UseSecret::use_secret
@ret r
@sig
    ensures self.uses(views(guard), r),
//@end
//@fn trait UseSecret::source
@ret r
@sig
    ensures r@ =~= self.srcs(),
//@end
//@fn trait UseSecret::exec
@ret r
@rx "\|guard\|" => "|guard: [Buffer<u8>; N]|"
@closure 0
-> (vx_r: Result<Self::Output, FatalProcedureError>) ensures self.uses(views(guard), vx_r)
@sig
    requires old(runner).inv(),
    ensures
        final(runner).inv(), same(*old(runner), *final(runner)),
        match r {
            Ok(o) => exists|b: Seq<Seq<u8>>, p: Self::Output| #[trigger] self.uses(b, Ok(p)) && p == o && sees(*old(runner), self.srcs(), b),
            Err(_) => fault() || !all_readable(*old(runner), self.srcs())
                || exists|b: Seq<Seq<u8>>, e: FatalProcedureError| #[trigger] self.uses(b, Err(e)) && sees(*old(runner), self.srcs(), b),
        },
//@end
}
