//@rewrites clear
//@file client/src/procedures/primitives.rs
impl StrongholdProcedure {
//@fn StrongholdProcedure::output
@ret r
@sig
    ensures r == self.out_loc(),
//@end
//@fn StrongholdProcedure::input
@ret r
@sig
    ensures r == self.in_loc(),
//@end
}
