// ---------------------------------------------------------------- the container in memory: no file is involved
/// some state of the file system
#[verifier::external_body]
pub proof fn vx_world() -> (tracked r: World) { unimplemented!() }
pub fn write_mem(plain: &[u8], output: &mut Vec<u8>, key: &Key, associated_data: &[u8]) -> (r: Result<(), WriteError>)
    ensures match r {
        Ok(_) => exists|e: Seq<u8>, c: Seq<u8>| e.len() == 32 && #[trigger] sealed_as(c, e, key@, associated_data@, plain@) && final(output)@ == old(output)@ + c,
        Err(_) => fault(),
    },
{
    let tracked mut w = vx_world();
    write(plain, output, key, associated_data, Tracked(&mut w))
}
pub fn read_mem(input: &[u8], key: &Key, associated_data: &[u8]) -> (r: Result<Vec<u8>, ReadError>)
    ensures
        opened(input@, key@, associated_data@) matches Some(o) ==> match r { Ok(p) => p@ == o, Err(_) => fault() },
        opened(input@, key@, associated_data@) is None ==> r is Err,
{
    let tracked mut w = vx_world();
    let mut i = input;
    read(&mut i, key, associated_data, Tracked(&mut w))
}
