// the conversion the standard library derives from TryFrom
impl VTryInto<ByteBlock> for Vec<u8> {
    type E = Error;
    open spec fn conv(self, r: Result<ByteBlock, Error>) -> bool {
        &&& r is Ok <==> cap_ok(self@.len() as int)
        &&& r is Ok ==> bb(r->Ok_0) == self@
        &&& r is Err ==> r->Err_0 is InvalidCapacity
    }
    fn v_try_into(self) -> (r: Result<ByteBlock, Error>) { ByteBlock::try_from(self) }
}
