// ------- Vec<u8> as a sink: proved, not assumed
impl sio::Write for Vec<u8> {
    #[verifier::external_body]
    fn write_vectored(&mut self, bufs: &[sio::IoSlice<'_>]) -> (r: sio::Result<usize>)
        ensures r is Ok && r->Ok_0 == sio::joined(bufs@).len()
    { unimplemented!() }
    fn write(&mut self, buf: &[u8]) -> (r: sio::Result<usize>)
        ensures r is Ok && r->Ok_0 == buf@.len()
    {
        self.extend_from_slice(buf);
        proof { assert(buf@.take(buf@.len() as int) =~= buf@); assert(self@ =~= old(self)@ + buf@); }
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> (r: sio::Result<()>)
        ensures r is Ok
    {
        self.extend_from_slice(buf);
        proof { assert(self@ =~= old(self)@ + buf@); }
        Ok(())
    }
    fn flush(&mut self) -> (r: sio::Result<()>) {
        proof { assert(self@ + Seq::<u8>::empty() =~= self@); }
        Ok(())
    }
}
