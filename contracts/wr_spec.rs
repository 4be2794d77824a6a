impl<S: sio::Read + sio::Write + sio::Seek, B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> WriterDef<S, B, P, Inner> {
    /// the slots are in order and the locator knows where the next packet goes
    pub closed spec fn ok(&self) -> bool {
        &&& all_wf(self.slots@) && tight(self.slots@) && at_free(self.locator, self.slots@)
        &&& self.locator.next + 1 >= self.slots@.len()
    }
    pub closed spec fn data(&self) -> Seq<u8> { self.inner.data() }
    pub closed spec fn faulty(&self) -> bool { self.inner.faulty() }
    pub closed spec fn blank(&self) -> bool { self.slots@.len() == 0 }
}
