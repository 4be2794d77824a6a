impl<S: sio::Read + sio::Seek, B: BlockDef, BR: BlockReferredDef<B>, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReaderDef<S, B, BR, P, Inner> {
    pub closed spec fn data(&self) -> Seq<u8> { self.inner.data() }
    pub closed spec fn faulty(&self) -> bool { self.inner.faulty() }
    pub closed spec fn blank(&self) -> bool { self.slots@.len() == 0 && self.rules.rules@.len() == 0 }
    pub closed spec fn rules_v(&self) -> Seq<RuleDef<B, BR, P, Inner>> { self.rules.rules@ }
    /// the slots
    pub open spec fn tbl(&self) -> Seq<Slot> { inners(self.slots@) }
    /// the slots are well formed and the locator knows the first free place
    pub closed spec fn ok(&self) -> bool {
        &&& uniq(self.rules.rules@)
        &&& all_wf(self.tbl()) && anchored(self.slots@) && span(self.tbl(), self.slots@.len() as int) <= u64::MAX
        &&& at_free(self.locator, self.tbl()) && (self.locator.next < self.slots@.len() ==> !full(self.tbl()[self.locator.next as int]))
    }
}
