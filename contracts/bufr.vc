//@ include prelude.rs
//@ include vecsink.rs
//@ raw
broadcast use ax::core;
//@ include iters.rs
//@ item brec/src/traits/read/reader.rs struct BufferedReader
//@ raw
impl<'a, R: sio::BufRead> BufferedReader<'a, R> {
    /// the bytes that were not delivered yet
    pub open spec fn undelivered(&self) -> Seq<u8> { self.buffer@ + self.inner.rest() }
    /// the bytes the wrapped reader had when this one was made, less those that were delivered
    pub open spec fn same(&self, o: &Self) -> bool {
        self.inner.faulty() == o.inner.faulty() && self.inner.seekable() == o.inner.seekable() && self.inner.out() == o.inner.out()
    }
}
pub trait VMin: Sized {
    spec fn lesser(self, o: Self) -> Self;
    fn v_min(self, o: Self) -> (r: Self) ensures r == self.lesser(o);
}
impl VMin for usize {
    open spec fn lesser(self, o: Self) -> Self { if self <= o { self } else { o } }
    fn v_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
}
/// Vec::drain(..n), the removed bytes dropped
#[verifier::external_body]
pub fn v_drain_front(v: &mut Vec<u8>, n: usize)
    requires n <= old(v)@.len(),
    ensures final(v)@ == old(v)@.skip(n as int),
{ v.drain(..n); }

//@ fn brec/src/traits/read/reader.rs BufferedReader::new
:props C13
:ensures
    r.consumed == 0,
    r.undelivered() == old(inner).rest(),
    *final(r.inner) == *final(inner),

//@ fn brec/src/traits/read/reader.rs BufferedReader::buffer_len
:props C13
:ensures
    final(self).undelivered() == old(self).undelivered(),
    final(self).consumed == old(self).consumed, final(self).buffer == old(self).buffer,
    r is Ok ==> r->Ok_0 == final(self).inner.filled(),
    r is Err ==> old(self).inner.faulty(),
    *final(final(self).inner) == *final(old(self).inner),

//@ fn brec/src/traits/read/reader.rs BufferedReader::len
:props C13
:requires
    old(self).undelivered().len() <= usize::MAX,
:ensures
    final(self).undelivered() == old(self).undelivered(),
    final(self).consumed == old(self).consumed, final(self).buffer == old(self).buffer,
    r is Ok ==> r->Ok_0 == final(self).buffer@.len() + final(self).inner.filled(),
    r is Ok ==> r->Ok_0 <= final(self).undelivered().len(),
    r is Ok && r->Ok_0 == 0 ==> final(self).undelivered().len() == 0,
    r is Err ==> old(self).inner.faulty(),
    *final(final(self).inner) == *final(old(self).inner),

//@ fn brec/src/traits/read/reader.rs BufferedReader::is_empty
:props C13
:requires
    old(self).undelivered().len() <= usize::MAX,
:ensures
    final(self).undelivered() == old(self).undelivered(),
    final(self).consumed == old(self).consumed,
    r is Ok ==> r->Ok_0 == (final(self).undelivered().len() == 0),
    *final(final(self).inner) == *final(old(self).inner),

//@ fn brec/src/traits/read/reader.rs BufferedReader::refill
:props C13
:ensures
    final(self).undelivered() == old(self).undelivered(),
    final(self).consumed == old(self).consumed,
    r is Ok ==> final(self).buffer@.len() >= old(self).buffer@.len(),
    r is Ok && final(self).buffer@.len() == old(self).buffer@.len() ==> old(self).inner.rest().len() == 0,
    r is Err ==> old(self).inner.faulty(),
    *final(final(self).inner) == *final(old(self).inner),

//@ fn brec/src/traits/read/reader.rs BufferedReader::consumed
:props C13
:ensures
    r == self.consumed,

//@ fn brec/src/traits/read/reader.rs Read@BufferedReader::read
:props C13
:header impl<'a, R: sio::BufRead> BufferedReader<'a, R>
:rewrite .min($..x) =>> .v_min($x)
:rewrite $b[..$n].copy_from_slice($..x) =>> $b.v_put(0, $n, $x)
:rewrite self.buffer.drain(..$n) =>> v_drain_front(&mut self.buffer, $n)
:requires
    old(self).consumed + old(self).undelivered().len() <= usize::MAX,
:ensures
    final(buf)@.len() == old(buf)@.len(),
    r is Ok ==> r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= old(self).undelivered().len(),
    r is Ok ==> final(buf)@.take(r->Ok_0 as int) == old(self).undelivered().take(r->Ok_0 as int),
    r is Ok ==> final(self).undelivered() == old(self).undelivered().skip(r->Ok_0 as int),
    r is Ok ==> final(self).consumed == old(self).consumed + r->Ok_0,
    r is Ok ==> final(self).buffer@.len() + final(self).inner.filled() + r->Ok_0 >= old(self).buffer@.len() + old(self).inner.filled(),
    r is Ok && r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).undelivered().len() == 0,
    r is Err ==> old(self).inner.faulty() && final(self).undelivered() == old(self).undelivered() && final(self).consumed == old(self).consumed,
    *final(final(self).inner) == *final(old(self).inner),

//@ fn brec/src/traits/read/reader.rs BufRead@BufferedReader::fill_buf
:props C13
:header impl<'a, R: sio::BufRead> BufferedReader<'a, R>
:requires
    old(self).undelivered().len() <= usize::MAX,
:ensures
    final(self).undelivered() == old(self).undelivered(),
    final(self).consumed == old(self).consumed, final(self).buffer == old(self).buffer,
    r is Ok ==> r->Ok_0@.len() == final(self).buffer@.len() + final(self).inner.filled(),
    r is Ok ==> r->Ok_0@.len() >= old(self).buffer@.len() + old(self).inner.filled(),
    r is Ok ==> r->Ok_0@.len() <= old(self).undelivered().len() && r->Ok_0@ == old(self).undelivered().take(r->Ok_0@.len() as int),
    r is Ok && r->Ok_0@.len() == 0 ==> old(self).undelivered().len() == 0,
    r is Err ==> old(self).inner.faulty(),
    *final(final(self).inner) == *final(old(self).inner),

//@ fn brec/src/traits/read/reader.rs BufRead@BufferedReader::consume
:props C13
:header impl<'a, R: sio::BufRead> BufferedReader<'a, R>
:rewrite self.buffer.drain(..$n) =>> v_drain_front(&mut self.buffer, $n)
:requires
    amt <= old(self).buffer@.len() + old(self).inner.filled(), amt <= old(self).undelivered().len(),
    old(self).consumed + old(self).undelivered().len() <= usize::MAX,
:ensures
    final(self).undelivered() == old(self).undelivered().skip(amt as int),
    final(self).consumed == old(self).consumed + amt,
    final(self).buffer@.len() + final(self).inner.filled() == old(self).buffer@.len() + old(self).inner.filled() - amt,
    *final(final(self).inner) == *final(old(self).inner),
