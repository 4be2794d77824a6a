// `#[from]` of thiserror
impl From<sio::Error> for Error {
    fn from(e: sio::Error) -> (r: Error) { Error::Io(e) }
}
impl FromSpecImpl<sio::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: sio::Error) -> Error { Error::Io(e) }
}
/// `?` converts with From, that is with the derived conversions
pub mod axe {
    use super::*;
    pub broadcast axiom fn from_io(e: sio::Error, r: Error)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, sio::Error>(e, r) ==> r == Error::Io(e);
}
impl From<core::array::TryFromSliceError> for Error {
    fn from(e: core::array::TryFromSliceError) -> (r: Error) { Error::TryFromSliceError(e) }
}
impl FromSpecImpl<core::array::TryFromSliceError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: core::array::TryFromSliceError) -> Error { Error::TryFromSliceError(e) }
}
// traits of brec: the signatures; contracts are on the implementations unless given here
pub trait StaticSize { fn ssize() -> u64; }
pub trait CrcU32 { fn crc(&self) -> [u8; 4]; }
pub trait ReadFrom {
    fn read<T: sio::Read>(buf: &mut T) -> Result<Self, Error> where Self: Sized;
}
pub trait ReadBlockFromSlice {
    fn read_from_slice<'a>(buf: &'a [u8], skip_sig: bool) -> Result<Self, Error> where Self: 'a + Sized;
}
pub trait TryReadFrom {
    fn try_read<T: sio::Read + sio::Seek>(buf: &mut T) -> Result<ReadStatus<Self>, Error> where Self: Sized;
}
pub trait TryReadFromBuffered {
    fn try_read_buffered<T: sio::BufRead>(buf: &mut T) -> Result<ReadStatus<Self>, Error> where Self: Sized;
}
pub trait WriteTo {
    spec fn writable(&self) -> bool;
    fn write<T: sio::Write>(&self, buf: &mut T) -> sio::Result<usize> requires self.writable();
    fn write_all<T: sio::Write>(&self, buf: &mut T) -> sio::Result<()> requires self.writable();
}
