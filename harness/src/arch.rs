//! Zero-copy archives of collections, kept alive in an aligned buffer.
use rkyv::{
    ser::{serializers::AllocSerializer, Serializer},
    AlignedVec, Archive, Serialize,
};

pub type Ser = AllocSerializer<4096>;
pub struct Arch<T: Archive> {
    pub bytes: AlignedVec,
    _t: std::marker::PhantomData<T>,
}
impl<T: Archive + Serialize<Ser>> Arch<T> {
    pub fn new(v: &T) -> Self {
        let mut s = Ser::default();
        s.serialize_value(v).expect("serialize");
        Arch { bytes: s.into_serializer().into_inner(), _t: std::marker::PhantomData }
    }
}
impl<T: Archive> Arch<T> {
    pub fn get(&self) -> &T::Archived { unsafe { rkyv::archived_root::<T>(&self.bytes) } }
}
