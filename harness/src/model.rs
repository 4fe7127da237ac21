//! Description of schemas, the naive reference codec, model contents and thin adaptors from the generated
//! types to them. Nothing here uses the library's own encoding: the oracle works bit by bit.
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    Bool,
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
}
impl Ty {
    pub fn bits(self) -> usize {
        match self {
            Ty::Bool | Ty::U8 | Ty::I8 => 8,
            Ty::U16 | Ty::I16 => 16,
            Ty::U32 | Ty::I32 => 32,
            Ty::U64 | Ty::I64 => 64,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64)
    }
    pub const ALL: [Ty; 9] =
        [Ty::Bool, Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64];
}

#[derive(Debug)]
pub struct FieldSpec {
    pub name: &'static str,
    pub ty: Ty,
    pub offset: usize,
    pub width: usize,
    pub variants: &'static [(&'static str, i64)],
}
#[derive(Debug)]
pub struct StructSpec {
    pub name: &'static str,
    pub size: usize,
    pub fields: &'static [FieldSpec],
}
#[derive(Debug)]
pub struct VariadicSpec {
    pub name: &'static str,
    pub types: &'static [(u8, usize)],
}
#[derive(Debug, Clone, Copy)]
pub enum Kind {
    Struct(usize),
    Vector(usize),
    Multi(usize, usize),
    Raw,
    Sub(usize),
}
#[derive(Debug)]
pub struct ResSpec {
    pub name: &'static str,
    pub kind: Kind,
    pub optional: bool,
    pub schema: &'static str,
}
#[derive(Debug)]
pub struct ArchiveSpec {
    pub name: &'static str,
    pub schema: &'static str,
    pub res: &'static [ResSpec],
}

pub fn mask(width: usize) -> u64 {
    if width >= 64 {
        u64::max_value()
    } else {
        (1u64 << width) - 1
    }
}

//
// Reference codec
//

pub fn ref_set(bytes: &mut [u8], offset: usize, width: usize, v: u64) {
    for k in 0..width {
        let bit = offset + k;
        let b = 1u8 << (bit % 8);
        if v >> k & 1 == 1 {
            bytes[bit / 8] |= b;
        } else {
            bytes[bit / 8] &= !b;
        }
    }
}
pub fn ref_get(bytes: &[u8], offset: usize, width: usize) -> u64 {
    let mut v = 0u64;
    for k in 0..width {
        let bit = offset + k;
        if bytes[bit / 8] >> (bit % 8) & 1 == 1 {
            v |= 1 << k;
        }
    }
    v
}
/// Bits stored for a value handed to a setter of this type.
pub fn to_bits(ty: Ty, width: usize, v: u64) -> u64 {
    match ty {
        Ty::Bool => v & 1,
        _ => v & mask(width.min(ty.bits())),
    }
}
/// Value (as `x as u64`) the stored bits stand for.
pub fn from_bits(ty: Ty, width: usize, bits: u64) -> u64 {
    let bits = bits & mask(width);
    match ty {
        Ty::Bool => (bits != 0) as u64,
        t if t.signed() && width >= 2 => {
            if bits >> (width - 1) & 1 == 1 {
                bits | !mask(width)
            } else {
                bits
            }
        }
        _ => bits,
    }
}
impl FieldSpec {
    pub fn norm(&self, v: u64) -> u64 {
        from_bits(self.ty, self.width, to_bits(self.ty, self.width, v))
    }
    pub fn show(&self, v: u64) -> String {
        if !self.variants.is_empty() {
            return self.variants.iter().find(|x| x.1 == v as i64).map(|x| x.0.to_string()).unwrap();
        }
        match self.ty {
            Ty::Bool => format!("{}", v != 0),
            t if t.signed() => format!("{}", v as i64),
            _ => format!("{}", v),
        }
    }
}
pub type Rec = Vec<u64>;
impl StructSpec {
    pub fn encode(&self, rec: &[u64]) -> Vec<u8> {
        let mut b = vec![0; self.size];
        self.encode_into(&mut b, rec);
        b
    }
    pub fn encode_into(&self, b: &mut [u8], rec: &[u64]) {
        for (f, v) in self.fields.iter().zip(rec) {
            ref_set(b, f.offset, f.width, to_bits(f.ty, f.width, *v));
        }
    }
    pub fn decode(&self, b: &[u8]) -> Rec {
        self.fields.iter().map(|f| from_bits(f.ty, f.width, ref_get(b, f.offset, f.width))).collect()
    }
    pub fn show(&self, rec: &[u64]) -> String {
        let fs: Vec<_> = self.fields.iter().zip(rec).map(|(f, v)| format!("{}: {}", f.name, f.show(*v))).collect();
        format!("{} {{ {} }}", self.name, fs.join(", "))
    }
    pub fn zero(&self) -> Rec {
        vec![0; self.fields.len()]
    }
}
/// Encodes a multivector: (index payload, data payload).
pub fn encode_multi(variadic: usize, index: usize, items: &[Vec<(usize, Rec)>]) -> (Vec<u8>, Vec<u8>) {
    let isz = STRUCTS[index].size;
    let mut data: Vec<u8> = vec![];
    let mut idx: Vec<u8> = vec![];
    for it in items {
        idx.extend_from_slice(&(data.len() as u64).to_le_bytes()[..isz]);
        for (k, rec) in it {
            let (tag, s) = VARIADICS[variadic].types[*k];
            data.push(tag);
            data.extend(STRUCTS[s].encode(rec));
        }
    }
    idx.extend_from_slice(&(data.len() as u64).to_le_bytes()[..isz]);
    (idx, data)
}
pub fn encode_vec(s: usize, recs: &[Rec]) -> Vec<u8> {
    let mut b = vec![0u8; recs.len() * STRUCTS[s].size];
    for (i, r) in recs.iter().enumerate() {
        STRUCTS[s].encode_into(&mut b[i * STRUCTS[s].size..(i + 1) * STRUCTS[s].size], r);
    }
    b
}
/// Frame of a stored resource.
pub fn frame(payload: &[u8]) -> Vec<u8> {
    let mut v = (payload.len() as u64).to_le_bytes().to_vec();
    v.extend_from_slice(payload);
    v.extend_from_slice(&[0; 8]);
    v
}

//
// Adaptors
//

pub trait ModelStruct: for<'b> Struct<'b> + 'static {
    const IDX: usize;
    fn get<'a>(r: &<Self as Struct<'a>>::Item, i: usize) -> u64;
    fn get_m<'a>(r: &<Self as Struct<'a>>::ItemMut, i: usize) -> u64;
    fn set<'a>(r: &mut <Self as Struct<'a>>::ItemMut, i: usize, v: u64);
    fn fill<'a, 'b>(r: &mut <Self as Struct<'a>>::ItemMut, o: &<Self as Struct<'b>>::Item);
    fn into_item<'a>(r: <Self as Struct<'a>>::ItemMut) -> <Self as Struct<'a>>::Item;
    fn eq<'a, 'b>(a: &<Self as Struct<'a>>::Item, b: &<Self as Struct<'b>>::Item) -> bool;
    fn spec() -> &'static StructSpec {
        &STRUCTS[Self::IDX]
    }
}
pub trait ModelVariadic: for<'b> VariadicStruct<'b> + 'static {
    const IDX: usize;
    fn add<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, k: usize, rec: &[u64]);
    fn dump<'a>(x: &<Self as VariadicStruct<'a>>::Item) -> (usize, Rec);
    fn copy<'a, 'b>(b: &mut <Self as VariadicStruct<'b>>::ItemMut, x: &<Self as VariadicStruct<'a>>::Item);
    fn spec() -> &'static VariadicSpec {
        &VARIADICS[Self::IDX]
    }
}
pub trait StructVisitor {
    type Out;
    fn visit<S: ModelStruct>(self) -> Self::Out;
}
pub trait MultiVisitor {
    type Out;
    fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out;
}
pub trait ArchiveVisitor {
    type Out;
    fn visit<A: ModelArchive>(self) -> Self::Out;
}

pub fn rec_of<'a, S: ModelStruct>(r: &<S as Struct<'a>>::Item) -> Rec {
    (0..S::spec().fields.len()).map(|i| S::get(r, i)).collect()
}
pub fn rec_of_m<'a, S: ModelStruct>(r: &<S as Struct<'a>>::ItemMut) -> Rec {
    (0..S::spec().fields.len()).map(|i| S::get_m(r, i)).collect()
}
pub fn set_rec<'a, S: ModelStruct>(m: &mut <S as Struct<'a>>::ItemMut, rec: &[u64]) {
    for (i, v) in rec.iter().enumerate() {
        S::set(m, i, *v)
    }
}
pub fn buf_of<S: ModelStruct>(rec: &[u64]) -> StructBuf<S> {
    let mut b = StructBuf::<S>::new();
    set_rec::<S>(&mut b.get_mut(), rec);
    b
}
pub fn vec_of<S: ModelStruct>(recs: &[Rec]) -> Vector<S> {
    let mut v = Vector::<S>::new();
    for r in recs {
        set_rec::<S>(&mut v.grow(), r);
    }
    v
}
pub fn recs_of<S: ModelStruct>(v: &ArrayView<S>) -> Vec<Rec> {
    let n = v.len();
    let mut out = vec![];
    for i in 0..n {
        out.push(rec_of::<S>(&v.at(i)));
    }
    out
}
pub fn items_of<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(
    v: &MultiArrayView<I, V>,
) -> Vec<Vec<(usize, Rec)>> {
    let n = v.len();
    let mut out = vec![];
    for i in 0..n {
        let it: Vec<_> = v.at(i).map(|x| V::dump(&x)).collect();
        out.push(it);
    }
    out
}
pub fn copy_multi<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(
    v: &MultiArrayView<I, V>,
    mut w: MultiVector<I, V>,
) -> Result<(), String> {
    for item in v.iter() {
        let mut b = w.grow().map_err(|e| format!("{:?}", e))?;
        for x in item {
            V::copy(&mut b, &x);
        }
    }
    w.close().map(|_| ()).map_err(|e| format!("{:?}", e))
}

#[derive(Debug)]
pub enum Fail {
    Io(std::io::Error),
    St(ResourceStorageError),
}
impl Fail {
    pub fn io(&self) -> Option<&std::io::Error> {
        match self {
            Fail::Io(e) => Some(e),
            Fail::St(ResourceStorageError::Io(e, _)) => Some(e),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Content {
    Struct(Rec),
    Vector(Vec<Rec>),
    Multi(Vec<Vec<(usize, Rec)>>),
    Raw(Vec<u8>),
    Sub(ArchContent),
}
pub type ArchContent = Vec<Option<Content>>;

pub trait DynWriter {
    fn grow_rec(&mut self, rec: &[u64]) -> Result<(), Fail>;
    fn grow_item(&mut self, item: &[(usize, Rec)]) -> Result<(), Fail>;
    /// Grows by one element and sets only some of its fields.
    fn grow_partial(&mut self, _: &[(usize, u64)]) -> Result<(), Fail> {
        panic!("harness: grow_partial")
    }
    /// Element count and open state, where the type reports them.
    fn state(&self) -> Option<(usize, bool)> {
        None
    }
    fn show(&self) -> String;
    fn close(self: Box<Self>) -> Result<Content, Fail>;
    /// Closes without looking at the returned view.
    fn close_only(self: Box<Self>) -> Result<(), Fail>;
}
pub struct VecWriter<'a, S>(pub ExternalVector<'a, S>);
impl<'a, S: ModelStruct> DynWriter for VecWriter<'a, S> {
    fn grow_rec(&mut self, rec: &[u64]) -> Result<(), Fail> {
        let mut m = self.0.grow().map_err(Fail::Io)?;
        set_rec::<S>(&mut m, rec);
        Ok(())
    }
    fn grow_item(&mut self, _: &[(usize, Rec)]) -> Result<(), Fail> {
        panic!("harness: grow_item on a vector")
    }
    fn grow_partial(&mut self, fs: &[(usize, u64)]) -> Result<(), Fail> {
        let mut m = self.0.grow().map_err(Fail::Io)?;
        for (f, v) in fs {
            S::set(&mut m, *f, *v);
        }
        Ok(())
    }
    fn state(&self) -> Option<(usize, bool)> {
        assert_eq!(self.0.is_empty(), self.0.len() == 0, "is_empty of a streamed vector");
        Some((self.0.len(), self.0.is_open()))
    }
    fn show(&self) -> String {
        format!("{:?}", self.0)
    }
    fn close(self: Box<Self>) -> Result<Content, Fail> {
        self.0.close().map(|v| Content::Vector(recs_of::<S>(&v))).map_err(Fail::St)
    }
    fn close_only(self: Box<Self>) -> Result<(), Fail> {
        self.0.close().map(|_| ()).map_err(Fail::St)
    }
}
pub struct MultiWriter<'a, I, V>(pub MultiVector<'a, I, V>);
impl<'a, I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic> DynWriter for MultiWriter<'a, I, V> {
    fn grow_rec(&mut self, _: &[u64]) -> Result<(), Fail> {
        panic!("harness: grow_rec on a multivector")
    }
    fn show(&self) -> String {
        String::new()
    }
    fn grow_item(&mut self, item: &[(usize, Rec)]) -> Result<(), Fail> {
        let mut b = self.0.grow().map_err(Fail::Io)?;
        for (k, rec) in item {
            V::add(&mut b, *k, rec);
        }
        Ok(())
    }
    fn close(self: Box<Self>) -> Result<Content, Fail> {
        self.0.close().map(|v| Content::Multi(items_of::<I, V>(&v))).map_err(Fail::St)
    }
    fn close_only(self: Box<Self>) -> Result<(), Fail> {
        self.0.close().map(|_| ()).map_err(Fail::St)
    }
}

pub trait ModelArchive: Archive + 'static {
    type B: ArchiveBuilder + 'static;
    const IDX: usize;
    fn dump_one(&self, i: usize) -> Option<Content>;
    fn show_one(&self, i: usize) -> Option<String>;
    fn raw_slices(&self, i: usize) -> Vec<(*const u8, usize)>;
    fn copy_one(&self, b: &Self::B, i: usize) -> Result<(), String>;
    fn set(b: &Self::B, i: usize, c: &Content) -> Result<(), Fail>;
    fn start<'b>(b: &'b Self::B, i: usize) -> std::io::Result<Box<dyn DynWriter + 'b>>;
    fn sub(b: &Self::B, i: usize) -> Result<Box<dyn DynBuilder>, ResourceStorageError>;
    fn spec() -> &'static ArchiveSpec {
        &ARCHIVES[Self::IDX]
    }
}
pub fn dump<A: ModelArchive>(a: &A) -> ArchContent {
    (0..A::spec().res.len()).map(|i| a.dump_one(i)).collect()
}
pub fn all_raw_slices<A: ModelArchive>(a: &A) -> Vec<(*const u8, usize)> {
    (0..A::spec().res.len()).flat_map(|i| a.raw_slices(i)).collect()
}
pub fn copy_all<A: ModelArchive>(a: &A, b: &A::B) -> Result<(), String> {
    for i in 0..A::spec().res.len() {
        a.copy_one(b, i)?;
    }
    Ok(())
}

/// Object-safe archive builder.
pub trait DynBuilder {
    fn spec(&self) -> &'static ArchiveSpec;
    fn set(&self, i: usize, c: &Content) -> Result<(), Fail>;
    fn start<'b>(&'b self, i: usize) -> std::io::Result<Box<dyn DynWriter + 'b>>;
    fn sub(&self, i: usize) -> Result<Box<dyn DynBuilder>, ResourceStorageError>;
}
pub struct Bld<A: ModelArchive>(pub A::B);
impl<A: ModelArchive> DynBuilder for Bld<A> {
    fn spec(&self) -> &'static ArchiveSpec {
        A::spec()
    }
    fn set(&self, i: usize, c: &Content) -> Result<(), Fail> {
        A::set(&self.0, i, c)
    }
    fn start<'b>(&'b self, i: usize) -> std::io::Result<Box<dyn DynWriter + 'b>> {
        A::start(&self.0, i)
    }
    fn sub(&self, i: usize) -> Result<Box<dyn DynBuilder>, ResourceStorageError> {
        A::sub(&self.0, i)
    }
}
/// Object-safe opened archive.
pub trait DynArchive {
    fn dump(&self) -> ArchContent;
    fn dump_one(&self, i: usize) -> Option<Content>;
    fn debug(&self) -> String;
    fn show_one(&self, i: usize) -> Option<String>;
    fn raw(&self) -> Vec<(*const u8, usize)>;
    fn copy_to(&self, st: Rc<dyn ResourceStorage>) -> Result<(), String>;
    fn dup(&self) -> Box<dyn DynArchive>;
}
struct Arc1<A>(A);
impl<A: ModelArchive> DynArchive for Arc1<A> {
    fn dump(&self) -> ArchContent {
        dump(&self.0)
    }
    fn dump_one(&self, i: usize) -> Option<Content> {
        self.0.dump_one(i)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn show_one(&self, i: usize) -> Option<String> {
        self.0.show_one(i)
    }
    fn raw(&self) -> Vec<(*const u8, usize)> {
        all_raw_slices(&self.0)
    }
    fn copy_to(&self, st: Rc<dyn ResourceStorage>) -> Result<(), String> {
        let b = <A::B as ArchiveBuilder>::new(st).map_err(|e| format!("{:?}", e))?;
        copy_all(&self.0, &b)
    }
    fn dup(&self) -> Box<dyn DynArchive> {
        Box::new(Arc1(self.0.clone()))
    }
}
pub fn new_builder(arch: usize, st: Rc<dyn ResourceStorage>) -> Result<Box<dyn DynBuilder>, ResourceStorageError> {
    struct V(Rc<dyn ResourceStorage>);
    impl ArchiveVisitor for V {
        type Out = Result<Box<dyn DynBuilder>, ResourceStorageError>;
        fn visit<A: ModelArchive>(self) -> Self::Out {
            let b = <A::B as ArchiveBuilder>::new(self.0)?;
            Ok(Box::new(Bld::<A>(b)))
        }
    }
    with_archive(arch, V(st))
}
pub fn open_archive(arch: usize, st: Rc<dyn ResourceStorage>) -> Result<Box<dyn DynArchive>, ResourceStorageError> {
    struct V(Rc<dyn ResourceStorage>);
    impl ArchiveVisitor for V {
        type Out = Result<Box<dyn DynArchive>, ResourceStorageError>;
        fn visit<A: ModelArchive>(self) -> Self::Out {
            Ok(Box::new(Arc1(A::open(self.0)?)))
        }
    }
    with_archive(arch, V(st))
}
pub fn start_vector<'a>(
    s: usize,
    st: &'a dyn ResourceStorage,
    name: &'a str,
    schema: &'a str,
) -> std::io::Result<Box<dyn DynWriter + 'a>> {
    struct V<'a>(&'a dyn ResourceStorage, &'a str, &'a str);
    impl<'a> StructVisitor for V<'a> {
        type Out = std::io::Result<Box<dyn DynWriter + 'a>>;
        fn visit<S: ModelStruct>(self) -> Self::Out {
            Ok(Box::new(VecWriter::<S>(create_external_vector(self.0, self.1, self.2)?)))
        }
    }
    with_struct(s, V(st, name, schema))
}
pub fn start_multi<'a>(
    m: usize,
    st: &'a dyn ResourceStorage,
    name: &'a str,
    schema: &'a str,
) -> std::io::Result<Box<dyn DynWriter + 'a>> {
    struct W<'a>(&'a dyn ResourceStorage, &'a str, &'a str);
    impl<'a> MultiVisitor for W<'a> {
        type Out = std::io::Result<Box<dyn DynWriter + 'a>>;
        fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out {
            Ok(Box::new(MultiWriter::<I, V>(create_multi_vector(self.0, self.1, self.2)?)))
        }
    }
    with_multi(m, W(st, name, schema))
}
/// Reads a stored vector / multivector payload through views.
pub fn read_vector(s: usize, payload: &[u8]) -> Vec<Rec> {
    struct V<'a>(&'a [u8]);
    impl<'a> StructVisitor for V<'a> {
        type Out = Vec<Rec>;
        fn visit<S: ModelStruct>(self) -> Self::Out {
            recs_of::<S>(&ArrayView::new(self.0))
        }
    }
    with_struct(s, V(payload))
}
pub fn read_multi(m: usize, index: &[u8], data: &[u8]) -> Vec<Vec<(usize, Rec)>> {
    struct W<'a>(&'a [u8], &'a [u8]);
    impl<'a> MultiVisitor for W<'a> {
        type Out = Vec<Vec<(usize, Rec)>>;
        fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out {
            items_of::<I, V>(&MultiArrayView::new(ArrayView::new(self.0), self.1))
        }
    }
    with_multi(m, W(index, data))
}

//
// Generators
//

pub fn bits_strategy(width: usize) -> BoxedStrategy<u64> {
    let m = mask(width);
    prop_oneof![
        1 => Just(0u64),
        2 => Just(m),
        1 => Just(1u64),
        1 => Just(m & (1u64 << (width - 1))),
        1 => (0..width).prop_map(|b| 1u64 << b),
        1 => (0..width).prop_map(move |b| m ^ (1u64 << b)),
        1 => Just(0xaaaa_aaaa_aaaa_aaaa & m),
        1 => Just(0x5555_5555_5555_5555 & m),
        4 => any::<u64>().prop_map(move |v| v & m),
    ]
    .boxed()
}
/// A fitting value of a field, as it reads back.
pub fn field_strategy(f: &'static FieldSpec) -> BoxedStrategy<u64> {
    let (ty, w) = (f.ty, f.width);
    bits_strategy(w).prop_map(move |b| from_bits(ty, w, b)).boxed()
}
pub fn rec_strategy(s: usize) -> BoxedStrategy<Rec> {
    let v: Vec<_> = STRUCTS[s].fields.iter().map(field_strategy).collect();
    v.boxed()
}
pub fn recs_strategy(s: usize, max: usize) -> BoxedStrategy<Vec<Rec>> {
    prop::collection::vec(rec_strategy(s), 0..=max).boxed()
}
pub fn item_strategy(v: usize, max: usize) -> BoxedStrategy<Vec<(usize, Rec)>> {
    let types = VARIADICS[v].types;
    let el: Vec<BoxedStrategy<(usize, Rec)>> =
        types.iter().enumerate().map(|(k, (_, s))| rec_strategy(*s).prop_map(move |r| (k, r)).boxed()).collect();
    let el = prop::strategy::Union::new(el);
    prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(el, 0..=max)].boxed()
}
/// Items whose data fits the index width.
pub fn items_strategy(v: usize, index: usize, max_items: usize, max_el: usize) -> BoxedStrategy<Vec<Vec<(usize, Rec)>>> {
    let bytes = STRUCTS[index].size;
    let cap = if bytes >= 8 { u64::max_value() } else { (1u64 << (bytes * 8)) - 1 };
    prop::collection::vec(item_strategy(v, max_el), 0..=max_items)
        .prop_map(move |items| {
            // drop elements that no longer fit what the index can address
            let mut total = 0u64;
            items
                .into_iter()
                .map(|it| {
                    it.into_iter()
                        .filter(|(k, _)| {
                            let sz = 1 + STRUCTS[VARIADICS[v].types[*k].1].size as u64;
                            if total + sz <= cap {
                                total += sz;
                                true
                            } else {
                                false
                            }
                        })
                        .collect()
                })
                .collect()
        })
        .boxed()
}
pub fn content_strategy(k: Kind, size: usize) -> BoxedStrategy<Content> {
    match k {
        Kind::Struct(s) => rec_strategy(s).prop_map(Content::Struct).boxed(),
        Kind::Vector(s) => recs_strategy(s, size).prop_map(Content::Vector).boxed(),
        Kind::Multi(v, i) => items_strategy(v, i, size, 3).prop_map(Content::Multi).boxed(),
        Kind::Raw => prop::collection::vec(any::<u8>(), 0..=size * 4).prop_map(Content::Raw).boxed(),
        Kind::Sub(a) => arch_strategy(a, size).prop_map(Content::Sub).boxed(),
    }
}
/// Complete contents of an archive: mandatory resources present, optional ones sometimes.
pub fn arch_strategy(a: usize, size: usize) -> BoxedStrategy<ArchContent> {
    let v: Vec<BoxedStrategy<Option<Content>>> = ARCHIVES[a]
        .res
        .iter()
        .map(|r| {
            let c = content_strategy(r.kind, size);
            if r.optional {
                prop_oneof![1 => Just(None), 2 => c.prop_map(Some)].boxed()
            } else {
                c.prop_map(Some).boxed()
            }
        })
        .collect();
    v.boxed()
}

/// All files (path relative to the archive directory -> bytes) an archive with these contents consists of.
pub fn encode_archive(a: usize, c: &ArchContent, prefix: &str, out: &mut std::collections::BTreeMap<String, Vec<u8>>) {
    let spec = &ARCHIVES[a];
    let mut put = |name: String, schema: String, payload: &[u8]| {
        out.insert(format!("{}{}", prefix, name), frame(payload));
        out.insert(format!("{}{}.schema", prefix, name), schema.into_bytes());
    };
    put(format!("{}.archive", spec.name), spec.schema.into(), &[]);
    for (r, c) in spec.res.iter().zip(c) {
        match (r.kind, c) {
            (_, None) => {}
            (Kind::Struct(s), Some(Content::Struct(rec))) => {
                put(r.name.into(), r.schema.into(), &STRUCTS[s].encode(rec))
            }
            (Kind::Vector(s), Some(Content::Vector(v))) => put(r.name.into(), r.schema.into(), &encode_vec(s, v)),
            (Kind::Multi(v, i), Some(Content::Multi(items))) => {
                let (idx, data) = encode_multi(v, i, items);
                put(format!("{}_index", r.name), format!("index({})", r.schema), &idx);
                put(r.name.into(), r.schema.into(), &data);
            }
            (Kind::Raw, Some(Content::Raw(d))) => put(r.name.into(), r.schema.into(), d),
            (Kind::Sub(_), Some(Content::Sub(_))) => {}
            _ => panic!("harness: content kind"),
        }
    }
    for (r, c) in spec.res.iter().zip(c) {
        if let (Kind::Sub(s), Some(Content::Sub(cc))) = (r.kind, c) {
            encode_archive(s, cc, &format!("{}{}/", prefix, r.name), out);
        }
    }
}

pub use crate::schemas::*;
