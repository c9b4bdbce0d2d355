//! Stand-in for `flatbuffers` 22: the same interface as far as flatc's output for the repository's schemas and the serialiser use
//! it, on a simpler format. Bytes 0-3 hold the root's position, 4-7 the identifier. A table is its fields of 8 bytes each, a vector
//! is its length and items of 8 bytes each, a string is its length and its bytes; positions are from the start, 0 means absent.
use std::marker::PhantomData;

pub type UOffsetT = u32;

pub struct UnionWIPOffset;
pub struct WIPOffset<T>(UOffsetT, PhantomData<T>);
impl<T> Clone for WIPOffset<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for WIPOffset<T> {}
impl<T> WIPOffset<T> {
    pub fn new(o: UOffsetT) -> Self {
        Self(o, PhantomData)
    }
    pub fn value(self) -> UOffsetT {
        self.0
    }
    pub fn as_union_value(self) -> WIPOffset<UnionWIPOffset> {
        WIPOffset::new(self.0)
    }
}
pub struct ForwardsUOffset<T>(PhantomData<T>);

/// What a vector or table field can hold in its 8 bytes.
pub trait Push: Copy {
    type Output;
    fn bits(self) -> u64;
}
impl<T> Push for WIPOffset<T> {
    type Output = ForwardsUOffset<T>;
    fn bits(self) -> u64 {
        self.0 as u64
    }
}
/// How it is read back.
pub trait Follow<'a> {
    type Inner;
    fn follow(buf: &'a [u8], bits: u64) -> Self::Inner;
}
impl<'a, T: Follow<'a>> Follow<'a> for ForwardsUOffset<T> {
    type Inner = T::Inner;
    fn follow(buf: &'a [u8], bits: u64) -> T::Inner {
        T::follow(buf, bits)
    }
}
impl<'a> Follow<'a> for &'a str {
    type Inner = &'a str;
    fn follow(buf: &'a [u8], bits: u64) -> &'a str {
        let n = word(buf, bits as usize) as usize;
        let from = bits as usize + 8;
        unsafe { std::str::from_utf8_unchecked(&buf[from..from + n]) }
    }
}
impl<'a, 'b, T> Follow<'a> for Vector<'b, T> {
    type Inner = Vector<'a, T>;
    fn follow(buf: &'a [u8], bits: u64) -> Vector<'a, T> {
        Vector { buf, pos: bits as usize, _t: PhantomData }
    }
}
macro_rules! scalar {
    ($($t:ty, $via:ty);+) => { $(
        impl Push for $t {
            type Output = $t;
            fn bits(self) -> u64 { self as $via as u64 }
        }
        impl<'a> Follow<'a> for $t {
            type Inner = $t;
            fn follow(_: &'a [u8], bits: u64) -> $t { bits as $t }
        }
    )+ };
}
scalar!(u8, u8; u16, u16; u32, u32; u64, u64; i8, u8; i16, u16; i32, u32; i64, u64);
impl Push for bool {
    type Output = bool;
    fn bits(self) -> u64 {
        self as u64
    }
}
impl<'a> Follow<'a> for bool {
    type Inner = bool;
    fn follow(_: &'a [u8], bits: u64) -> bool {
        bits != 0
    }
}
impl Push for f32 {
    type Output = f32;
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl<'a> Follow<'a> for f32 {
    type Inner = f32;
    fn follow(_: &'a [u8], bits: u64) -> f32 {
        f32::from_bits(bits as u32)
    }
}
impl Push for f64 {
    type Output = f64;
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl<'a> Follow<'a> for f64 {
    type Inner = f64;
    fn follow(_: &'a [u8], bits: u64) -> f64 {
        f64::from_bits(bits)
    }
}

pub fn word(buf: &[u8], at: usize) -> u64 {
    let mut b = [0; 8];
    b.copy_from_slice(&buf[at..at + 8]);
    u64::from_le_bytes(b)
}

pub struct Vector<'a, T> {
    buf: &'a [u8],
    pos: usize,
    _t: PhantomData<T>,
}
impl<'a, T> Clone for Vector<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T> Copy for Vector<'a, T> {}
impl<'a, T: Follow<'a>> Vector<'a, T> {
    pub fn len(&self) -> usize {
        word(self.buf, self.pos) as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn get(&self, i: usize) -> T::Inner {
        assert!(i < self.len());
        T::follow(self.buf, word(self.buf, self.pos + 8 + 8 * i))
    }
    pub fn iter(&self) -> VectorIter<'a, T> {
        VectorIter { v: *self, at: 0, end: self.len() }
    }
}
pub struct VectorIter<'a, T> {
    v: Vector<'a, T>,
    at: usize,
    end: usize,
}
impl<'a, T: Follow<'a>> Iterator for VectorIter<'a, T> {
    type Item = T::Inner;
    fn next(&mut self) -> Option<T::Inner> {
        if self.at == self.end {
            return None;
        }
        self.at += 1;
        Some(self.v.get(self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl<'a, T: Follow<'a>> DoubleEndedIterator for VectorIter<'a, T> {
    fn next_back(&mut self) -> Option<T::Inner> {
        if self.at == self.end {
            return None;
        }
        self.end -= 1;
        Some(self.v.get(self.end))
    }
}
impl<'a, T: Follow<'a>> ExactSizeIterator for VectorIter<'a, T> {}
impl<'a, T: Follow<'a>> IntoIterator for Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}

pub struct FlatBufferBuilder<'fbb> {
    buf: Vec<u8>,
    finished: bool,
    _l: PhantomData<&'fbb ()>,
}
impl<'fbb> FlatBufferBuilder<'fbb> {
    pub fn new() -> Self {
        Self::with_capacity(0)
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self { buf: vec![0; 8], finished: false, _l: PhantomData }
    }
    pub fn reset(&mut self) {
        *self = Self::new();
    }
    fn put(&mut self, words: impl Iterator<Item = u64>) -> UOffsetT {
        assert!(!self.finished);
        let at = self.buf.len();
        for w in words {
            self.buf.extend_from_slice(&w.to_le_bytes());
        }
        at as UOffsetT
    }
    pub fn table<T>(&mut self, fields: &[u64]) -> WIPOffset<T> {
        WIPOffset::new(self.put(fields.iter().copied()))
    }
    pub fn create_string<'a: 'b, 'b>(&'a mut self, s: &'b str) -> WIPOffset<&'fbb str> {
        let at = self.put(std::iter::once(s.len() as u64));
        self.buf.extend_from_slice(s.as_bytes());
        WIPOffset::new(at)
    }
    pub fn create_vector<'a: 'b, 'b, T: Push + Copy + 'b>(&'a mut self, items: &'b [T]) -> WIPOffset<Vector<'fbb, T::Output>> {
        let at = self.put(std::iter::once(items.len() as u64).chain(items.iter().map(|x| x.bits())));
        WIPOffset::new(at)
    }
    pub fn create_vector_from_iter<T: Push + Copy>(
        &mut self,
        items: impl ExactSizeIterator<Item = T> + DoubleEndedIterator,
    ) -> WIPOffset<Vector<'fbb, T::Output>> {
        let at = self.put(std::iter::once(items.len() as u64).chain(items.map(|x| x.bits())));
        WIPOffset::new(at)
    }
    pub fn finish<T>(&mut self, root: WIPOffset<T>, identifier: Option<&str>) {
        self.buf[..4].copy_from_slice(&root.value().to_le_bytes());
        if let Some(i) = identifier {
            self.buf[4..8].copy_from_slice(i.as_bytes());
        }
        self.finished = true;
    }
    pub fn finished_data(&self) -> &[u8] {
        assert!(self.finished);
        &self.buf
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct InvalidFlatbuffer;
impl std::fmt::Display for InvalidFlatbuffer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "not a flatbuffer")
    }
}
impl std::error::Error for InvalidFlatbuffer {}

pub fn root<'a, T: Follow<'a> + 'a>(data: &'a [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    if data.len() < 8 {
        return Err(InvalidFlatbuffer);
    }
    let mut b = [0; 4];
    b.copy_from_slice(&data[..4]);
    Ok(T::follow(data, u32::from_le_bytes(b) as u64))
}
