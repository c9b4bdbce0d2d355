//! Stand-in: the part of `bimap` 0.6 the serialiser uses, on a plain list.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Overwritten<L, R> {
    Neither,
    Left(L, R),
    Right(L, R),
    Pair(L, R),
    Both((L, R), (L, R)),
}
#[derive(Debug, Clone)]
pub struct BiHashMap<L, R> {
    pairs: Vec<(L, R)>,
}
impl<L, R> Default for BiHashMap<L, R> {
    fn default() -> Self {
        Self { pairs: Vec::new() }
    }
}
impl<L: Eq, R: Eq> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.pairs.len()
    }
    pub fn is_empty(&self) -> bool {
        self.pairs.is_empty()
    }
    fn left(&self, l: &L) -> Option<usize> {
        self.pairs.iter().position(|p| p.0 == *l)
    }
    fn right(&self, r: &R) -> Option<usize> {
        self.pairs.iter().position(|p| p.1 == *r)
    }
    pub fn get_by_left(&self, l: &L) -> Option<&R> {
        self.left(l).map(|i| &self.pairs[i].1)
    }
    pub fn get_by_right(&self, r: &R) -> Option<&L> {
        self.right(r).map(|i| &self.pairs[i].0)
    }
    pub fn contains_left(&self, l: &L) -> bool {
        self.left(l).is_some()
    }
    pub fn contains_right(&self, r: &R) -> bool {
        self.right(r).is_some()
    }
    pub fn remove_by_left(&mut self, l: &L) -> Option<(L, R)> {
        self.left(l).map(|i| self.pairs.remove(i))
    }
    pub fn remove_by_right(&mut self, r: &R) -> Option<(L, R)> {
        self.right(r).map(|i| self.pairs.remove(i))
    }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> {
        let old = match (self.remove_by_left(&l), self.remove_by_right(&r)) {
            (None, None) => Overwritten::Neither,
            (None, Some((l, r))) => Overwritten::Right(l, r),
            (Some((l0, r0)), None) if r0 == r => Overwritten::Pair(l0, r0),
            (Some((l, r)), None) => Overwritten::Left(l, r),
            (Some(a), Some(b)) => Overwritten::Both(a, b),
        };
        self.pairs.push((l, r));
        old
    }
    pub fn insert_no_overwrite(&mut self, l: L, r: R) -> Result<(), (L, R)> {
        if self.contains_left(&l) || self.contains_right(&r) {
            return Err((l, r));
        }
        self.pairs.push((l, r));
        Ok(())
    }
    pub fn iter(&self) -> impl Iterator<Item = (&L, &R)> + '_ {
        self.pairs.iter().map(|p| (&p.0, &p.1))
    }
}
pub type BiMap<L, R> = BiHashMap<L, R>;
