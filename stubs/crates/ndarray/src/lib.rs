//! Stand-in for the part of ndarray the circuit crate names: strided row-major arrays over a flat buffer.
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Axis(pub usize);
impl Axis { pub fn index(self) -> usize { self.0 } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrorKind { IncompatibleShape, OutOfBounds }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ShapeError(pub ErrorKind);
impl fmt::Display for ShapeError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "ShapeError {:?}", self.0) } }
impl std::error::Error for ShapeError {}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct IxDynImpl(pub Vec<usize>);
pub type IxDyn = IxDynImpl;
#[allow(non_snake_case)]
pub fn IxDyn(s: &[usize]) -> IxDynImpl { IxDynImpl(s.to_vec()) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dim<const N: usize>(pub [usize; N]);
pub type Ix1 = Dim<1>;
pub type Ix2 = Dim<2>;
pub type Ix3 = Dim<3>;
pub type Ix4 = Dim<4>;
#[allow(non_snake_case)] pub fn Ix1(a: usize) -> Ix1 { Dim([a]) }
#[allow(non_snake_case)] pub fn Ix2(a: usize, b: usize) -> Ix2 { Dim([a, b]) }
#[allow(non_snake_case)] pub fn Ix3(a: usize, b: usize, c: usize) -> Ix3 { Dim([a, b, c]) }
#[allow(non_snake_case)] pub fn Ix4(a: usize, b: usize, c: usize, d: usize) -> Ix4 { Dim([a, b, c, d]) }

pub trait Dimension: Clone + fmt::Debug + PartialEq {
    type Pattern;
    const NDIM: Option<usize>;
    fn from_shape(s: &[usize]) -> Self;
    fn to_vec(&self) -> Vec<usize>;
    fn pattern(s: &[usize]) -> Self::Pattern;
    fn slice(&self) -> &[usize];
    fn ndim(&self) -> usize { self.slice().len() }
}
impl Dimension for IxDynImpl {
    type Pattern = IxDynImpl;
    const NDIM: Option<usize> = None;
    fn from_shape(s: &[usize]) -> Self { IxDynImpl(s.to_vec()) }
    fn to_vec(&self) -> Vec<usize> { self.0.clone() }
    fn pattern(s: &[usize]) -> IxDynImpl { IxDynImpl(s.to_vec()) }
    fn slice(&self) -> &[usize] { &self.0 }
}
impl IxDynImpl { pub fn size(&self) -> usize { count(&self.0) } }
impl std::ops::Deref for IxDynImpl { type Target = [usize]; fn deref(&self) -> &[usize] { &self.0 } }
macro_rules! dims { ($($n:literal $p:ty, |$s:ident| $e:expr);*) => { $(impl Dimension for Dim<$n> {
    type Pattern = $p;
    const NDIM: Option<usize> = Some($n);
    fn from_shape(s: &[usize]) -> Self { let mut a = [0; $n]; a.copy_from_slice(s); Dim(a) }
    fn to_vec(&self) -> Vec<usize> { self.0.to_vec() }
    fn pattern($s: &[usize]) -> $p { $e }
    fn slice(&self) -> &[usize] { &self.0 }
})* } }
dims!(1 usize, |s| s[0]; 2 (usize, usize), |s| (s[0], s[1]); 3 (usize, usize, usize), |s| (s[0], s[1], s[2]); 4 (usize, usize, usize, usize), |s| (s[0], s[1], s[2], s[3]));

pub trait IntoDimension { type Dim: Dimension; fn into_dimension(self) -> Self::Dim; }
impl IntoDimension for IxDynImpl { type Dim = IxDynImpl; fn into_dimension(self) -> IxDynImpl { self } }
impl IntoDimension for Vec<usize> { type Dim = IxDynImpl; fn into_dimension(self) -> IxDynImpl { IxDynImpl(self) } }
impl<'a> IntoDimension for &'a [usize] { type Dim = IxDynImpl; fn into_dimension(self) -> IxDynImpl { IxDynImpl(self.to_vec()) } }
impl<const N: usize> IntoDimension for Dim<N> where Dim<N>: Dimension { type Dim = Dim<N>; fn into_dimension(self) -> Dim<N> { self } }
impl<const N: usize> IntoDimension for [usize; N] where Dim<N>: Dimension { type Dim = Dim<N>; fn into_dimension(self) -> Dim<N> { Dim(self) } }
impl IntoDimension for usize { type Dim = Ix1; fn into_dimension(self) -> Ix1 { Dim([self]) } }
impl IntoDimension for (usize, usize) { type Dim = Ix2; fn into_dimension(self) -> Ix2 { Dim([self.0, self.1]) } }
impl IntoDimension for (usize, usize, usize) { type Dim = Ix3; fn into_dimension(self) -> Ix3 { Dim([self.0, self.1, self.2]) } }
impl IntoDimension for (usize, usize, usize, usize) { type Dim = Ix4; fn into_dimension(self) -> Ix4 { Dim([self.0, self.1, self.2, self.3]) } }
pub trait ShapeBuilder { type Dim: Dimension; fn shape_dim(self) -> Self::Dim; }
impl<T: IntoDimension> ShapeBuilder for T { type Dim = T::Dim; fn shape_dim(self) -> T::Dim { self.into_dimension() } }

pub trait NdIndex { fn idx(&self) -> Vec<usize>; }
impl NdIndex for usize { fn idx(&self) -> Vec<usize> { vec![*self] } }
impl<const N: usize> NdIndex for [usize; N] { fn idx(&self) -> Vec<usize> { self.to_vec() } }
impl NdIndex for IxDynImpl { fn idx(&self) -> Vec<usize> { self.0.clone() } }
impl<'a> NdIndex for &'a IxDynImpl { fn idx(&self) -> Vec<usize> { self.0.clone() } }
impl<'a> NdIndex for &'a [usize] { fn idx(&self) -> Vec<usize> { self.to_vec() } }
impl<'a> NdIndex for &'a Vec<usize> { fn idx(&self) -> Vec<usize> { self.to_vec() } }
impl NdIndex for (usize, usize) { fn idx(&self) -> Vec<usize> { vec![self.0, self.1] } }
impl NdIndex for (usize, usize, usize) { fn idx(&self) -> Vec<usize> { vec![self.0, self.1, self.2] } }
impl NdIndex for (usize, usize, usize, usize) { fn idx(&self) -> Vec<usize> { vec![self.0, self.1, self.2, self.3] } }

pub trait Data { type Elem; fn buf(&self) -> &[Self::Elem]; }
pub trait DataMut: Data { fn buf_mut(&mut self) -> &mut [Self::Elem]; }
pub struct OwnedRepr<A>(pub Vec<A>);
pub struct ViewRepr<'a, A>(pub &'a [A]);
pub struct ViewMutRepr<'a, A>(pub &'a mut [A]);
impl<A> Data for OwnedRepr<A> { type Elem = A; fn buf(&self) -> &[A] { &self.0 } }
impl<A> DataMut for OwnedRepr<A> { fn buf_mut(&mut self) -> &mut [A] { &mut self.0 } }
impl<'a, A> Data for ViewRepr<'a, A> { type Elem = A; fn buf(&self) -> &[A] { self.0 } }
impl<'a, A> Data for ViewMutRepr<'a, A> { type Elem = A; fn buf(&self) -> &[A] { self.0 } }
impl<'a, A> DataMut for ViewMutRepr<'a, A> { fn buf_mut(&mut self) -> &mut [A] { self.0 } }
impl<A: Clone> Clone for OwnedRepr<A> { fn clone(&self) -> Self { OwnedRepr(self.0.clone()) } }
impl<'a, A> Clone for ViewRepr<'a, A> { fn clone(&self) -> Self { ViewRepr(self.0) } }

pub struct ArrayBase<S, D> { data: S, shape: Vec<usize>, strides: Vec<usize>, off: usize, dim: PhantomData<D> }
pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<'a, A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewMutRepr<'a, A>, D>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type ArrayViewD<'a, A> = ArrayView<'a, A, IxDyn>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type Array3<A> = Array<A, Ix3>;
pub type Array4<A> = Array<A, Ix4>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;

pub fn count(s: &[usize]) -> usize { let mut n = 1; for d in s { n *= *d; } n }
fn row_major(s: &[usize]) -> Vec<usize> {
    let mut st = vec![0; s.len()];
    let mut acc = 1;
    let mut i = s.len();
    while i > 0 { i -= 1; st[i] = acc; acc *= s[i]; }
    st
}
fn offsets(shape: &[usize], strides: &[usize], off: usize) -> Vec<usize> {
    let n = count(shape);
    let mut out = Vec::with_capacity(n);
    for k in 0..n {
        let mut rem = k;
        let mut o = off;
        let mut i = shape.len();
        while i > 0 { i -= 1; o += (rem % shape[i]) * strides[i]; rem /= shape[i]; }
        out.push(o);
    }
    out
}
impl<S: Clone, D> Clone for ArrayBase<S, D> { fn clone(&self) -> Self { ArrayBase { data: self.data.clone(), shape: self.shape.clone(), strides: self.strides.clone(), off: self.off, dim: PhantomData } } }
impl<S: Data, D> fmt::Debug for ArrayBase<S, D> where S::Elem: fmt::Debug { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.shape) } }
impl<S: Data, S2: Data, D> PartialEq<ArrayBase<S2, D>> for ArrayBase<S, D> where S::Elem: PartialEq<S2::Elem> {
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool { self.shape == o.shape && self.iter().zip(o.iter()).all(|(a, b)| a == b) }
}
impl<A: Default> Default for Array<A, IxDyn> { fn default() -> Self { ArrayBase { data: OwnedRepr(Vec::new()), shape: vec![0], strides: vec![1], off: 0, dim: PhantomData } } }

impl<A, D: Dimension> Array<A, D> {
    pub fn from_shape_vec<Sh: ShapeBuilder<Dim = D>>(shape: Sh, v: Vec<A>) -> Result<Self, ShapeError> {
        let shape = shape.shape_dim().to_vec();
        if count(&shape) != v.len() { return Err(ShapeError(ErrorKind::IncompatibleShape)); }
        let strides = row_major(&shape);
        Ok(ArrayBase { data: OwnedRepr(v), shape, strides, off: 0, dim: PhantomData })
    }
    pub fn from_elem<Sh: ShapeBuilder<Dim = D>>(shape: Sh, e: A) -> Self where A: Clone {
        let shape = shape.shape_dim().to_vec();
        let strides = row_major(&shape);
        ArrayBase { data: OwnedRepr(vec![e; count(&shape)]), shape, strides, off: 0, dim: PhantomData }
    }
    pub fn default<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self where A: Default {
        let shape = shape.shape_dim().to_vec();
        let strides = row_major(&shape);
        let mut v = Vec::new();
        for _ in 0..count(&shape) { v.push(A::default()); }
        ArrayBase { data: OwnedRepr(v), shape, strides, off: 0, dim: PhantomData }
    }
    pub fn into_shape_with_order<Sh: IntoDimension>(self, shape: Sh) -> Result<Array<A, Sh::Dim>, ShapeError> {
        let shape = shape.into_dimension().to_vec();
        if count(&shape) != count(&self.shape) { return Err(ShapeError(ErrorKind::IncompatibleShape)); }
        if self.strides != row_major(&self.shape) { return Err(ShapeError(ErrorKind::IncompatibleShape)); }
        let strides = row_major(&shape);
        Ok(ArrayBase { data: self.data, shape, strides, off: self.off, dim: PhantomData })
    }
    pub fn into_raw_vec_and_offset(self) -> (Vec<A>, Option<usize>) { (self.data.0, Some(self.off)) }
}
impl<A> Array<A, Ix1> { pub fn from_vec(v: Vec<A>) -> Self { let n = v.len(); ArrayBase { data: OwnedRepr(v), shape: vec![n], strides: vec![1], off: 0, dim: PhantomData } } }
impl<A, D> IntoIterator for Array<A, D> {
    type Item = A;
    type IntoIter = std::vec::IntoIter<A>;
    fn into_iter(self) -> std::vec::IntoIter<A> {
        if self.strides == row_major(&self.shape) { return self.data.0.into_iter(); }
        let mut slots: Vec<Option<A>> = self.data.0.into_iter().map(Some).collect();
        let mut out = Vec::new();
        for o in offsets(&self.shape, &self.strides, self.off) { out.push(slots[o].take().unwrap()); }
        out.into_iter()
    }
}
impl<'a, S: Data, D> IntoIterator for &'a ArrayBase<S, D> { type Item = &'a S::Elem; type IntoIter = std::vec::IntoIter<&'a S::Elem>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<'a, A, D> IntoIterator for ArrayView<'a, A, D> {
    type Item = &'a A;
    type IntoIter = std::vec::IntoIter<&'a A>;
    fn into_iter(self) -> Self::IntoIter { let b = self.data.0; let mut out = Vec::new(); for o in offsets(&self.shape, &self.strides, self.off) { out.push(&b[o]); } out.into_iter() }
}
impl<S: Data, D> ArrayBase<S, D> {
    pub fn shape(&self) -> &[usize] { &self.shape }
    pub fn strides(&self) -> Vec<isize> { self.strides.iter().map(|s| *s as isize).collect() }
    pub fn ndim(&self) -> usize { self.shape.len() }
    pub fn len(&self) -> usize { count(&self.shape) }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn len_of(&self, a: Axis) -> usize { self.shape[a.0] }
    pub fn raw_dim(&self) -> D where D: Dimension { D::from_shape(&self.shape) }
    pub fn dim(&self) -> D::Pattern where D: Dimension { D::pattern(&self.shape) }
    pub fn nrows(&self) -> usize { self.shape[0] }
    pub fn ncols(&self) -> usize { self.shape[1] }
    pub fn iter(&self) -> std::vec::IntoIter<&S::Elem> {
        let b = self.data.buf();
        let mut out = Vec::new();
        for o in offsets(&self.shape, &self.strides, self.off) { out.push(&b[o]); }
        out.into_iter()
    }
    pub fn indexed_iter(&self) -> std::vec::IntoIter<(D::Pattern, &S::Elem)> where D: Dimension {
        let st = row_major(&self.shape);
        let mut out = Vec::new();
        for (k, e) in self.iter().enumerate() {
            let ix: Vec<usize> = (0..self.shape.len()).map(|i| k / st[i] % self.shape[i]).collect();
            out.push((D::pattern(&ix), e));
        }
        out.into_iter()
    }
    pub fn is_standard_layout(&self) -> bool { self.strides == row_major(&self.shape) }
    pub fn as_slice(&self) -> Option<&[S::Elem]> { if self.is_standard_layout() { Some(&self.data.buf()[self.off..self.off + count(&self.shape)]) } else { None } }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]> where S: DataMut { if self.is_standard_layout() { let (a, n) = (self.off, count(&self.shape)); Some(&mut self.data.buf_mut()[a..a + n]) } else { None } }
    fn at(&self, i: &[usize]) -> Option<usize> {
        if i.len() != self.shape.len() { return None; }
        let mut o = self.off;
        for k in 0..i.len() { if i[k] >= self.shape[k] { return None; } o += i[k] * self.strides[k]; }
        Some(o)
    }
    pub fn get<I: NdIndex>(&self, i: I) -> Option<&S::Elem> { match self.at(&i.idx()) { Some(o) => Some(&self.data.buf()[o]), None => None } }
    pub fn get_mut<I: NdIndex>(&mut self, i: I) -> Option<&mut S::Elem> where S: DataMut { match self.at(&i.idx()) { Some(o) => Some(&mut self.data.buf_mut()[o]), None => None } }
    pub fn first(&self) -> Option<&S::Elem> { self.iter().next() }
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> { ArrayBase { data: ViewRepr(self.data.buf()), shape: self.shape.clone(), strides: self.strides.clone(), off: self.off, dim: PhantomData } }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D> where S: DataMut { ArrayBase { shape: self.shape.clone(), strides: self.strides.clone(), off: self.off, data: ViewMutRepr(self.data.buf_mut()), dim: PhantomData } }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> { ArrayBase { data: self.data, shape: self.shape, strides: self.strides, off: self.off, dim: PhantomData } }
    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        if let Some(n) = D2::NDIM { if n != self.shape.len() { return Err(ShapeError(ErrorKind::IncompatibleShape)); } }
        Ok(ArrayBase { data: self.data, shape: self.shape, strides: self.strides, off: self.off, dim: PhantomData })
    }
    pub fn permuted_axes<I: IntoDimension>(self, axes: I) -> ArrayBase<S, D> {
        let ax = axes.into_dimension().to_vec();
        let shape = ax.iter().map(|i| self.shape[*i]).collect();
        let strides = ax.iter().map(|i| self.strides[*i]).collect();
        ArrayBase { data: self.data, shape, strides, off: self.off, dim: PhantomData }
    }
    pub fn reversed_axes(mut self) -> ArrayBase<S, D> { self.shape.reverse(); self.strides.reverse(); self }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> { self.view().reversed_axes() }
    pub fn swap_axes(&mut self, a: usize, b: usize) { self.shape.swap(a, b); self.strides.swap(a, b); }
    pub fn to_owned(&self) -> Array<S::Elem, D> where S::Elem: Clone {
        let mut v = Vec::new();
        for e in self.iter() { v.push(e.clone()); }
        ArrayBase { data: OwnedRepr(v), strides: row_major(&self.shape), shape: self.shape.clone(), off: 0, dim: PhantomData }
    }
    pub fn into_owned(self) -> Array<S::Elem, D> where S::Elem: Clone { self.to_owned() }
    pub fn as_standard_layout(&self) -> Array<S::Elem, D> where S::Elem: Clone { self.to_owned() }
    pub fn to_shape<Sh: IntoDimension>(&self, shape: Sh) -> Result<Array<S::Elem, Sh::Dim>, ShapeError> where S::Elem: Clone, D: Dimension { self.to_owned().into_shape_with_order(shape) }
    pub fn map<B, F: FnMut(&S::Elem) -> B>(&self, mut f: F) -> Array<B, D> {
        let mut v = Vec::new();
        for e in self.iter() { v.push(f(e)); }
        ArrayBase { data: OwnedRepr(v), strides: row_major(&self.shape), shape: self.shape.clone(), off: 0, dim: PhantomData }
    }
    pub fn mapv<B, F: FnMut(S::Elem) -> B>(&self, mut f: F) -> Array<B, D> where S::Elem: Clone { self.map(|e| f(e.clone())) }
    pub fn fill(&mut self, e: S::Elem) where S: DataMut, S::Elem: Clone { for o in offsets(&self.shape, &self.strides, self.off) { self.data.buf_mut()[o] = e.clone(); } }
    pub fn assign<S2: Data<Elem = S::Elem>>(&mut self, o: &ArrayBase<S2, D>) where S: DataMut, S::Elem: Clone {
        let src: Vec<S::Elem> = o.iter().cloned().collect();
        for (k, p) in offsets(&self.shape, &self.strides, self.off).into_iter().enumerate() { self.data.buf_mut()[p] = src[k].clone(); }
    }
    pub fn broadcast<Sh: IntoDimension>(&self, shape: Sh) -> Option<ArrayView<'_, S::Elem, Sh::Dim>> {
        let target = shape.into_dimension().to_vec();
        if target.len() < self.shape.len() { return None; }
        let lead = target.len() - self.shape.len();
        let mut strides = vec![0; target.len()];
        for i in 0..self.shape.len() {
            if self.shape[i] == target[lead + i] { strides[lead + i] = self.strides[i]; } else if self.shape[i] != 1 { return None; }
        }
        Some(ArrayBase { data: ViewRepr(self.data.buf()), shape: target, strides, off: self.off, dim: PhantomData })
    }
    pub fn index_axis(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, IxDyn> {
        assert!(i < self.shape[a.0]);
        let mut v = self.view().into_dyn();
        v.off += i * v.strides[a.0]; v.shape.remove(a.0); v.strides.remove(a.0);
        v
    }
    pub fn insert_axis(mut self, a: Axis) -> ArrayBase<S, IxDyn> { self.shape.insert(a.0, 1); self.strides.insert(a.0, 0); self.into_dyn() }
    pub fn lanes(&self, a: Axis) -> Vec<ArrayView<'_, S::Elem, Ix1>> {
        let mut sh = self.shape.clone(); let mut st = self.strides.clone();
        let n = sh.remove(a.0); let s = st.remove(a.0);
        let mut out = Vec::new();
        for o in offsets(&sh, &st, self.off) { out.push(ArrayBase { data: ViewRepr(self.data.buf()), shape: vec![n], strides: vec![s], off: o, dim: PhantomData }); }
        out
    }
    pub fn lanes_mut(&mut self, a: Axis) -> Vec<LaneMut<'_, S::Elem>> where S: DataMut {
        let mut sh = self.shape.clone(); let mut st = self.strides.clone();
        let n = sh.remove(a.0); let s = st.remove(a.0); let off = self.off;
        let mut slots: Vec<Option<&mut S::Elem>> = self.data.buf_mut().iter_mut().map(Some).collect();
        let mut out = Vec::new();
        for o in offsets(&sh, &st, off) { let mut l = Vec::new(); for k in 0..n { l.push(slots[o + k * s].take().unwrap()); } out.push(LaneMut(l)); }
        out
    }
    fn cut(&self, info: &[SliceElem]) -> (Vec<usize>, Vec<usize>, usize) {
        assert_eq!(info.len(), self.shape.len());
        let mut sh = Vec::new(); let mut st = Vec::new(); let mut off = self.off;
        for i in 0..info.len() {
            match info[i] {
                SliceElem::Index(k) => { assert!(k < self.shape[i]); off += k * self.strides[i]; }
                SliceElem::Range(a, b) => { let b = match b { Some(b) => b, None => self.shape[i] }; assert!(a <= b && b <= self.shape[i]); off += a * self.strides[i]; sh.push(b - a); st.push(self.strides[i]); }
            }
        }
        (sh, st, off)
    }
    pub fn slice<D2: Dimension>(&self, info: SliceInfo<D2>) -> ArrayView<'_, S::Elem, D2> { let (shape, strides, off) = self.cut(&info.0); ArrayBase { data: ViewRepr(self.data.buf()), shape, strides, off, dim: PhantomData } }
    pub fn slice_mut<D2: Dimension>(&mut self, info: SliceInfo<D2>) -> ArrayViewMut<'_, S::Elem, D2> where S: DataMut { let (shape, strides, off) = self.cut(&info.0); ArrayBase { data: ViewMutRepr(self.data.buf_mut()), shape, strides, off, dim: PhantomData } }
}
impl<S: Data, D, I: NdIndex> Index<I> for ArrayBase<S, D> { type Output = S::Elem; fn index(&self, i: I) -> &S::Elem { match self.at(&i.idx()) { Some(o) => &self.data.buf()[o], None => panic!("ndarray: index out of bounds") } } }
impl<S: DataMut, D, I: NdIndex> IndexMut<I> for ArrayBase<S, D> { fn index_mut(&mut self, i: I) -> &mut S::Elem { match self.at(&i.idx()) { Some(o) => &mut self.data.buf_mut()[o], None => panic!("ndarray: index out of bounds") } } }

#[derive(Clone, Copy, Debug)]
pub enum SliceElem { Index(usize), Range(usize, Option<usize>) }
pub struct SliceInfo<D>(pub Vec<SliceElem>, pub PhantomData<D>);
pub trait ToSlice { type Keep; fn el(self) -> SliceElem; }
pub struct Keep; pub struct Gone;
macro_rules! ts { ($($t:ty),*) => { $(
    impl ToSlice for $t { type Keep = Gone; fn el(self) -> SliceElem { SliceElem::Index(self as usize) } }
    impl ToSlice for std::ops::Range<$t> { type Keep = Keep; fn el(self) -> SliceElem { SliceElem::Range(self.start as usize, Some(self.end as usize)) } }
    impl ToSlice for std::ops::RangeInclusive<$t> { type Keep = Keep; fn el(self) -> SliceElem { SliceElem::Range(*self.start() as usize, Some(*self.end() as usize + 1)) } }
    impl ToSlice for std::ops::RangeFrom<$t> { type Keep = Keep; fn el(self) -> SliceElem { SliceElem::Range(self.start as usize, None) } }
    impl ToSlice for std::ops::RangeTo<$t> { type Keep = Keep; fn el(self) -> SliceElem { SliceElem::Range(0, Some(self.end as usize)) } }
)* } }
ts!(usize, i32);
impl ToSlice for std::ops::RangeFull { type Keep = Keep; fn el(self) -> SliceElem { SliceElem::Range(0, None) } }
pub trait SliceDim { type Out; }
macro_rules! sd { ($($a:ident $b:ident $c:ident => $o:ty);*) => { $(impl SliceDim for ($a, $b, $c) { type Out = $o; })* } }
sd!(Gone Keep Keep => Ix2; Keep Keep Keep => Ix3; Gone Gone Keep => Ix1);
macro_rules! sd4 { ($($a:ident $b:ident $c:ident $d:ident => $o:ty);*) => { $(impl SliceDim for ($a, $b, $c, $d) { type Out = $o; })* } }
sd4!(Keep Gone Keep Keep => Ix3; Keep Keep Keep Keep => Ix4; Gone Gone Keep Keep => Ix2);
impl SliceDim for (Keep, Keep) { type Out = Ix2; }
impl SliceDim for (Gone, Keep) { type Out = Ix1; }
impl SliceDim for (Keep, Gone) { type Out = Ix1; }
pub fn mk2<A: ToSlice, B: ToSlice>(a: A, b: B) -> SliceInfo<<(A::Keep, B::Keep) as SliceDim>::Out> where (A::Keep, B::Keep): SliceDim { SliceInfo(vec![a.el(), b.el()], PhantomData) }
pub fn mk3<A: ToSlice, B: ToSlice, C: ToSlice>(a: A, b: B, c: C) -> SliceInfo<<(A::Keep, B::Keep, C::Keep) as SliceDim>::Out> where (A::Keep, B::Keep, C::Keep): SliceDim { SliceInfo(vec![a.el(), b.el(), c.el()], PhantomData) }
pub fn mk4<A: ToSlice, B: ToSlice, C: ToSlice, E: ToSlice>(a: A, b: B, c: C, d: E) -> SliceInfo<<(A::Keep, B::Keep, C::Keep, E::Keep) as SliceDim>::Out> where (A::Keep, B::Keep, C::Keep, E::Keep): SliceDim { SliceInfo(vec![a.el(), b.el(), c.el(), d.el()], PhantomData) }
#[macro_export]
macro_rules! s {
    ($a:expr, $b:expr) => { $crate::mk2($a, $b) };
    ($a:expr, $b:expr, $c:expr) => { $crate::mk3($a, $b, $c) };
    ($a:expr, $b:expr, $c:expr, $d:expr) => { $crate::mk4($a, $b, $c, $d) };
}
#[macro_export]
macro_rules! array { ($($x:expr),* $(,)?) => { $crate::Array1::from_vec(vec![$($x),*]) } }
pub fn concatenate<A: Clone, D: Dimension>(a: Axis, arrays: &[ArrayView<'_, A, D>]) -> Result<Array<A, D>, ShapeError> {
    if arrays.is_empty() { return Err(ShapeError(ErrorKind::IncompatibleShape)); }
    let mut shape = arrays[0].shape.clone();
    if a.0 >= shape.len() { return Err(ShapeError(ErrorKind::OutOfBounds)); }
    let mut total = 0;
    for x in arrays {
        if x.shape.len() != shape.len() { return Err(ShapeError(ErrorKind::IncompatibleShape)); }
        for i in 0..shape.len() { if i != a.0 && x.shape[i] != shape[i] { return Err(ShapeError(ErrorKind::IncompatibleShape)); } }
        total += x.shape[a.0];
    }
    shape[a.0] = total;
    let outer = count(&shape[..a.0]);
    let inner = count(&shape[a.0 + 1..]);
    let mut v = Vec::new();
    for o in 0..outer {
        for x in arrays {
            let flat: Vec<&A> = x.iter().collect();
            let n = x.shape[a.0] * inner;
            for k in 0..n { v.push(flat[o * n + k].clone()); }
        }
    }
    Ok(ArrayBase { data: OwnedRepr(v), strides: row_major(&shape), shape, off: 0, dim: PhantomData })
}
pub struct Zip<P>(P);
impl<'a, A, D> Zip<(&'a mut Array<A, D>,)> { pub fn from(a: &'a mut Array<A, D>) -> Self { Zip((a,)) } pub fn and<'b, S: Data, D2>(self, b: &'b ArrayBase<S, D2>) -> Zip<(&'a mut Array<A, D>, &'b ArrayBase<S, D2>)> { assert_eq!(self.0.0.shape, b.shape); Zip((self.0.0, b)) } }
impl<'a, 'b, A, D, S: Data, D2> Zip<(&'a mut Array<A, D>, &'b ArrayBase<S, D2>)> {
    pub fn for_each<F: FnMut(&mut A, &S::Elem)>(self, mut f: F) {
        let (a, b) = self.0;
        let dst = offsets(&a.shape, &a.strides, a.off);
        for (o, e) in dst.into_iter().zip(b.iter()) { f(&mut a.data.0[o], e); }
    }
}

pub struct LaneMut<'a, A>(pub Vec<&'a mut A>);
impl<'a, A> LaneMut<'a, A> { pub fn iter_mut(&mut self) -> std::vec::IntoIter<&mut A> { let mut v = Vec::new(); for e in self.0.iter_mut() { v.push(&mut **e); } v.into_iter() } pub fn len(&self) -> usize { self.0.len() } }
impl<'a, A> Index<usize> for LaneMut<'a, A> { type Output = A; fn index(&self, i: usize) -> &A { &*self.0[i] } }
impl<'a, A> IndexMut<usize> for LaneMut<'a, A> { fn index_mut(&mut self, i: usize) -> &mut A { &mut *self.0[i] } }
impl<const N: usize> Index<usize> for Dim<N> { type Output = usize; fn index(&self, i: usize) -> &usize { &self.0[i] } }
impl<const N: usize> IndexMut<usize> for Dim<N> { fn index_mut(&mut self, i: usize) -> &mut usize { &mut self.0[i] } }
