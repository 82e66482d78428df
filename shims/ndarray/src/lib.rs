//! Stand-in for the part of `ndarray` the circuit crate uses (the crate is not in the offline cache).
//! Row-major strided arrays; shapes and errors behave as documented for ndarray 0.16.
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Index, IndexMut, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Dim<I>(I);
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub type Ix3 = Dim<[usize; 3]>;
pub type Ix4 = Dim<[usize; 4]>;
pub type Ix5 = Dim<[usize; 5]>;
pub type IxDyn = Dim<Vec<usize>>;
#[allow(non_snake_case)]
pub fn Ix1(a: usize) -> Ix1 { Dim([a]) }
#[allow(non_snake_case)]
pub fn Ix2(a: usize, b: usize) -> Ix2 { Dim([a, b]) }
#[allow(non_snake_case)]
pub fn Ix3(a: usize, b: usize, c: usize) -> Ix3 { Dim([a, b, c]) }
#[allow(non_snake_case)]
pub fn Ix4(a: usize, b: usize, c: usize, d: usize) -> Ix4 { Dim([a, b, c, d]) }
#[allow(non_snake_case)]
pub fn IxDyn(d: &[usize]) -> IxDyn { Dim(d.to_vec()) }

pub trait Dimension: Clone + PartialEq + fmt::Debug {
    const NDIM: Option<usize>;
    type Pattern;
    fn from_dims(d: &[usize]) -> Self;
    fn dims(&self) -> &[usize];
    fn pattern(self) -> Self::Pattern;
    fn ndim(&self) -> usize { self.dims().len() }
    fn size(&self) -> usize { self.dims().iter().product() }
}
macro_rules! fixed { ($($n:literal, $pat:ty, |$d:ident| $e:expr);* $(;)?) => { $(
    impl Dimension for Dim<[usize; $n]> {
        const NDIM: Option<usize> = Some($n);
        type Pattern = $pat;
        fn from_dims(d: &[usize]) -> Self { Dim(d.try_into().unwrap()) }
        fn dims(&self) -> &[usize] { &self.0 }
        fn pattern(self) -> $pat { let $d = self.0; $e }
    } )* } }
fixed! { 0, (), |_d| (); 1, usize, |d| d[0]; 2, (usize, usize), |d| (d[0], d[1]); 3, (usize, usize, usize), |d| (d[0], d[1], d[2]);
    4, (usize, usize, usize, usize), |d| (d[0], d[1], d[2], d[3]); 5, (usize, usize, usize, usize, usize), |d| (d[0], d[1], d[2], d[3], d[4]) }
impl Dimension for IxDyn {
    const NDIM: Option<usize> = None;
    type Pattern = IxDyn;
    fn from_dims(d: &[usize]) -> Self { Dim(d.to_vec()) }
    fn dims(&self) -> &[usize] { &self.0 }
    fn pattern(self) -> IxDyn { self }
}
impl IxDyn { pub fn slice(&self) -> &[usize] { &self.0 } }
impl Index<usize> for IxDyn { type Output = usize; fn index(&self, i: usize) -> &usize { &self.0[i] } }

pub trait IntoDimension { type Dim: Dimension; fn into_dimension(self) -> Self::Dim; }
impl<I> IntoDimension for Dim<I> where Dim<I>: Dimension { type Dim = Self; fn into_dimension(self) -> Self { self } }
impl IntoDimension for &[usize] { type Dim = IxDyn; fn into_dimension(self) -> IxDyn { IxDyn(self) } }
impl IntoDimension for Vec<usize> { type Dim = IxDyn; fn into_dimension(self) -> IxDyn { Dim(self) } }
impl IntoDimension for &Vec<usize> { type Dim = IxDyn; fn into_dimension(self) -> IxDyn { IxDyn(self) } }
impl IntoDimension for usize { type Dim = Ix1; fn into_dimension(self) -> Ix1 { Dim([self]) } }
impl IntoDimension for (usize, usize) { type Dim = Ix2; fn into_dimension(self) -> Ix2 { Dim([self.0, self.1]) } }
impl IntoDimension for (usize, usize, usize) { type Dim = Ix3; fn into_dimension(self) -> Ix3 { Dim([self.0, self.1, self.2]) } }
impl IntoDimension for (usize, usize, usize, usize) { type Dim = Ix4; fn into_dimension(self) -> Ix4 { Dim([self.0, self.1, self.2, self.3]) } }
impl<const N: usize> IntoDimension for [usize; N] where Dim<[usize; N]>: Dimension { type Dim = Dim<[usize; N]>; fn into_dimension(self) -> Self::Dim { Dim(self) } }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ShapeError(&'static str);
impl fmt::Display for ShapeError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "ShapeError/{}", self.0) } }
impl std::error::Error for ShapeError {}
const INCOMPAT: ShapeError = ShapeError("IncompatibleShape: incompatible shapes");
const LAYOUT: ShapeError = ShapeError("IncompatibleLayout: incompatible memory layout");
const OOB: ShapeError = ShapeError("OutOfBounds: out of bounds indexing");

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Axis(pub usize);
impl Axis { pub fn index(self) -> usize { self.0 } }

/// Storage of an array: an owned vector or a (mutable) view.
pub trait Data { type Elem; fn ptr(&self) -> *const Self::Elem; }
pub trait DataMut: Data { fn ptr_mut(&mut self) -> *mut Self::Elem; }
pub struct OwnedRepr<A>(Vec<A>);
#[derive(Clone, Copy)]
pub struct ViewRepr<X>(*const u8, PhantomData<X>);
pub enum CowRepr<'a, A> { View(ViewRepr<&'a A>), Owned(OwnedRepr<A>) }
impl<A> Data for OwnedRepr<A> { type Elem = A; fn ptr(&self) -> *const A { self.0.as_ptr() } }
impl<A> DataMut for OwnedRepr<A> { fn ptr_mut(&mut self) -> *mut A { self.0.as_mut_ptr() } }
impl<'a, A> Data for ViewRepr<&'a A> { type Elem = A; fn ptr(&self) -> *const A { self.0 as *const A } }
impl<'a, A> Data for ViewRepr<&'a mut A> { type Elem = A; fn ptr(&self) -> *const A { self.0 as *const A } }
impl<'a, A> DataMut for ViewRepr<&'a mut A> { fn ptr_mut(&mut self) -> *mut A { self.0 as *mut A } }
impl<'a, A> Data for CowRepr<'a, A> { type Elem = A; fn ptr(&self) -> *const A { match self { CowRepr::View(v) => v.ptr(), CowRepr::Owned(o) => o.ptr() } } }

pub struct ArrayBase<S: Data, D> { store: S, shape: Vec<usize>, strides: Vec<isize>, off: usize, d: PhantomData<D> }
pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type CowArray<'a, A, D> = ArrayBase<CowRepr<'a, A>, D>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type Array3<A> = Array<A, Ix3>;
pub type Array4<A> = Array<A, Ix4>;
pub type ArrayViewD<'a, A> = ArrayView<'a, A, IxDyn>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;

fn std_strides(shape: &[usize]) -> Vec<isize> {
    let mut s = vec![0isize; shape.len()];
    if shape.contains(&0) { return s }
    let mut k = 1isize;
    for i in (0..shape.len()).rev() { s[i] = k; k *= shape[i] as isize }
    s
}
fn checked_size(shape: &[usize]) -> Option<usize> { shape.iter().try_fold(1usize, |a, b| a.checked_mul(*b)).filter(|n| *n <= isize::MAX as usize) }

impl<A, D: Dimension> Array<A, D> {
    fn raw(shape: Vec<usize>, v: Vec<A>) -> Self { let strides = std_strides(&shape); ArrayBase { store: OwnedRepr(v), shape, strides, off: 0, d: PhantomData } }
    pub fn from_shape_vec<Sh: IntoShape<D>>(shape: Sh, v: Vec<A>) -> Result<Self, ShapeError> {
        let shape = shape.to_dims();
        match checked_size(&shape) { Some(n) if n == v.len() => Ok(Self::raw(shape, v)), _ => Err(if checked_size(&shape).is_some_and(|n| n > v.len()) { OOB } else { INCOMPAT }) }
    }
    pub fn from_elem<Sh: IntoShape<D>>(shape: Sh, e: A) -> Self where A: Clone {
        let shape = shape.to_dims();
        let n = checked_size(&shape).expect("ndarray: Shape too large, product of non-zero axis lengths overflows isize");
        Self::raw(shape, vec![e; n])
    }
    pub fn from_shape_fn<Sh: IntoShape<D>, F: FnMut(D::Pattern) -> A>(shape: Sh, mut f: F) -> Self {
        let shape = shape.to_dims();
        let v = indices_of(&shape).map(|i| f(D::from_dims(&i).pattern())).collect();
        Self::raw(shape, v)
    }
    pub fn zeros<Sh: IntoShape<D>>(shape: Sh) -> Self where A: Clone + Default { Self::from_elem(shape, A::default()) }
    pub fn default<Sh: IntoShape<D>>(shape: Sh) -> Self where A: Default {
        let shape = shape.to_dims();
        let n = checked_size(&shape).expect("ndarray: Shape too large");
        Self::raw(shape, (0..n).map(|_| A::default()).collect())
    }
    pub fn into_raw_vec_and_offset(self) -> (Vec<A>, Option<usize>) { let o = if self.store.0.is_empty() { None } else { Some(self.off) }; (self.store.0, o) }
    pub fn into_raw_vec(self) -> Vec<A> { self.store.0 }
}
impl<A> Array1<A> {
    pub fn from_vec(v: Vec<A>) -> Self { Self::raw(vec![v.len()], v) }
    #[allow(clippy::should_implement_trait)]
    pub fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self { Self::from_vec(i.into_iter().collect()) }
}
/// Shapes accepted where the dimension type is already known.
pub trait IntoShape<D> { fn to_dims(self) -> Vec<usize>; }
impl<T: IntoDimension> IntoShape<T::Dim> for T { fn to_dims(self) -> Vec<usize> { self.into_dimension().dims().to_vec() } }

fn indices_of(shape: &[usize]) -> impl Iterator<Item = Vec<usize>> {
    let shape = shape.to_vec();
    let n: usize = shape.iter().product();
    (0..n).map(move |mut k| { let mut i = vec![0; shape.len()]; for a in (0..shape.len()).rev() { i[a] = k % shape[a]; k /= shape[a] } i })
}

impl<S: Data, D: Dimension> ArrayBase<S, D> {
    fn at(&self, i: &[usize]) -> Option<isize> {
        if i.len() != self.shape.len() || i.iter().zip(&self.shape).any(|(a, b)| a >= b) { return None }
        Some(self.off as isize + i.iter().zip(&self.strides).map(|(a, b)| *a as isize * b).sum::<isize>())
    }
    pub fn shape(&self) -> &[usize] { &self.shape }
    pub fn strides(&self) -> &[isize] { &self.strides }
    pub fn ndim(&self) -> usize { self.shape.len() }
    pub fn len(&self) -> usize { self.shape.iter().product() }
    pub fn len_of(&self, a: Axis) -> usize { self.shape[a.0] }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn dim(&self) -> D::Pattern { self.raw_dim().pattern() }
    pub fn raw_dim(&self) -> D { D::from_dims(&self.shape) }
    pub fn is_standard_layout(&self) -> bool {
        if self.is_empty() { return true }
        let s = std_strides(&self.shape);
        self.shape.iter().zip(self.strides.iter().zip(&s)).all(|(n, (a, b))| *n == 1 || a == b)
    }
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> { ArrayBase { store: ViewRepr(self.store.ptr() as *const u8, PhantomData), shape: self.shape.clone(), strides: self.strides.clone(), off: self.off, d: PhantomData } }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D> where S: DataMut { ArrayBase { store: ViewRepr(self.store.ptr_mut() as *const u8, PhantomData), shape: self.shape.clone(), strides: self.strides.clone(), off: self.off, d: PhantomData } }
    pub fn iter(&self) -> Iter<'_, S::Elem> { Iter { v: self.refs().into_iter() } }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<&mut S::Elem> where S: DataMut {
        let p = self.store.ptr_mut();
        let v: Vec<&mut S::Elem> = indices_of(&self.shape).map(|i| self.at(&i).unwrap()).map(|o| unsafe { &mut *p.offset(o) }).collect();
        v.into_iter()
    }
    pub fn indexed_iter(&self) -> impl Iterator<Item = (D::Pattern, &S::Elem)> { indices_of(&self.shape).map(|i| (D::from_dims(&i).pattern(), self.get_ref(&i).unwrap())) }
    fn refs(&self) -> Vec<&S::Elem> { indices_of(&self.shape).map(|i| self.get_ref(&i).unwrap()).collect() }
    fn get_ref(&self, i: &[usize]) -> Option<&S::Elem> { self.at(i).map(|o| unsafe { &*self.store.ptr().offset(o) }) }
    pub fn get<I: NdIndex>(&self, i: I) -> Option<&S::Elem> { self.get_ref(&i.idx()) }
    pub fn get_mut<I: NdIndex>(&mut self, i: I) -> Option<&mut S::Elem> where S: DataMut { let o = self.at(&i.idx())?; Some(unsafe { &mut *self.store.ptr_mut().offset(o) }) }
    pub fn first(&self) -> Option<&S::Elem> { self.iter().next() }
    pub fn last(&self) -> Option<&S::Elem> { self.iter().last() }
    pub fn as_slice(&self) -> Option<&[S::Elem]> { if self.is_standard_layout() { Some(if self.is_empty() { &[] } else { unsafe { std::slice::from_raw_parts(self.store.ptr().add(self.off), self.len()) } }) } else { None } }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]> where S: DataMut { if self.is_standard_layout() { let n = self.len(); Some(if n == 0 { &mut [] } else { unsafe { std::slice::from_raw_parts_mut(self.store.ptr_mut().add(self.off), n) } }) } else { None } }
    pub fn to_owned(&self) -> Array<S::Elem, D> where S::Elem: Clone { Array::raw(self.shape.clone(), self.iter().cloned().collect()) }
    pub fn into_owned(self) -> Array<S::Elem, D> where S::Elem: Clone { self.to_owned() }
    pub fn map<'a, B, F: FnMut(&'a S::Elem) -> B>(&'a self, f: F) -> Array<B, D> where S::Elem: 'a { Array::raw(self.shape.clone(), self.refs().into_iter().map(f).collect()) }
    pub fn mapv<B, F: FnMut(S::Elem) -> B>(&self, mut f: F) -> Array<B, D> where S::Elem: Clone { Array::raw(self.shape.clone(), self.iter().map(|x| f(x.clone())).collect()) }
    pub fn fill(&mut self, x: S::Elem) where S: DataMut, S::Elem: Clone { for y in self.iter_mut() { *y = x.clone() } }
    pub fn sum(&self) -> S::Elem where S::Elem: Clone + std::iter::Sum { self.iter().cloned().sum() }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> { self.cast() }
    fn cast<E>(self) -> ArrayBase<S, E> { ArrayBase { store: self.store, shape: self.shape, strides: self.strides, off: self.off, d: PhantomData } }
    pub fn into_dimensionality<E: Dimension>(self) -> Result<ArrayBase<S, E>, ShapeError> { if E::NDIM.is_none_or(|n| n == self.shape.len()) { Ok(self.cast()) } else { Err(INCOMPAT) } }
    pub fn reversed_axes(mut self) -> Self { self.shape.reverse(); self.strides.reverse(); self }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> { self.view().reversed_axes() }
    pub fn swap_axes(&mut self, a: usize, b: usize) { self.shape.swap(a, b); self.strides.swap(a, b) }
    pub fn permuted_axes<T: IntoShape<D>>(mut self, axes: T) -> Self {
        let a = axes.to_dims();
        let mut seen = vec![false; a.len()];
        assert_eq!(a.len(), self.shape.len());
        for x in &a { assert!(!std::mem::replace(&mut seen[*x], true)) }
        self.shape = a.iter().map(|x| self.shape[*x]).collect::<Vec<_>>();
        self.strides = a.iter().map(|x| self.strides[*x]).collect::<Vec<_>>();
        self
    }
    /// Row-major reshape of the same elements; only for arrays already laid out that way.
    pub fn into_shape_with_order<E: IntoDimension>(self, shape: E) -> Result<ArrayBase<S, E::Dim>, ShapeError> {
        let shape = shape.into_dimension().dims().to_vec();
        if checked_size(&shape) != Some(self.len()) { return Err(INCOMPAT) }
        if !self.is_standard_layout() { return Err(LAYOUT) }
        let strides = std_strides(&shape);
        Ok(ArrayBase { store: self.store, shape, strides, off: self.off, d: PhantomData })
    }
    pub fn to_shape<E: IntoDimension>(&self, shape: E) -> Result<CowArray<'_, S::Elem, E::Dim>, ShapeError> where S::Elem: Clone {
        let shape = shape.into_dimension().dims().to_vec();
        if checked_size(&shape) != Some(self.len()) { return Err(INCOMPAT) }
        let strides = std_strides(&shape);
        Ok(ArrayBase { store: CowRepr::Owned(OwnedRepr(self.iter().cloned().collect())), shape, strides, off: 0, d: PhantomData })
    }
    pub fn broadcast<E: IntoDimension>(&self, dim: E) -> Option<ArrayView<'_, S::Elem, E::Dim>> {
        let shape = dim.into_dimension().dims().to_vec();
        checked_size(&shape)?;
        if shape.len() < self.shape.len() { return None }
        let lead = shape.len() - self.shape.len();
        let mut strides = vec![0; shape.len()];
        for i in 0..self.shape.len() {
            if self.shape[i] == shape[lead + i] { strides[lead + i] = self.strides[i] } else if self.shape[i] != 1 { return None }
        }
        Some(ArrayBase { store: ViewRepr(self.store.ptr() as *const u8, PhantomData), shape, strides, off: self.off, d: PhantomData })
    }
    fn cut(&self, s: &SliceSpec) -> (Vec<usize>, Vec<isize>, usize) {
        assert_eq!(s.0.len(), self.shape.len(), "slice of the wrong rank");
        let (mut shape, mut strides, mut off) = (vec![], vec![], self.off as isize);
        for (a, e) in s.0.iter().enumerate() {
            let n = self.shape[a];
            let fix = |i: isize| -> usize { let j = if i < 0 { i + n as isize } else { i }; assert!(j >= 0); j as usize };
            match *e {
                SliceElem::Index(i) => { let i = fix(i); assert!(i < n, "slice index out of bounds"); off += i as isize * self.strides[a] }
                SliceElem::Range(b, e) => {
                    let b = fix(b); let e = e.map_or(n, fix).max(b);
                    assert!(b <= n && e <= n, "slice range out of bounds");
                    if e > b { off += b as isize * self.strides[a] }
                    shape.push(e - b); strides.push(self.strides[a]);
                }
            }
        }
        (shape, strides, off as usize)
    }
    pub fn slice(&self, s: SliceSpec) -> ArrayViewD<'_, S::Elem> { let (shape, strides, off) = self.cut(&s); ArrayBase { store: ViewRepr(self.store.ptr() as *const u8, PhantomData), shape, strides, off, d: PhantomData } }
    pub fn slice_mut(&mut self, s: SliceSpec) -> ArrayViewMut<'_, S::Elem, IxDyn> where S: DataMut { let (shape, strides, off) = self.cut(&s); ArrayBase { store: ViewRepr(self.store.ptr_mut() as *const u8, PhantomData), shape, strides, off, d: PhantomData } }
    fn lane_offsets(&self, a: usize) -> Vec<usize> {
        let mut sh = self.shape.clone(); sh[a] = 1;
        indices_of(&sh).map(|i| (self.off as isize + i.iter().zip(&self.strides).map(|(x, y)| *x as isize * y).sum::<isize>()) as usize).collect()
    }
    pub fn lanes(&self, a: Axis) -> Vec<ArrayView1<'_, S::Elem>> {
        if self.is_empty() { return vec![] }
        self.lane_offsets(a.0).into_iter().map(|off| ArrayBase { store: ViewRepr(self.store.ptr() as *const u8, PhantomData), shape: vec![self.shape[a.0]], strides: vec![self.strides[a.0]], off, d: PhantomData }).collect()
    }
    pub fn lanes_mut(&mut self, a: Axis) -> Vec<ArrayViewMut1<'_, S::Elem>> where S: DataMut {
        if self.is_empty() { return vec![] }
        let p = self.store.ptr_mut() as *const u8;
        self.lane_offsets(a.0).into_iter().map(|off| ArrayBase { store: ViewRepr(p, PhantomData), shape: vec![self.shape[a.0]], strides: vec![self.strides[a.0]], off, d: PhantomData }).collect()
    }
    pub fn index_axis(&self, a: Axis, i: usize) -> ArrayViewD<'_, S::Elem> {
        self.slice(SliceSpec((0..self.ndim()).map(|k| if k == a.0 { SliceElem::Index(i as isize) } else { SliceElem::Range(0, None) }).collect()))
    }
    pub fn insert_axis(mut self, a: Axis) -> ArrayBase<S, IxDyn> { self.shape.insert(a.0, 1); self.strides.insert(a.0, 1); self.cast() }
}
impl<S: Data> ArrayBase<S, Ix1> { pub fn to_vec(&self) -> Vec<S::Elem> where S::Elem: Clone { self.iter().cloned().collect() } }
impl<S: Data> ArrayBase<S, Ix2> {
    pub fn nrows(&self) -> usize { self.shape[0] }
    pub fn ncols(&self) -> usize { self.shape[1] }
}
pub struct Iter<'a, A> { v: std::vec::IntoIter<&'a A> }
impl<'a, A> Iterator for Iter<'a, A> { type Item = &'a A; fn next(&mut self) -> Option<&'a A> { self.v.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.v.size_hint() } }
impl<'a, A> DoubleEndedIterator for Iter<'a, A> { fn next_back(&mut self) -> Option<&'a A> { self.v.next_back() } }
impl<'a, A> ExactSizeIterator for Iter<'a, A> {}

pub trait NdIndex: fmt::Debug { fn idx(&self) -> Vec<usize>; }
impl<I> NdIndex for Dim<I> where Dim<I>: Dimension { fn idx(&self) -> Vec<usize> { self.dims().to_vec() } }
impl<I> NdIndex for &Dim<I> where Dim<I>: Dimension { fn idx(&self) -> Vec<usize> { self.dims().to_vec() } }
impl<const N: usize> NdIndex for [usize; N] { fn idx(&self) -> Vec<usize> { self.to_vec() } }
impl<const N: usize> NdIndex for &[usize; N] { fn idx(&self) -> Vec<usize> { self.to_vec() } }
impl NdIndex for &[usize] { fn idx(&self) -> Vec<usize> { self.to_vec() } }
impl NdIndex for usize { fn idx(&self) -> Vec<usize> { vec![*self] } }
impl NdIndex for (usize, usize) { fn idx(&self) -> Vec<usize> { vec![self.0, self.1] } }
impl NdIndex for (usize, usize, usize) { fn idx(&self) -> Vec<usize> { vec![self.0, self.1, self.2] } }
impl NdIndex for (usize, usize, usize, usize) { fn idx(&self) -> Vec<usize> { vec![self.0, self.1, self.2, self.3] } }
impl<S: Data, D: Dimension, I: NdIndex> Index<I> for ArrayBase<S, D> { type Output = S::Elem; fn index(&self, i: I) -> &S::Elem { match self.get_ref(&i.idx()) { Some(x) => x, None => panic!("ndarray: index {i:?} is out of bounds for array of shape {:?}", self.shape) } } }
impl<S: DataMut, D: Dimension, I: NdIndex> IndexMut<I> for ArrayBase<S, D> { fn index_mut(&mut self, i: I) -> &mut S::Elem { match self.at(&i.idx()) { Some(o) => unsafe { &mut *self.store.ptr_mut().offset(o) }, None => panic!("ndarray: index {i:?} is out of bounds for array of shape {:?}", self.shape) } } }
impl<A: Clone, D> Clone for Array<A, D> { fn clone(&self) -> Self { ArrayBase { store: OwnedRepr(self.store.0.clone()), shape: self.shape.clone(), strides: self.strides.clone(), off: self.off, d: PhantomData } } }
impl<'a, A, D> Clone for ArrayView<'a, A, D> { fn clone(&self) -> Self { ArrayBase { store: ViewRepr(self.store.0, PhantomData), shape: self.shape.clone(), strides: self.strides.clone(), off: self.off, d: PhantomData } } }
impl<S: Data, D: Dimension> fmt::Debug for ArrayBase<S, D> where S::Elem: fmt::Debug { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}{:?}", self.shape, self.refs()) } }
impl<S: Data, S2: Data, D: Dimension> PartialEq<ArrayBase<S2, D>> for ArrayBase<S, D> where S::Elem: PartialEq<S2::Elem> { fn eq(&self, o: &ArrayBase<S2, D>) -> bool { self.shape == o.shape && self.iter().zip(o.iter()).all(|(a, b)| a == b) } }
impl<A, D: Dimension> IntoIterator for Array<A, D> {
    type Item = A; type IntoIter = std::vec::IntoIter<A>;
    fn into_iter(self) -> Self::IntoIter {
        let offs: Vec<isize> = indices_of(&self.shape).map(|i| self.at(&i).unwrap()).collect();
        let mut v: Vec<Option<A>> = self.store.0.into_iter().map(Some).collect();
        offs.into_iter().map(|o| v[o as usize].take().unwrap()).collect::<Vec<_>>().into_iter()
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayView<'a, A, D> { type Item = &'a A; type IntoIter = std::vec::IntoIter<&'a A>; fn into_iter(self) -> Self::IntoIter { let p = self.store.ptr(); indices_of(&self.shape).map(|i| unsafe { &*p.offset(self.at(&i).unwrap()) }).collect::<Vec<&'a A>>().into_iter() } }
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D> { type Item = &'a S::Elem; type IntoIter = Iter<'a, S::Elem>; fn into_iter(self) -> Iter<'a, S::Elem> { self.iter() } }
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D> { type Item = &'a mut S::Elem; type IntoIter = std::vec::IntoIter<&'a mut S::Elem>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
impl<A> From<Vec<A>> for Array1<A> { fn from(v: Vec<A>) -> Self { Array1::from_vec(v) } }
impl<A> std::iter::FromIterator<A> for Array1<A> { fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self { Array1::from_vec(i.into_iter().collect()) } }

#[derive(Clone, Debug)]
pub enum SliceElem { Index(isize), Range(isize, Option<isize>) }
#[derive(Clone, Debug)]
pub struct SliceSpec(pub Vec<SliceElem>);
macro_rules! selem { ($($t:ty),*) => { $(
    impl From<$t> for SliceElem { fn from(i: $t) -> Self { SliceElem::Index(i as isize) } }
    impl From<Range<$t>> for SliceElem { fn from(r: Range<$t>) -> Self { SliceElem::Range(r.start as isize, Some(r.end as isize)) } }
    impl From<RangeInclusive<$t>> for SliceElem { fn from(r: RangeInclusive<$t>) -> Self { SliceElem::Range(*r.start() as isize, if *r.end() as isize == -1 { None } else { Some(*r.end() as isize + 1) }) } }
    impl From<RangeFrom<$t>> for SliceElem { fn from(r: RangeFrom<$t>) -> Self { SliceElem::Range(r.start as isize, None) } }
    impl From<RangeTo<$t>> for SliceElem { fn from(r: RangeTo<$t>) -> Self { SliceElem::Range(0, Some(r.end as isize)) } }
)* } }
selem!(usize, isize, i32);
impl From<RangeFull> for SliceElem { fn from(_: RangeFull) -> Self { SliceElem::Range(0, None) } }
#[macro_export]
macro_rules! s { ($($e:expr),* $(,)?) => { $crate::SliceSpec(vec![$($crate::SliceElem::from($e)),*]) } }

pub fn concatenate<A: Clone, D: Dimension>(axis: Axis, arrays: &[ArrayView<'_, A, D>]) -> Result<Array<A, D>, ShapeError> {
    let Some(f) = arrays.first() else { return Err(ShapeError("Unsupported: unsupported operation")) };
    if axis.0 >= f.ndim() { return Err(OOB) }
    let mut shape = f.shape.clone();
    if arrays.iter().any(|a| a.shape.len() != shape.len() || (0..shape.len()).any(|k| k != axis.0 && a.shape[k] != shape[k])) { return Err(INCOMPAT) }
    shape[axis.0] = arrays.iter().map(|a| a.shape[axis.0]).sum();
    let v = indices_of(&shape).map(|mut i| { for a in arrays { if i[axis.0] < a.shape[axis.0] { return a.get_ref(&i).unwrap().clone() } i[axis.0] -= a.shape[axis.0] } unreachable!() }).collect();
    Ok(Array::raw(shape, v))
}

/// `Zip::from(&mut out).and(&a).and(&b)...for_each(..)`
pub struct Zip<T> { parts: T, shape: Vec<usize> }
pub trait Part { type Item; fn shape(&self) -> Vec<usize>; fn items(self) -> Vec<Self::Item>; }
impl<'a, S: Data, D: Dimension> Part for &'a ArrayBase<S, D> { type Item = &'a S::Elem; fn shape(&self) -> Vec<usize> { self.shape.clone() } fn items(self) -> Vec<&'a S::Elem> { self.refs() } }
impl<'a, S: DataMut, D: Dimension> Part for &'a mut ArrayBase<S, D> { type Item = &'a mut S::Elem; fn shape(&self) -> Vec<usize> { self.shape.clone() } fn items(self) -> Vec<&'a mut S::Elem> { self.iter_mut().collect() } }
impl<'a, A, D: Dimension> Part for ArrayView<'a, A, D> { type Item = &'a A; fn shape(&self) -> Vec<usize> { self.shape.clone() } fn items(self) -> Vec<&'a A> { self.into_iter().collect() } }
impl<P: Part> Zip<(P,)> { pub fn from(p: P) -> Self { let shape = p.shape(); Zip { parts: (p,), shape } }
    pub fn and<Q: Part>(self, q: Q) -> Zip<(P, Q)> { assert_eq!(self.shape, q.shape()); Zip { parts: (self.parts.0, q), shape: self.shape } } 
    pub fn for_each<F: FnMut(P::Item)>(self, f: F) { self.parts.0.items().into_iter().for_each(f) } }
impl<P: Part, Q: Part> Zip<(P, Q)> {
    pub fn and<R: Part>(self, r: R) -> Zip<(P, Q, R)> { assert_eq!(self.shape, r.shape()); Zip { parts: (self.parts.0, self.parts.1, r), shape: self.shape } }
    pub fn for_each<F: FnMut(P::Item, Q::Item)>(self, mut f: F) { for (a, b) in self.parts.0.items().into_iter().zip(self.parts.1.items()) { f(a, b) } } }
impl<P: Part, Q: Part, R: Part> Zip<(P, Q, R)> {
    pub fn for_each<F: FnMut(P::Item, Q::Item, R::Item)>(self, mut f: F) { for ((a, b), c) in self.parts.0.items().into_iter().zip(self.parts.1.items()).zip(self.parts.2.items()) { f(a, b, c) } } }
macro_rules! fixed_index { ($($n:literal),*) => { $(impl Index<usize> for Dim<[usize; $n]> { type Output = usize; fn index(&self, i: usize) -> &usize { &self.0[i] } })* } }
fixed_index!(1, 2, 3, 4, 5);
