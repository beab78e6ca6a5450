#![allow(unused, refining_impl_trait)]
use phlite::columns::*;
use phlite::fields::*;
use phlite::matrices::*;
use phlite::matrices::combinators::*;
use phlite::reduction::*;
use std::cmp::Reverse;
use std::marker::PhantomData;

// a matrix with no filtration and no basis
#[derive(Clone, Copy)]
pub struct Bare<K, C, R>(pub PhantomData<(K, C, R)>);
// with a filtration, without a basis
#[derive(Clone, Copy)]
pub struct Filtered<K, C, R>(pub PhantomData<(K, C, R)>);
// with a basis, without a filtration
pub struct Based<K, C: BasisElement, R>(pub Graded<C>, pub PhantomData<(K, R)>);
// with both
pub struct Full<K, C: BasisElement, R>(pub Graded<C>, pub PhantomData<(K, R)>);

#[derive(Clone)]
pub struct Graded<C>(pub Vec<Vec<C>>);
impl<C: BasisElement> ColBasis for Graded<C> {
    type ElemT = C;
    fn element(&self, index: usize) -> C {
        loop {}
    }
    fn size(&self) -> usize {
        0
    }
}
impl<C: BasisElement> SplitByDimension for Graded<C> {
    type SubBasisT = Vec<C>;
    fn in_dimension(&self, dimension: usize) -> &Vec<C> {
        &self.0[dimension]
    }
}

macro_rules! oracle {
    ($m: ident) => {
        impl<K: NonZeroCoefficient, C: BasisElement, R: BasisElement> MatrixOracle for $m<K, C, R> {
            type CoefficientField = K;
            type ColT = C;
            type RowT = R;
            fn column(&self, col: C) -> impl Iterator<Item = (K, R)> {
                std::iter::empty()
            }
        }
    };
}
oracle!(Bare);
oracle!(Filtered);
oracle!(Based);
oracle!(Full);
macro_rules! filtered {
    ($m: ident) => {
        impl<K: NonZeroCoefficient, C: BasisElement, R: BasisElement> HasRowFiltration for $m<K, C, R> {
            type FiltrationT = usize;
            fn filtration_value(&self, row: R) -> usize {
                0
            }
        }
    };
}
filtered!(Filtered);
filtered!(Full);
macro_rules! based {
    ($m: ident) => {
        impl<K: NonZeroCoefficient, C: BasisElement, R: BasisElement> HasColBasis for $m<K, C, R> {
            type BasisT = Graded<C>;
            type BasisRef<'a> = &'a Graded<C> where Self: 'a;
            fn basis(&self) -> &Graded<C> {
                &self.0
            }
        }
    };
}
based!(Based);
based!(Full);

pub fn bare<K, C, R>() -> Bare<K, C, R> {
    Bare(PhantomData)
}
pub fn filtered<K, C, R>() -> Filtered<K, C, R> {
    Filtered(PhantomData)
}
pub fn based<K, C: BasisElement, R>() -> Based<K, C, R> {
    Based(Graded(vec![]), PhantomData)
}
pub fn full<K, C: BasisElement, R>() -> Full<K, C, R> {
    Full(Graded(vec![]), PhantomData)
}
