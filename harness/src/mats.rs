//! Dimension-erased access to the matrix operations: every shape is monomorphised once here, the
//! monitors are written once against these tables.
use crate::num::Num;
use minikalman::matrix::*;

pub type F2<T> = fn(&[T], &[T], &mut [T]);

/// Products of an r×k with a k×u (or transposed u×k) matrix into r×u.
pub struct Prod<T> {
    pub r: usize,
    pub k: usize,
    pub u: usize,
    pub mult: F2<T>,
    pub mult_buffered: fn(&[T], &[T], &mut [T], &mut [T]),
    pub mult_transb: F2<T>,
    pub multadd_transb: F2<T>,
    pub multscale_transb: fn(&[T], &[T], T, &mut [T]),
}

fn rf<const R: usize, const C: usize, T>(a: &[T]) -> MatrixDataRef<'_, R, C, T> {
    MatrixDataRef::new(a)
}
fn mt<const R: usize, const C: usize, T>(a: &mut [T]) -> MatrixDataMut<'_, R, C, T> {
    MatrixDataMut::new(a)
}

impl<T: Num> Prod<T> {
    pub fn of<const R: usize, const K: usize, const U: usize>() -> Self {
        Prod {
            r: R,
            k: K,
            u: U,
            mult: |a, b, c| rf::<R, K, T>(a).mult(&rf::<K, U, T>(b), &mut mt::<R, U, T>(c)),
            mult_buffered: |a, b, aux, c| {
                rf::<R, K, T>(a).mult_buffered(&rf::<K, U, T>(b), &mut mt::<R, U, T>(c), aux)
            },
            mult_transb: |a, b, c| rf::<R, K, T>(a).mult_transb(&rf::<U, K, T>(b), &mut mt::<R, U, T>(c)),
            multadd_transb: |a, b, c| rf::<R, K, T>(a).multadd_transb(&rf::<U, K, T>(b), &mut mt::<R, U, T>(c)),
            multscale_transb: |a, b, s, c| {
                rf::<R, K, T>(a).multscale_transb(&rf::<U, K, T>(b), s, &mut mt::<R, U, T>(c))
            },
        }
    }
}

/// r×c matrix with a vector, and elementwise operations.
pub struct Elem<T> {
    pub r: usize,
    pub c: usize,
    pub mult_rowvector: F2<T>,
    pub multadd_rowvector: F2<T>,
    pub sub: F2<T>,
    /// (read only operand, target)
    pub add_inplace_a: fn(&[T], &mut [T]),
    pub add_inplace_b: fn(&[T], &mut [T]),
    pub sub_inplace_a: fn(&[T], &mut [T]),
    pub sub_inplace_b: fn(&[T], &mut [T]),
    pub copy: fn(&[T], &mut [T]),
    pub copy_to: fn(&[T], &mut [T]),
    /// `copy_from` demands a mutable source.
    pub copy_from: fn(&mut [T], &mut [T]),
    pub read: fn(&[T]) -> Read<T>,
    pub write: fn(&mut [T], &Write<T>),
}

impl<T: Num> Elem<T> {
    #[allow(deprecated)]
    pub fn of<const R: usize, const C: usize>() -> Self {
        Elem {
            r: R,
            c: C,
            mult_rowvector: |a, x, y| rf::<R, C, T>(a).mult_rowvector(&rf::<C, 1, T>(x), &mut mt::<R, 1, T>(y)),
            multadd_rowvector: |a, x, y| rf::<R, C, T>(a).multadd_rowvector(&rf::<C, 1, T>(x), &mut mt::<R, 1, T>(y)),
            sub: |a, b, c| rf::<R, C, T>(a).sub(&rf::<R, C, T>(b), &mut mt::<R, C, T>(c)),
            add_inplace_a: |b, a| mt::<R, C, T>(a).add_inplace_a(&rf::<R, C, T>(b)),
            add_inplace_b: |a, b| rf::<R, C, T>(a).add_inplace_b(&mut mt::<R, C, T>(b)),
            sub_inplace_a: |b, a| mt::<R, C, T>(a).sub_inplace_a(&rf::<R, C, T>(b)),
            sub_inplace_b: |a, b| rf::<R, C, T>(a).sub_inplace_b(&mut mt::<R, C, T>(b)),
            copy: |a, b| rf::<R, C, T>(a).copy(&mut mt::<R, C, T>(b)),
            copy_to: |a, b| rf::<R, C, T>(a).copy_to(&mut mt::<R, C, T>(b)),
            copy_from: |a, b| mt::<R, C, T>(b).copy_from(&mt::<R, C, T>(a)),
            read: |a| read(&rf::<R, C, T>(a)),
            write: |a, w| write(&mut mt::<R, C, T>(a), w),
        }
    }
}

/// Everything a matrix says about itself.
#[derive(Clone, Debug, PartialEq)]
pub struct Read<T> {
    pub rows: usize,
    pub cols: usize,
    pub len: usize,
    pub buffer_len: usize,
    pub empty: bool,
    pub valid: bool,
    pub slice: Vec<T>,
    pub get: Vec<T>,
    pub get_at: Vec<T>,
    pub index: Vec<T>,
    /// (row, copy with two surplus elements that held `mark`)
    pub row_copies: Vec<Vec<T>>,
    pub col_copies: Vec<Vec<T>>,
    pub inspected: usize,
    pub inspect_slice: Vec<T>,
}

pub fn mark<T: Num>() -> T {
    T::of(-55.5)
}

pub fn read<const R: usize, const C: usize, T: Num, M: Matrix<R, C, T>>(m: &M) -> Read<T> {
    let cells = || (0..R).flat_map(|i| (0..C).map(move |j| (i, j)));
    let mut inspected = 0;
    let mut row_copies = vec![];
    let mut col_copies = vec![];
    if R * C > 0 {
        for i in 0..R {
            let mut v = vec![mark::<T>(); C + 2];
            m.get_row_copy(i, &mut v);
            row_copies.push(v);
        }
        for j in 0..C {
            let mut v = vec![mark::<T>(); R + 2];
            m.get_column_copy(j, &mut v);
            col_copies.push(v);
        }
    }
    let inspect_slice = m.inspect(|x| {
        inspected += 1;
        x.as_slice().to_vec()
    });
    Read {
        rows: m.rows(),
        cols: m.cols(),
        len: m.len(),
        buffer_len: m.buffer_len(),
        empty: m.is_empty(),
        valid: m.is_valid(),
        slice: m.as_slice().to_vec(),
        get: cells().map(|(i, j)| m.get(i, j)).collect(),
        get_at: cells().map(|(i, j)| m.get_at(i, j)).collect(),
        index: (0..m.as_slice().len()).map(|k| m[k]).collect(),
        row_copies,
        col_copies,
        inspected,
        inspect_slice,
    }
}

#[derive(Clone, Debug)]
pub enum Write<T> {
    Set(usize, usize, T),
    SetAt(usize, usize, T),
    Index(usize, T),
    Slice(usize, T),
    Apply(usize, usize, T),
    SetAll(T),
    Clear,
    SetZero,
}

pub fn write<const R: usize, const C: usize, T: Num, M: MatrixMut<R, C, T>>(m: &mut M, w: &Write<T>) {
    match *w {
        Write::Set(i, j, v) => m.set(i, j, v),
        Write::SetAt(i, j, v) => m.set_at(i, j, v),
        Write::Index(k, v) => m[k] = v,
        Write::Slice(k, v) => m.as_mut_slice()[k] = v,
        Write::Apply(i, j, v) => m.apply(|x| x.set(i, j, v)),
        Write::SetAll(v) => m.set_all(v),
        Write::Clear => m.clear(),
        Write::SetZero => m.set_zero(),
    }
}

/// n×n matrices.
pub struct Sq<T> {
    pub n: usize,
    pub chol: fn(&mut [T]) -> bool,
    pub inv: F1<T>,
    pub make_identity: fn(&mut [T]),
    pub make_scalar: fn(&mut [T], T),
    pub make_comatrix: fn(&mut [T], T, T),
    pub set_diagonal: fn(&mut [T], T),
    pub set_symmetric: fn(&mut [T], usize, usize, T),
}
pub type F1<T> = fn(&[T], &mut [T]);

impl<T: Num> Sq<T> {
    pub fn of<const N: usize>() -> Self {
        Sq {
            n: N,
            chol: |a| mt::<N, N, T>(a).cholesky_decompose_lower(),
            inv: |l, i| rf::<N, N, T>(l).invert_l_cholesky(&mut mt::<N, N, T>(i)),
            make_identity: |a| mt::<N, N, T>(a).make_identity(),
            make_scalar: |a, d| mt::<N, N, T>(a).make_scalar(d),
            make_comatrix: |a, d, o| mt::<N, N, T>(a).make_comatrix(d, o),
            set_diagonal: |a, d| mt::<N, N, T>(a).set_diagonal_to_scalar(d),
            set_symmetric: |a, i, j, v| mt::<N, N, T>(a).set_symmetric(i, j, v),
        }
    }
}

/// Vectors and scalars have accessors of their own.
pub struct Vecs<T> {
    pub n: usize,
    pub row_get: fn(&[T], usize) -> T,
    pub row_set: fn(&mut [T], usize, T),
    pub col_get: fn(&[T], usize) -> T,
    pub col_set: fn(&mut [T], usize, T),
}
impl<T: Num> Vecs<T> {
    pub fn of<const N: usize>() -> Self {
        Vecs {
            n: N,
            row_get: |a, i| rf::<N, 1, T>(a).get_row(i),
            row_set: |a, i, v| mt::<N, 1, T>(a).set_row(i, v),
            col_get: |a, i| rf::<1, N, T>(a).get_col(i),
            col_set: |a, i, v| mt::<1, N, T>(a).set_col(i, v),
        }
    }
}
pub fn scalar_get<T: Num>(a: &[T]) -> T {
    rf::<1, 1, T>(a).get_value()
}
pub fn scalar_set<T: Num>(a: &mut [T], v: T) {
    mt::<1, 1, T>(a).set_value(v)
}

macro_rules! prods {
    ($t:ty; $(($r:literal,$k:literal,$u:literal)),* $(,)?) => { vec![$(Prod::<$t>::of::<$r, $k, $u>()),*] };
}
macro_rules! elems {
    ($t:ty; $(($r:literal,$c:literal)),* $(,)?) => { vec![$(Elem::<$t>::of::<$r, $c>()),*] };
}
macro_rules! squares {
    ($t:ty; $($n:literal),* $(,)?) => { vec![$(Sq::<$t>::of::<$n>()),*] };
}
macro_rules! vecs {
    ($t:ty; $($n:literal),* $(,)?) => { vec![$(Vecs::<$t>::of::<$n>()),*] };
}

pub trait MatSets: Num {
    fn prods() -> Vec<Prod<Self>>;
    fn elems() -> Vec<Elem<Self>>;
    fn squares() -> Vec<Sq<Self>>;
    fn vecs() -> Vec<Vecs<Self>>;
    /// Shapes beyond what 8 and 16 bit counters can address.
    fn big() -> Big<Self> {
        Big { prods: vec![], elems: vec![], squares: vec![] }
    }
}

pub struct Big<T> {
    pub prods: Vec<Prod<T>>,
    pub elems: Vec<Elem<T>>,
    pub squares: Vec<Sq<T>>,
}

macro_rules! sets {
    ($t:ty; full) => {
        impl MatSets for $t {
            #[cfg(not(feature = "lite"))]
            fn prods() -> Vec<Prod<Self>> {
                prods!($t; (1,1,1),(1,1,2),(1,1,3),(1,1,4),(1,2,1),(1,2,2),(1,2,3),(1,2,4),(1,3,1),(1,3,2),(1,3,3),(1,3,4),
                    (1,4,1),(1,4,2),(1,4,3),(1,4,4),(2,1,1),(2,1,2),(2,1,3),(2,1,4),(2,2,1),(2,2,2),(2,2,3),(2,2,4),
                    (2,3,1),(2,3,2),(2,3,3),(2,3,4),(2,4,1),(2,4,2),(2,4,3),(2,4,4),(3,1,1),(3,1,2),(3,1,3),(3,1,4),
                    (3,2,1),(3,2,2),(3,2,3),(3,2,4),(3,3,1),(3,3,2),(3,3,3),(3,3,4),(3,4,1),(3,4,2),(3,4,3),(3,4,4),
                    (4,1,1),(4,1,2),(4,1,3),(4,1,4),(4,2,1),(4,2,2),(4,2,3),(4,2,4),(4,3,1),(4,3,2),(4,3,3),(4,3,4),
                    (4,4,1),(4,4,2),(4,4,3),(4,4,4),(5,5,5),(5,6,7),(7,5,6),(6,7,5),(6,6,6),(7,7,7),(8,8,8),(9,9,9),
                    (5,1,6),(6,5,1),(1,6,5),(8,3,2),(3,8,2),(2,3,8),(9,2,4),(4,9,2),(2,4,9),(16,2,3),(3,16,2),(2,3,16),
                    (17,4,5),(5,17,4),(4,5,17),(33,2,1),(1,33,2),(2,1,33),(10,12,11),(16,16,16),(20,21,22),(32,32,32),
                    (64,1,1),(1,64,1),(1,1,64),(40,40,40),(2,130,3),(130,3,2),(3,2,130))
            }
            #[cfg(not(feature = "lite"))]
            fn elems() -> Vec<Elem<Self>> {
                elems!($t; (1,1),(1,2),(1,3),(1,4),(1,5),(2,1),(2,2),(2,3),(2,4),(2,5),(3,1),(3,2),(3,3),(3,4),(3,5),
                    (4,1),(4,2),(4,3),(4,4),(4,5),(5,1),(5,2),(5,3),(5,4),(5,5),(6,6),(6,7),(7,6),(7,3),(3,8),(8,8),(9,2),(2,9),
                    (9,9),(1,16),(16,1),(10,10),(12,5),(5,12),(16,16),(17,3),(3,17),(33,1),(1,33),(20,21),(32,32),(64,2),(2,64),(1,130),(130,1),(40,40))
            }
            #[cfg(not(feature = "lite"))]
            fn squares() -> Vec<Sq<Self>> {
                squares!($t; 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,20,24,31,32,33,40)
            }
            #[cfg(not(feature = "lite"))]
            fn vecs() -> Vec<Vecs<Self>> {
                vecs!($t; 1,2,3,4,5,7,8,9,16,33,130,300)
            }
            #[cfg(not(feature = "lite"))]
            fn big() -> Big<Self> {
                Big {
                    prods: prods!($t; (260,260,1),(1,260,260),(260,1,260),(2,300,2),(300,2,2),(2,2,300),(66,67,65),(1,70000,1)),
                    elems: elems!($t; (260,260),(1,70000),(70000,1),(2,300),(300,2),(129,5),(5,129),(256,256)),
                    squares: squares!($t; 65,100,129,260),
                }
            }
            sets!($t; small);
        }
    };
    ($t:ty; fixed) => {
        impl MatSets for $t {
            #[cfg(not(feature = "lite"))]
            fn prods() -> Vec<Prod<Self>> {
                prods!($t; (1,1,1),(1,1,2),(1,2,1),(2,1,1),(1,2,3),(2,3,1),(3,1,2),(2,2,2),(3,3,3),(2,3,4),(4,2,3),(3,4,2),(4,4,4),
                    (5,6,7),(7,5,6),(8,8,8),(9,2,4),(2,9,3),(3,2,9),(16,3,2),(2,17,3),(3,2,16),(1,33,1))
            }
            #[cfg(not(feature = "lite"))]
            fn elems() -> Vec<Elem<Self>> {
                elems!($t; (1,1),(1,2),(1,3),(2,1),(2,2),(2,3),(3,1),(3,2),(3,3),(4,4),(4,5),(5,4),(5,5),(7,3),(3,8),(8,8),(9,2),(2,9),
                    (16,1),(1,16),(17,3),(1,33))
            }
            #[cfg(not(feature = "lite"))]
            fn squares() -> Vec<Sq<Self>> {
                squares!($t; 1,2,3,4,5,6,7,8,9,12,16,17)
            }
            #[cfg(not(feature = "lite"))]
            fn vecs() -> Vec<Vecs<Self>> {
                vecs!($t; 1,2,3,4,5,8,9)
            }
            sets!($t; small);
        }
    };
    ($t:ty; small) => {
        #[cfg(feature = "lite")]
        fn prods() -> Vec<Prod<Self>> {
            prods!($t; (1,1,1),(1,2,3),(2,3,1),(3,1,2),(2,2,2),(3,3,3),(2,3,4),(4,2,3),(3,4,2),(5,6,7),(8,8,8),(2,17,3))
        }
        #[cfg(feature = "lite")]
        fn elems() -> Vec<Elem<Self>> {
            elems!($t; (1,1),(1,3),(3,1),(2,2),(2,3),(3,2),(3,3),(4,5),(5,4),(8,8),(9,2),(1,17))
        }
        #[cfg(feature = "lite")]
        fn squares() -> Vec<Sq<Self>> {
            squares!($t; 1,2,3,4,5,8,9,12)
        }
        #[cfg(feature = "lite")]
        fn vecs() -> Vec<Vecs<Self>> {
            vecs!($t; 1,2,3,5,8)
        }
    };
}
sets!(f64; full);
sets!(f32; full);
#[cfg(feature = "fixed")]
sets!(fixed::types::I16F16; fixed);
#[cfg(feature = "fixed")]
sets!(fixed::types::I32F32; fixed);

/// Calls `$f::<T>(args)` for every number type under test.
#[macro_export]
macro_rules! every_type {
    ($f:ident, $($a:expr),*) => {
        $f::<f64>($($a),*);
        $f::<f32>($($a),*);
        #[cfg(feature = "fixed")]
        {
            $f::<fixed::types::I16F16>($($a),*);
            $f::<fixed::types::I32F32>($($a),*);
        }
    };
}
