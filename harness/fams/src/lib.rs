//! Expressions that can be differentiated by scalars: once over all fixed-size value types, twice over
//! scalars, vectors and matrices, three times over scalars.
#![allow(clippy::all)]
use expr::family::prelude::*;

pub type D1<V> = N1<Id<0>, V, N0<V>>;
pub type D2<V> = N1<Id<0>, V, D1<V>>;
pub type D3<V> = N1<Id<0>, V, D2<V>>;

type T2 = (f64, f64);
type A2 = [f64; 2];
type A3 = [f64; 3];
type A22 = [[f64; 2]; 2];
type A23 = [[f64; 3]; 2];
type A32 = [[f64; 2]; 3];
type A33 = [[f64; 3]; 3];

family! {
    S1 build1 face1;
    kinds {
        S 0 16 f64 => D1<f64>, once;
        T 1 17 T2 => D1<T2>, once;
        V2 2 18 A2 => D1<A2>, once;
        V3 3 19 A3 => D1<A3>, once;
        M22 4 20 A22 => D1<A22>, once;
        M23 5 21 A23 => D1<A23>, once;
        M32 6 22 A32 => D1<A32>, once;
        M33 7 23 A33 => D1<A33>, once;
    }
    zip4 {
        S S S; S V2 V2; S V3 V3; S M22 M22; S M23 M23; S M32 M32; S M33 M33;
        V2 S V2; V3 S V3; M22 S M22; M23 S M23; M32 S M32; M33 S M33;
        V2 V2 V2; V3 V3 V3; M22 M22 M22; M23 M23 M23; M32 M32 M32; M33 M33 M33; T T T;
    }
    zip2 {}
    dot0 {
        S S S; S V2 V2; S V3 V3; V2 S V2; V3 S V3;
        S M22 M22; S M23 M23; S M32 M32; S M33 M33; M22 S M22; M23 S M23; M32 S M32; M33 S M33;
        V2 V2 M22; V2 V3 M23; V3 V2 M32; V3 V3 M33;
    }
    dot1 {
        S S S; V2 V2 S; V3 V3 S; M22 V2 V2; M33 V3 V3;
        V2 M22 V2; V2 M23 V3; V3 M32 V2; V3 M33 V3;
        M22 M22 M22; M22 M23 M23; M23 M32 M22; M23 M33 M23; M32 M22 M32; M32 M23 M33; M33 M32 M32; M33 M33 M33;
    }
    pow { S }
}

family! {
    S2 build2 face2;
    kinds {
        S 0 16 f64 => D2<f64>, abs;
        V2 2 18 A2 => D2<A2>, abs;
        M22 4 20 A22 => D2<A22>, abs;
    }
    zip4 { S S S; S V2 V2; S M22 M22; V2 S V2; M22 S M22; V2 V2 V2; M22 M22 M22; }
    zip2 {}
    dot0 { S S S; S V2 V2; V2 S V2; S M22 M22; M22 S M22; V2 V2 M22; }
    dot1 { S S S; V2 V2 S; M22 V2 V2; V2 M22 V2; M22 M22 M22; }
    pow { S }
}

family! {
    S3 build3 face3;
    kinds {
        S 0 16 f64 => D3<f64>, smooth;
    }
    zip4 { S S S; }
    zip2 {}
    dot0 { S S S; }
    dot1 { S S S; }
    pow { S }
}
