//! Expressions that can be differentiated by vectors and by matrices.
#![allow(clippy::all)]
use expr::family::prelude::*;

pub type G<const K: u8, V, W> = N1<Id<K>, V, N0<W>>;

type A2 = [f64; 2];
type A3 = [f64; 3];
type A22 = [[f64; 2]; 2];
type A23 = [[f64; 3]; 2];
type A32 = [[f64; 2]; 3];
type A33 = [[f64; 3]; 3];

// Targets with two entries.
family! {
    G2 build_v2 face_v2;
    kinds {
        S 0 16 f64 => G<2, f64, A2>, once;
        V2 2 18 A2 => G<2, A2, A22>, lin;
        V3 3 19 A3 => G<2, A3, A32>, lin;
    }
    zip4 { S S S; }
    zip2 { V2 V2 V2; V3 V3 V3; }
    dot0 { S S S; S V2 V2; V2 S V2; V3 S V3; }
    dot1 { V2 V2 S; }
    pow { S }
}

// Targets with three entries.
family! {
    G3 build_v3 face_v3;
    kinds {
        S 0 16 f64 => G<3, f64, A3>, once;
        V2 2 18 A2 => G<3, A2, A23>, lin;
        V3 3 19 A3 => G<3, A3, A33>, lin;
    }
    zip4 { S S S; }
    zip2 { V2 V2 V2; V3 V3 V3; }
    dot0 { S S S; S V3 V3; V2 S V2; V3 S V3; }
    dot1 { V3 V3 S; }
    pow { S }
}

macro_rules! matrix {
    ($Any:ident $build:ident $face:ident $X:ident $k:literal $ck:literal $B:ty, $n:literal, $m:literal) => {
        family! {
            $Any $build $face;
            kinds {
                S 0 16 f64 => G<$k, f64, $B>, once;
                V2 2 18 A2 => G<$k, A2, [$B; 2]>, lin;
                $X $k $ck $B => G<$k, $B, [[$B; $m]; $n]>, lin;
            }
            zip4 { S S S; }
            zip2 { V2 V2 V2; $X $X $X; }
            dot0 { S S S; }
            dot1 {}
            pow { S }
        }
    };
}

matrix!(GM22 build_m22 face_m22 M22 4 20 A22, 2, 2);
matrix!(GM23 build_m23 face_m23 M23 5 21 A23, 2, 3);
matrix!(GM32 build_m32 face_m32 M32 6 22 A32, 3, 2);
matrix!(GM33 build_m33 face_m33 M33 7 23 A33, 3, 3);
