//! Expressions that can be differentiated by scalars and by vectors, in either order.
#![allow(clippy::all)]
use expr::family::prelude::*;

type A2 = [f64; 2];
type A3 = [f64; 3];
type A22 = [[f64; 2]; 2];
type A33 = [[f64; 3]; 3];

/// By a scalar, then by a vector.
type Sv<const K: u8, V, W> = N1<Id<K>, V, N0<W>>;
/// By a vector, then by a scalar.
type Vs<W> = N1<Id<0>, W, N0<W>>;

mixed_node!(X2, OX2, 2);
mixed_node!(X3, OX3, 3);

family! {
    XV2 build_v2 face_v2;
    kinds {
        S 0 16 f64 => X2<f64, Sv<2, f64, A2>, Vs<A2>>, abs;
        V2 2 18 A2 => X2<A2, Sv<2, A2, A22>, Vs<A22>>, lin;
    }
    zip4 { S S S; }
    zip2 { V2 V2 V2; }
    dot0 { S S S; S V2 V2; V2 S V2; }
    dot1 { V2 V2 S; }
    pow { S }
}

family! {
    XV3 build_v3 face_v3;
    kinds {
        S 0 16 f64 => X3<f64, Sv<3, f64, A3>, Vs<A3>>, abs;
        V3 3 19 A3 => X3<A3, Sv<3, A3, A33>, Vs<A33>>, lin;
    }
    zip4 { S S S; }
    zip2 { V3 V3 V3; }
    dot0 { S S S; S V3 V3; V3 S V3; }
    dot1 { V3 V3 S; }
    pow { S }
}
