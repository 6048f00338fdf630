// generated by vlib/shapes.py
use crate::comps::*;
use crate::store_run::*;

pub fn shapes() -> Vec<ShapeOps> {
    let mut v: Vec<ShapeOps> = Vec::new();
    v.push(with_queries::<(C1)>(ops::<(C1)>()));
    v.push(with_queries::<(C2)>(ops::<(C2)>()));
    v.push(with_queries::<(C3)>(ops::<(C3)>()));
    v.push(with_queries::<(C4)>(ops::<(C4)>()));
    v.push(with_queries::<(C5)>(ops::<(C5)>()));
    v.push(with_rw::<(C2), (C1)>(with_queries::<(C1, C2)>(ops::<(C1, C2)>())));
    v.push(with_rw::<(C1), (C3)>(with_queries::<(C3, C1)>(ops::<(C3, C1)>())));
    v.push(with_rw::<(C4), (C1)>(with_queries::<(C1, C4)>(ops::<(C1, C4)>())));
    v.push(with_rw::<(C1), (C5)>(with_queries::<(C5, C1)>(ops::<(C5, C1)>())));
    v.push(with_rw::<(C3), (C2)>(with_queries::<(C2, C3)>(ops::<(C2, C3)>())));
    v.push(with_rw::<(C4), (C2)>(with_queries::<(C4, C2)>(ops::<(C4, C2)>())));
    v.push(with_rw::<(C2), (C5)>(with_queries::<(C5, C2)>(ops::<(C5, C2)>())));
    v.push(with_rw::<(C4), (C3)>(with_queries::<(C3, C4)>(ops::<(C3, C4)>())));
    v.push(with_rw::<(C3), (C5)>(with_queries::<(C5, C3)>(ops::<(C5, C3)>())));
    v.push(with_rw::<(C5), (C4)>(with_queries::<(C4, C5)>(ops::<(C4, C5)>())));
    v.push(with_rw::<(C2), (C1, C3)>(with_queries::<(C1, C2, C3)>(ops::<(C1, C2, C3)>())));
    v.push(with_rw::<(C4), (C2, C1)>(with_queries::<(C2, C1, C4)>(ops::<(C2, C1, C4)>())));
    v.push(with_rw::<(C1, C2), (C5)>(with_queries::<(C2, C1, C5)>(ops::<(C2, C1, C5)>())));
    v.push(with_rw::<(C1, C4), (C3)>(with_queries::<(C1, C3, C4)>(ops::<(C1, C3, C4)>())));
    v.push(with_rw::<(C5), (C3, C1)>(with_queries::<(C1, C5, C3)>(ops::<(C1, C5, C3)>())));
    v.push(with_rw::<(C5, C4), (C1)>(with_queries::<(C5, C4, C1)>(ops::<(C5, C4, C1)>())));
    v.push(with_rw::<(C4), (C2, C3)>(with_queries::<(C2, C3, C4)>(ops::<(C2, C3, C4)>())));
    v.push(with_rw::<(C5), (C3, C2)>(with_queries::<(C2, C3, C5)>(ops::<(C2, C3, C5)>())));
    v.push(with_rw::<(C5, C4), (C2)>(with_queries::<(C2, C5, C4)>(ops::<(C2, C5, C4)>())));
    v.push(with_rw::<(C3, C5), (C4)>(with_queries::<(C3, C5, C4)>(ops::<(C3, C5, C4)>())));
    v.push(with_rw::<(C2), (C3, C4, C1)>(with_queries::<(C3, C2, C4, C1)>(ops::<(C3, C2, C4, C1)>())));
    v.push(with_rw::<(C1, C2, C3), (C5)>(with_queries::<(C1, C2, C5, C3)>(ops::<(C1, C2, C5, C3)>())));
    v.push(with_rw::<(C2, C4), (C5, C1)>(with_queries::<(C5, C2, C1, C4)>(ops::<(C5, C2, C1, C4)>())));
    v.push(with_rw::<(C1, C4), (C5, C3)>(with_queries::<(C4, C3, C5, C1)>(ops::<(C4, C3, C5, C1)>())));
    v.push(with_rw::<(C4, C3, C5), (C2)>(with_queries::<(C4, C2, C3, C5)>(ops::<(C4, C2, C3, C5)>())));
    v.push(with_rw::<(C1, C5), (C3, C4, C2)>(with_queries::<(C1, C5, C4, C2, C3)>(ops::<(C1, C5, C4, C2, C3)>())));
    v.push(ops::<(C2, C1)>());
    v.push(ops::<(C1, C3)>());
    v.push(ops::<(C4, C1)>());
    v.push(ops::<(C1, C5)>());
    v.push(ops::<(C3, C2)>());
    v.push(ops::<(C2, C4)>());
    v.push(ops::<(C2, C5)>());
    v.push(ops::<(C4, C3)>());
    v.push(ops::<(C3, C5)>());
    v.push(ops::<(C5, C4)>());
    v.push(ops::<(C2, C1, C3)>());
    v.push(ops::<(C1, C2, C4)>());
    v.push(ops::<(C1, C2, C5)>());
    v.push(ops::<(C4, C3, C1)>());
    v.push(ops::<(C1, C3, C5)>());
    v.push(ops::<(C1, C4, C5)>());
    v.push(ops::<(C3, C2, C4)>());
    v.push(ops::<(C2, C5, C3)>());
    v.push(ops::<(C2, C4, C5)>());
    v.push(ops::<(C3, C4, C5)>());
    v.push(ops::<(C1, C2, C3, C4)>());
    v.push(ops::<(C1, C2, C3, C5)>());
    v.push(ops::<(C1, C2, C4, C5)>());
    v.push(ops::<(C1, C3, C4, C5)>());
    v.push(ops::<(C2, C3, C4, C5)>());
    v.push(ops::<(C1, C2, C3, C4, C5)>());
    v.push(with_queries::<(W9)>(ops::<(W9)>()));
    v.push(with_rw::<(W7), (W10)>(with_queries::<(W10, W7)>(ops::<(W10, W7)>())));
    v.push(with_rw::<(W11), (W16, W15)>(with_queries::<(W16, W11, W15)>(ops::<(W16, W11, W15)>())));
    v.push(with_rw::<(W8, W15), (W9, W17)>(with_queries::<(W8, W15, W17, W9)>(ops::<(W8, W15, W17, W9)>())));
    v.push(with_rw::<(W6, W15), (W10, W8, W11)>(with_queries::<(W15, W10, W11, W6, W8)>(ops::<(W15, W10, W11, W6, W8)>())));
    v.push(with_rw::<(W10, W12, W16), (W8, W15, W13)>(with_queries::<(W15, W12, W8, W16, W10, W13)>(ops::<(W15, W12, W8, W16, W10, W13)>())));
    v.push(with_rw::<(W6, W17, W10), (W12, W13, W15, W7)>(with_queries::<(W17, W15, W6, W12, W10, W7, W13)>(ops::<(W17, W15, W6, W12, W10, W7, W13)>())));
    v.push(with_rw::<(W12, W8, W15, W9), (W11, W7, W17, W14)>(with_queries::<(W17, W7, W12, W15, W8, W14, W11, W9)>(ops::<(W17, W7, W12, W15, W8, W14, W11, W9)>())));
    v.push(with_rw::<(W17, W16, W14, W12), (W6, W8, W10, W7, W15)>(with_queries::<(W12, W16, W7, W10, W14, W8, W17, W15, W6)>(ops::<(W12, W16, W7, W10, W14, W8, W17, W15, W6)>())));
    v.push(with_rw::<(W9, W17, W10, W15, W8), (W16, W11, W6, W14, W7)>(with_queries::<(W10, W11, W17, W9, W16, W6, W15, W14, W8, W7)>(ops::<(W10, W11, W17, W9, W16, W6, W15, W14, W8, W7)>())));
    v.push(with_rw::<(W9, W8, W13, W12, W7), (W16, W10, W15, W6, W14, W11)>(with_queries::<(W13, W12, W10, W6, W11, W15, W9, W8, W14, W7, W16)>(ops::<(W13, W12, W10, W6, W11, W15, W9, W8, W14, W7, W16)>())));
    v.push(with_rw::<(W10, W7, W13, W14, W11, W17), (W6, W16, W9, W15, W8, W12)>(with_queries::<(W9, W6, W8, W11, W7, W10, W17, W12, W14, W15, W16, W13)>(ops::<(W9, W6, W8, W11, W7, W10, W17, W12, W14, W15, W16, W13)>())));
    v.push(ops::<(W7, W8)>());
    v.push(ops::<(W8, W12, W15)>());
    v.push(ops::<(W11, W6, W9, W8)>());
    v.push(ops::<(W11, W10, W17, W14, W6)>());
    v.push(ops::<(W15, W6, W17, W14, W13, W12)>());
    v.push(ops::<(W6, W16, W8, W10, W14, W11, W15)>());
    v.push(ops::<(W13, W7, W10, W15, W6, W17, W8, W9)>());
    v.push(ops::<(W7, W17, W9, W15, W11, W10, W8, W12, W6)>());
    v.push(ops::<(W16, W13, W11, W12, W14, W6, W8, W10, W15, W17)>());
    v.push(ops::<(W7, W9, W17, W15, W6, W14, W11, W13, W8, W12, W10)>());
    v.push(ops::<(W11, W9, W15, W13, W14, W8, W17, W16, W6, W10, W7, W12)>());
    v.push(ops::<(W6)>());
    v.push(ops::<(W7)>());
    v.push(ops::<(W8)>());
    v.push(ops::<(W10)>());
    v.push(ops::<(W11)>());
    v.push(ops::<(W12)>());
    v.push(ops::<(W13)>());
    v.push(ops::<(W14)>());
    v.push(ops::<(W15)>());
    v.push(ops::<(W16)>());
    v.push(ops::<(W17)>());
    v.push(ops::<(X18)>());
    v.push(ops::<(X19)>());
    v.push(ops::<(X20)>());
    v.push(ops::<(X20, C1)>());
    v.push(ops::<(C1, X20)>());
    v.push(ops::<(X21)>());
    v.push(ops::<(X21, C1)>());
    v.push(ops::<(X22)>());
    v.push(ops::<(X22, C4)>());
    v.push(ops::<(X23)>());
    v.push(ops::<(X23, C1)>());
    v.push(ops::<(X24)>());
    v.push(ops::<(X24, C1)>());
    v.push(ops::<(X24, X21, W6)>());
    v.push(ops::<(X25)>());
    v.push(ops::<(X25, X26, C1)>());
    v.push(ops::<(X26)>());
    v.push(ops::<(X26, W11)>());
    v.push(ops::<(X26, W11, W14)>());
    v.push(ops::<(W6, X23)>());
    v.push(ops::<(X18, W6)>());
    v.push(ops::<(X21, X26, X24, W14)>());
    v.push(ops::<(W17, X21)>());
    v.push(ops::<(C4, X21)>());
    v.push(ops::<(W11, X26, W17, W9)>());
    v.push(ops::<(C2, W11)>());
    v.push(ops::<(W10, W17)>());
    v.push(with_queries::<(P27)>(ops::<(P27)>()));
    v.push(with_queries::<(P28)>(ops::<(P28)>()));
    v.push(with_queries::<(P29)>(ops::<(P29)>()));
    v.push(with_rw::<(P27), (P28)>(with_queries::<(P27, P28)>(ops::<(P27, P28)>())));
    v.push(with_rw::<(P27), (P29)>(with_queries::<(P27, P29)>(ops::<(P27, P29)>())));
    v.push(with_rw::<(P28), (P29)>(with_queries::<(P28, P29)>(ops::<(P28, P29)>())));
    v.push(with_rw::<(P27), (P28, P29)>(with_queries::<(P27, P28, P29)>(ops::<(P27, P28, P29)>())));
    v.push(with_queries::<(P30)>(ops::<(P30)>()));
    v.push(with_queries::<(P31)>(ops::<(P31)>()));
    v.push(with_queries::<(P32)>(ops::<(P32)>()));
    v.push(with_rw::<(P30), (P31)>(with_queries::<(P30, P31)>(ops::<(P30, P31)>())));
    v.push(with_rw::<(P30), (P32)>(with_queries::<(P30, P32)>(ops::<(P30, P32)>())));
    v.push(with_rw::<(P31), (P32)>(with_queries::<(P31, P32)>(ops::<(P31, P32)>())));
    v.push(with_rw::<(P30), (P31, P32)>(with_queries::<(P30, P31, P32)>(ops::<(P30, P31, P32)>())));
    v.push(with_queries::<(P33)>(ops::<(P33)>()));
    v.push(with_queries::<(P34)>(ops::<(P34)>()));
    v.push(with_queries::<(P35)>(ops::<(P35)>()));
    v.push(with_rw::<(P33), (P34)>(with_queries::<(P33, P34)>(ops::<(P33, P34)>())));
    v.push(with_rw::<(P33), (P35)>(with_queries::<(P33, P35)>(ops::<(P33, P35)>())));
    v.push(with_rw::<(P34), (P35)>(with_queries::<(P34, P35)>(ops::<(P34, P35)>())));
    v.push(with_rw::<(P33), (P34, P35)>(with_queries::<(P33, P34, P35)>(ops::<(P33, P34, P35)>())));
    v.push(ops::<(L36)>());
    v.push(ops::<(L37)>());
    v.push(ops::<(L38)>());
    v.push(ops::<(L39)>());
    v.push(ops::<(L40)>());
    v.push(ops::<(L41)>());
    v.push(ops::<(L42)>());
    v.push(ops::<(L43)>());
    v.push(ops::<(L44)>());
    v.push(ops::<(L45)>());
    v.push(ops::<(L36, L39, L37)>());
    v.push(ops::<(L38, L40, L41)>());
    v.push(ops::<(L42, X22, L43)>());
    v.push(ops::<(L36, L37, L38, L39, L40, L41)>());
    v.push(with_queries::<(S46)>(ops::<(S46)>()));
    v.push(with_queries::<(S47)>(ops::<(S47)>()));
    v.push(with_queries::<(S48)>(ops::<(S48)>()));
    v.push(with_queries::<(S49)>(ops::<(S49)>()));
    v.push(with_rw::<(S46), (S47)>(with_queries::<(S46, S47)>(ops::<(S46, S47)>())));
    v.push(with_rw::<(S48), (S46)>(with_queries::<(S48, S46)>(ops::<(S48, S46)>())));
    v.push(with_rw::<(S49), (S46)>(with_queries::<(S49, S46)>(ops::<(S49, S46)>())));
    v.push(with_rw::<(S48), (S49)>(with_queries::<(S48, S49)>(ops::<(S48, S49)>())));
    v.push(with_rw::<(S47), (S48, S46)>(with_queries::<(S47, S48, S46)>(ops::<(S47, S48, S46)>())));
    v.push(with_rw::<(S46), (S49, S48)>(with_queries::<(S46, S49, S48)>(ops::<(S46, S49, S48)>())));
    v.push(with_rw::<(S46), (S47, S48, S49)>(with_queries::<(S46, S47, S48, S49)>(ops::<(S46, S47, S48, S49)>())));
    v.push(with_rw::<(S46), (C1)>(with_queries::<(S46, C1)>(ops::<(S46, C1)>())));
    v.push(with_rw::<(C2), (S46)>(with_queries::<(C2, S46)>(ops::<(C2, S46)>())));
    v.push(with_rw::<(S47), (C3)>(with_queries::<(S47, C3)>(ops::<(S47, C3)>())));
    v.push(with_rw::<(C1), (S49)>(with_queries::<(C1, S49)>(ops::<(C1, S49)>())));
    v.push(with_rw::<(S48), (C1, S46)>(with_queries::<(S48, C1, S46)>(ops::<(S48, C1, S46)>())));
    v.push(ops::<(M50)>());
    v.push(ops::<(M51)>());
    v.push(ops::<(M52)>());
    v.push(ops::<(M53)>());
    v.push(ops::<(M54)>());
    v.push(ops::<(M55)>());
    v.push(ops::<(M56)>());
    v.push(ops::<(M57)>());
    v.push(ops::<(M58)>());
    v.push(ops::<(M59)>());
    v.push(ops::<(M60)>());
    v.push(ops::<(M61)>());
    v.push(ops::<(M62)>());
    v.push(ops::<(M63)>());
    v.push(ops::<(M64)>());
    v.push(ops::<(M65)>());
    v.push(ops::<(M66)>());
    v.push(ops::<(M67)>());
    v.push(ops::<(M68)>());
    v.push(ops::<(M69)>());
    v.push(ops::<(M70)>());
    v.push(ops::<(M71)>());
    v.push(ops::<(M72)>());
    v.push(ops::<(M73)>());
    v.push(ops::<(M74)>());
    v.push(ops::<(M75)>());
    v.push(ops::<(M76)>());
    v.push(ops::<(M77)>());
    v.push(ops::<(M78)>());
    v.push(ops::<(M79)>());
    v.push(ops::<(M80)>());
    v.push(ops::<(M81)>());
    v.push(ops::<(M82)>());
    v.push(ops::<(M83)>());
    v.push(ops::<(M84)>());
    v.push(ops::<(M85)>());
    v.push(ops::<(M86)>());
    v.push(ops::<(M87)>());
    v.push(ops::<(M88)>());
    v.push(ops::<(M89)>());
    v.push(ops::<(M90)>());
    v.push(ops::<(M91)>());
    v.push(ops::<(M92)>());
    v.push(ops::<(M93)>());
    v.push(ops::<(M94)>());
    v.push(ops::<(M95)>());
    v.push(ops::<(M96)>());
    v.push(ops::<(M97)>());
    v.push(ops::<(M98)>());
    v.push(ops::<(M99)>());
    v.push(ops::<(M100)>());
    v.push(ops::<(M101)>());
    v.push(ops::<(M102)>());
    v.push(ops::<(M103)>());
    v.push(ops::<(M104)>());
    v.push(ops::<(M105)>());
    v.push(ops::<(M106)>());
    v.push(ops::<(M107)>());
    v.push(ops::<(M108)>());
    v.push(ops::<(M109)>());
    v.push(ops::<(M110)>());
    v.push(ops::<(M111)>());
    v.push(ops::<(M112)>());
    v.push(ops::<(M113)>());
    v.push(with_rw::<(M110), (M100)>(with_queries::<(M110, M100)>(ops::<(M110, M100)>())));
    v.push(with_rw::<(M77), (M54, C3)>(with_queries::<(M77, M54, C3)>(ops::<(M77, M54, C3)>())));
    v.push(with_rw::<(M51, M109), (M70, M82, M99)>(with_queries::<(M51, M109, M70, M82, M99)>(ops::<(M51, M109, M70, M82, M99)>())));
    v.push(with_rw::<(M88, M82, C3, M70), (M89, W13, M67, M58)>(with_queries::<(M88, M82, C3, M70, M89, W13, M67, M58)>(ops::<(M88, M82, C3, M70, M89, W13, M67, M58)>())));
    v.push(with_rw::<(M88, M90, M91, M110, M52, M106), (S48, M92, C1, M94, C3, M72)>(with_queries::<(M88, M90, M91, M110, M52, M106, S48, M92, C1, M94, C3, M72)>(ops::<(M88, M90, M91, M110, M52, M106, S48, M92, C1, M94, C3, M72)>())));
    v.push(with_rw::<(C3, M70, M64, M55, M51, M76), (M89, M78, M83, M73, M96, M85)>(with_queries::<(C3, M70, M64, M55, M51, M76, M89, M78, M83, M73, M96, M85)>(ops::<(C3, M70, M64, M55, M51, M76, M89, M78, M83, M73, M96, M85)>())));
    v.push(with_rw::<(M81, M86, M61, M109, M93, M68), (M85, M67, M94, M53, M66, M113)>(with_queries::<(M81, M86, M61, M109, M93, M68, M85, M67, M94, M53, M66, M113)>(ops::<(M81, M86, M61, M109, M93, M68, M85, M67, M94, M53, M66, M113)>())));
    v
}
