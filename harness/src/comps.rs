//! Component, tag and group types, and generic access to tuples of them.
use division_ecs::*;
use division_ecs::query::access::ComponentQueryAccess;

pub const BAD: u32 = 2_000_000_001;

pub trait Cmp: Component + 'static {
    const ID: u8;
    fn mk(v: u32) -> Self {
        unsafe {
            let mut s = std::mem::MaybeUninit::<Self>::uninit();
            let p = s.as_mut_ptr() as *mut u8;
            let b = v.to_le_bytes();
            for i in 0..std::mem::size_of::<Self>() {
                *p.add(i) = b[i % 4];
            }
            s.assume_init()
        }
    }
    /// the value of a component of less than four bytes for a stamp
    fn fit(v: u32) -> u32 {
        match std::mem::size_of::<Self>() {
            1 => 1 + v % 250,
            2 => 1 + v % 65521,
            3 => 1 + v % 16777213,
            _ => v,
        }
    }
    /// The stamp that fills the component, or BAD if the bytes are not all from one stamp.
    fn rd(&self) -> u32 {
        unsafe {
            let n = std::mem::size_of::<Self>();
            let p = std::slice::from_raw_parts(self as *const Self as *const u8, n);
            if n < 4 {
                let mut b = [0; 4];
                b[..n].copy_from_slice(p);
                return u32::from_le_bytes(b);
            }
            let b = [p[0], p[1], p[2], p[3]];
            for i in 4..n {
                if p[i] != b[i % 4] {
                    return BAD;
                }
            }
            let v = u32::from_le_bytes(b);
            if v >= 2_000_000_000 { BAD } else { v }
        }
    }
}

macro_rules! comp {
    ($n:ident, $id:expr, $elem:ty, $len:expr, $al:expr) => {
        #[derive(Clone, Copy, Component)]
        #[repr(C, align($al))]
        pub struct $n([$elem; $len]);
        impl Cmp for $n {
            const ID: u8 = $id;
        }
    };
}
comp!(C1, 1, u8, 4, 4);
comp!(C2, 2, u8, 8, 8);
comp!(C3, 3, u8, 64, 64);
comp!(C4, 4, u8, 1500, 1);
comp!(C5, 5, u8, 3000, 4);
// small ones for long tuples
comp!(W6, 6, u8, 4, 1);
comp!(W7, 7, u8, 6, 2);
comp!(W8, 8, u8, 8, 8);
comp!(W9, 9, u8, 12, 4);
comp!(W10, 10, u8, 16, 16);
comp!(W11, 11, u8, 5, 1);
comp!(W12, 12, u8, 4, 4);
comp!(W13, 13, u8, 24, 8);
comp!(W14, 14, u8, 32, 32);
comp!(W15, 15, u8, 10, 2);
comp!(W16, 16, u8, 40, 4);
comp!(W17, 17, u8, 7, 1);
// components that do not fit in a page (alone / together)
comp!(X18, 18, u8, 16384, 1);
comp!(X19, 19, u8, 16388, 4);
comp!(X20, 20, u8, 9000, 4);
comp!(X21, 21, u8, 128, 128);
comp!(X22, 22, u8, 4096, 4096);
comp!(X23, 23, u8, 8192, 8192);
comp!(X24, 24, u8, 700, 4);
comp!(X25, 25, u8, 5461, 1);
comp!(X26, 26, u8, 48, 16);
// families for the replay of the page model: a few rows per page, fewer the more types there are
comp!(P27, 27, u8, 8000, 1);
comp!(P28, 28, u8, 8000, 8);
comp!(P29, 29, u8, 8000, 4);
comp!(P30, 30, u8, 5300, 4);
comp!(P31, 31, u8, 5300, 1);
comp!(P32, 32, u8, 5300, 2);
comp!(P33, 33, u8, 4000, 8);
comp!(P34, 34, u8, 4000, 4);
comp!(P35, 35, u8, 4000, 1);
// together they need gaps if they lie in the order of their ids
comp!(L36, 36, u8, 1092, 1);
comp!(L37, 37, u8, 1092, 2);
comp!(L38, 38, u8, 1092, 4);
comp!(L39, 39, u8, 1088, 64);
comp!(L40, 40, u8, 1088, 64);
comp!(L41, 41, u8, 1092, 1);
comp!(L42, 42, u8, 5440, 1);
comp!(L43, 43, u8, 5440, 1);
comp!(L44, 44, u8, 512, 512);
comp!(L45, 45, u8, 1024, 1024);
// less than four bytes
comp!(S46, 46, u8, 1, 1);
comp!(S47, 47, u8, 2, 1);
comp!(S48, 48, u8, 3, 1);
comp!(S49, 49, u8, 2, 2);
// many types in one set
comp!(M50, 50, u8, 4, 1);
comp!(M51, 51, u8, 2, 2);
comp!(M52, 52, u8, 12, 4);
comp!(M53, 53, u8, 4, 2);
comp!(M54, 54, u8, 1, 1);
comp!(M55, 55, u8, 16, 16);
comp!(M56, 56, u8, 4, 4);
comp!(M57, 57, u8, 8, 8);
comp!(M58, 58, u8, 4, 1);
comp!(M59, 59, u8, 2, 2);
comp!(M60, 60, u8, 12, 4);
comp!(M61, 61, u8, 4, 2);
comp!(M62, 62, u8, 1, 1);
comp!(M63, 63, u8, 16, 16);
comp!(M64, 64, u8, 4, 4);
comp!(M65, 65, u8, 8, 8);
comp!(M66, 66, u8, 4, 1);
comp!(M67, 67, u8, 2, 2);
comp!(M68, 68, u8, 12, 4);
comp!(M69, 69, u8, 4, 2);
comp!(M70, 70, u8, 1, 1);
comp!(M71, 71, u8, 16, 16);
comp!(M72, 72, u8, 4, 4);
comp!(M73, 73, u8, 8, 8);
comp!(M74, 74, u8, 4, 1);
comp!(M75, 75, u8, 2, 2);
comp!(M76, 76, u8, 12, 4);
comp!(M77, 77, u8, 4, 2);
comp!(M78, 78, u8, 1, 1);
comp!(M79, 79, u8, 16, 16);
comp!(M80, 80, u8, 4, 4);
comp!(M81, 81, u8, 8, 8);
comp!(M82, 82, u8, 4, 1);
comp!(M83, 83, u8, 2, 2);
comp!(M84, 84, u8, 12, 4);
comp!(M85, 85, u8, 4, 2);
comp!(M86, 86, u8, 1, 1);
comp!(M87, 87, u8, 16, 16);
comp!(M88, 88, u8, 4, 4);
comp!(M89, 89, u8, 8, 8);
comp!(M90, 90, u8, 4, 1);
comp!(M91, 91, u8, 2, 2);
comp!(M92, 92, u8, 12, 4);
comp!(M93, 93, u8, 4, 2);
comp!(M94, 94, u8, 1, 1);
comp!(M95, 95, u8, 16, 16);
comp!(M96, 96, u8, 4, 4);
comp!(M97, 97, u8, 8, 8);
comp!(M98, 98, u8, 4, 1);
comp!(M99, 99, u8, 2, 2);
comp!(M100, 100, u8, 12, 4);
comp!(M101, 101, u8, 4, 2);
comp!(M102, 102, u8, 1, 1);
comp!(M103, 103, u8, 16, 16);
comp!(M104, 104, u8, 4, 4);
comp!(M105, 105, u8, 8, 8);
comp!(M106, 106, u8, 4, 1);
comp!(M107, 107, u8, 2, 2);
comp!(M108, 108, u8, 12, 4);
comp!(M109, 109, u8, 4, 2);
comp!(M110, 110, u8, 1, 1);
comp!(M111, 111, u8, 16, 16);
comp!(M112, 112, u8, 4, 4);
comp!(M113, 113, u8, 8, 8);

#[derive(Clone, Copy, Component)]
pub struct D1(pub u32);
#[derive(Tag)]
pub struct DTag;

pub struct Tg<const N: usize>;
impl<const N: usize> Tag for Tg<N> {}

pub trait Tup: ComponentTuple + 'static {
    fn ids() -> Vec<u8>;
    fn type_ids() -> Vec<std::any::TypeId>;
    fn types() -> Vec<ComponentType>;
    fn mk(v: &[u32]) -> Self;
    fn fit(v: &[u32]) -> Vec<u32>;
    fn rd(r: &Self::RefTuple<'_>) -> Vec<u32>;
    fn rdm(r: &Self::MutRefTuple<'_>) -> Vec<u32>;
    fn wr(r: Self::MutRefTuple<'_>, v: &[u32]);
    fn addr(r: &Self::RefTuple<'_>) -> Vec<usize>;
    fn addrm(r: &Self::MutRefTuple<'_>) -> Vec<usize>;
    fn sizes() -> Vec<(usize, usize)>;
    fn cloned(r: Self::RefTuple<'_>) -> Vec<u32>;
}

macro_rules! tup {
    ($($T:ident $v:ident $i:tt),+) => {
        #[allow(unused_parens, unused_mut, unused_assignments, non_snake_case)]
        impl<$($T: Cmp),+> Tup for ($($T),+) {
            fn ids() -> Vec<u8> { vec![$($T::ID),+] }
            fn type_ids() -> Vec<std::any::TypeId> { vec![$(std::any::TypeId::of::<$T>()),+] }
            fn types() -> Vec<ComponentType> { vec![$(ComponentType::of::<$T>()),+] }
            fn fit(v: &[u32]) -> Vec<u32> { vec![$($T::fit(v[$i])),+] }
            fn mk(v: &[u32]) -> Self { ($($T::mk(v[$i])),+) }
            fn rd(r: &Self::RefTuple<'_>) -> Vec<u32> { let ($($v),+) = r; vec![$($v.rd()),+] }
            fn rdm(r: &Self::MutRefTuple<'_>) -> Vec<u32> { let ($($v),+) = r; vec![$($v.rd()),+] }
            fn wr(r: Self::MutRefTuple<'_>, v: &[u32]) { let ($($v),+) = r; $(*$v = $T::mk(v[$i]);)+ }
            fn addr(r: &Self::RefTuple<'_>) -> Vec<usize> { let ($($v),+) = r; vec![$(&**$v as *const $T as usize),+] }
            fn addrm(r: &Self::MutRefTuple<'_>) -> Vec<usize> { let ($($v),+) = r; vec![$(&**$v as *const $T as usize),+] }
            fn sizes() -> Vec<(usize, usize)> { vec![$((std::mem::size_of::<$T>(), std::mem::align_of::<$T>())),+] }
            fn cloned(r: Self::RefTuple<'_>) -> Vec<u32> { let ($($v),+) = ClonedExtension::cloned(r); vec![$($v.rd()),+] }
        }
    };
}
tup!(T0 v0 0);
tup!(T0 v0 0, T1 v1 1);
tup!(T0 v0 0, T1 v1 1, T2 v2 2);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4, T5 v5 5);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4, T5 v5 5, T6 v6 6);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4, T5 v5 5, T6 v6 6, T7 v7 7);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4, T5 v5 5, T6 v6 6, T7 v7 7, T8 v8 8);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4, T5 v5 5, T6 v6 6, T7 v7 7, T8 v8 8, T9 v9 9);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4, T5 v5 5, T6 v6 6, T7 v7 7, T8 v8 8, T9 v9 9, T10 v10 10);
tup!(T0 v0 0, T1 v1 1, T2 v2 2, T3 v3 3, T4 v4 4, T5 v5 5, T6 v6 6, T7 v7 7, T8 v8 8, T9 v9 9, T10 v10 10, T11 v11 11);

/// One item of a query: values read, addresses, values written.
pub struct Item {
    pub tok: usize,
    pub rd: Vec<u32>,
    pub wr: Vec<u32>,
}

pub trait Acc: ComponentQueryAccess + 'static {
    /// types in the order values are reported; the written ones are the last `nw()`
    fn ids() -> Vec<u8>;
    fn nw() -> usize;
    fn item(o: Self::AccessOutput<'_>, stamp: &mut Option<u32>) -> Item;
}

fn stamps(n: usize, s: &mut Option<u32>) -> Option<Vec<u32>> {
    s.as_mut().map(|b| {
        let v = (*b..*b + n as u32).collect();
        *b += n as u32;
        v
    })
}

impl<R: Tup> Acc for ReadonlyAccess<R> {
    fn ids() -> Vec<u8> {
        R::ids()
    }
    fn nw() -> usize {
        0
    }
    fn item(o: Self::AccessOutput<'_>, _: &mut Option<u32>) -> Item {
        Item { tok: 0, rd: R::rd(&o), wr: vec![] }
    }
}
impl<W: Tup> Acc for WriteAccess<W> {
    fn ids() -> Vec<u8> {
        W::ids()
    }
    fn nw() -> usize {
        W::ids().len()
    }
    fn item(o: Self::AccessOutput<'_>, s: &mut Option<u32>) -> Item {
        let rd = W::rdm(&o);
        let wr = match stamps(rd.len(), s) {
            Some(v) => {
                let v = W::fit(&v);
                W::wr(o, &v);
                v
            }
            None => vec![],
        };
        Item { tok: 0, rd, wr }
    }
}
impl<R: Tup, W: Tup> Acc for ReadWriteAccess<R, W> {
    fn ids() -> Vec<u8> {
        let mut v = R::ids();
        v.extend(W::ids());
        v
    }
    fn nw() -> usize {
        W::ids().len()
    }
    fn item((r, w): Self::AccessOutput<'_>, s: &mut Option<u32>) -> Item {
        let mut rd = R::rd(&r);
        rd.extend(W::rdm(&w));
        let wr = match stamps(W::ids().len(), s) {
            Some(v) => {
                let v = W::fit(&v);
                W::wr(w, &v);
                v
            }
            None => vec![],
        };
        Item { tok: 0, rd, wr }
    }
}
