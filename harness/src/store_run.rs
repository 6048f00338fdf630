//! Executes store histories and reports what the public API answered.
use crate::comps::*;
use crate::out::*;
use churn::{ver, Runs};
use crate::{lib_call, TRACK};
use division_ecs::query::access::ComponentQueryAccess;
use division_ecs::*;
use std::any::{Any, TypeId};
use std::collections::HashMap;

#[derive(Clone, Default)]
pub struct QSpec {
    pub kind: char, // c(omponent) l(ist) o(rdered)
    pub ents: bool,
    pub filter: usize,
    pub group: usize,
    pub persist: bool,
    pub take: i64, // -1: to the end
    /// 0 next, 1 fold, 2 nth(take) then next, 3 count, 4 last; after `take` calls of next:
    /// 5 fold, 6 count, 7 last, 8 nth(2) then next
    pub style: usize,
    pub write: bool,
    pub list: Vec<usize>,
}

#[derive(Default)]
pub struct QRes {
    pub items: Vec<Item>,
    pub len: Vec<i64>,
    pub lo: Vec<i64>,
    pub hi: Vec<i64>,
    pub post: i64,
    pub over: i64,
    pub cnt: i64,
}

/// runs a kept query object on another store
type Foreign = fn(&mut dyn Any, &Store, &[Entity], usize) -> usize;
type Q = fn(&mut Ctx, &QSpec) -> QRes;

pub struct ShapeOps {
    pub ids: Vec<u8>,
    pub sizes: Vec<(usize, usize)>,
    pub type_ids: fn() -> Vec<TypeId>,
    pub types: fn() -> Vec<ComponentType>,
    pub fit: fn(&[u32]) -> Vec<u32>,
    pub arch: fn() -> Archetype,
    pub incl: fn(&mut ArchetypeBuilder),
    pub excl: fn(&mut ArchetypeBuilder),
    pub add: fn(&mut Store, Entity, &[u32]),
    pub rem: fn(&mut Store, Entity),
    pub get: fn(&Store, Entity) -> Option<Vec<u32>>,
    pub getm: fn(&mut Store, Entity) -> Option<Vec<u32>>,
    pub getc: fn(&Store, Entity) -> Option<Vec<u32>>,
    pub set: fn(&mut Store, Entity, &[u32]) -> Option<Vec<u32>>,
    pub addr: fn(&Store, Entity) -> Option<Vec<usize>>,
    pub addrm: fn(&mut Store, Entity) -> Option<Vec<usize>>,
    pub qr: Option<Q>,
    pub qw: Option<Q>,
    pub qrw: Option<(Q, Vec<u8>, usize)>,
}

pub fn ops<T: Tup>() -> ShapeOps {
    ShapeOps {
        ids: T::ids(),
        sizes: T::sizes(),
        type_ids: T::type_ids,
        types: T::types,
        fit: T::fit,
        arch: || Archetype::with_components::<T>(),
        incl: |b| {
            b.include_components::<T>();
        },
        excl: |b| {
            b.exclude_components::<T>();
        },
        add: |s, e, v| s.add_components(e, T::mk(v)),
        rem: |s, e| s.remove_components::<T>(e),
        get: |s, e| s.get_components_refs::<T>(e).map(|r| T::rd(&r)),
        getm: |s, e| s.get_components_refs_mut::<T>(e).map(|r| T::rdm(&r)),
        getc: |s, e| s.get_components_refs::<T>(e).map(|r| T::cloned(r)),
        set: |s, e, v| {
            s.get_components_refs_mut::<T>(e).map(|r| {
                let old = T::rdm(&r);
                T::wr(r, v);
                old
            })
        },
        addr: |s, e| s.get_components_refs::<T>(e).map(|r| T::addr(&r)),
        addrm: |s, e| s.get_components_refs_mut::<T>(e).map(|r| T::addrm(&r)),
        qr: None,
        qw: None,
        qrw: None,
    }
}

pub fn with_queries<T: Tup>(mut s: ShapeOps) -> ShapeOps {
    s.qr = Some(query::<ReadonlyAccess<T>>);
    s.qw = Some(query::<WriteAccess<T>>);
    s
}

pub fn with_rw<R: Tup, W: Tup>(mut s: ShapeOps) -> ShapeOps {
    type A<R, W> = ReadWriteAccess<R, W>;
    s.qrw = Some((query::<A<R, W>>, A::<R, W>::ids(), A::<R, W>::nw()));
    s
}

fn drive<I: Iterator>(
    mut it: I,
    q: &QSpec,
    cap: usize,
    res: &mut QRes,
    len: fn(&I) -> i64,
    mut item: impl FnMut(I::Item) -> Item,
) {
    let look = |it: &I, res: &mut QRes| {
        let (lo, hi) = it.size_hint();
        res.len.push(len(it));
        res.lo.push(lo.min(1_000_000_000) as i64);
        res.hi.push(hi.map(|h| h.min(1_000_000_000) as i64).unwrap_or(-1));
    };
    if q.style >= 5 {
        for _ in 0..q.take {
            look(&it, res);
            match it.next() {
                Some(o) => res.items.push(item(o)),
                None => break,
            }
        }
        look(&it, res);
    }
    match q.style {
        1 | 5 => {
            let items = &mut res.items;
            it.for_each(|o| {
                let v = item(o);
                items.push(v)
            });
        }
        3 | 6 => res.cnt = it.count() as i64,
        4 | 7 => {
            if let Some(o) = it.last() {
                res.items.push(item(o));
            }
        }
        _ => {
            let mut k: i64 = 0;
            let mut first = match q.style {
                2 => q.take,
                8 => 2,
                _ => -1,
            };
            loop {
                if q.style != 8 || k > 0 {
                    look(&it, res);
                }
                if q.style == 0 && q.take >= 0 && k >= q.take {
                    break;
                }
                if k as usize > cap {
                    res.over = 1;
                    break;
                }
                let o = if first >= 0 { it.nth(first as usize) } else { it.next() };
                first = -1;
                match o {
                    Some(o) => res.items.push(item(o)),
                    None => {
                        for _ in 0..3 {
                            if let Some(_) = it.next() {
                                res.post += 1
                            }
                        }
                        look(&it, res);
                        break;
                    }
                }
                k += 1;
            }
        }
    }
}

fn no_len<I>(_: &I) -> i64 {
    -1
}
fn ex_len<I: ExactSizeIterator>(i: &I) -> i64 {
    i.len().min(1_000_000_000) as i64
}

fn query<A: Acc>(cx: &mut Ctx, q: &QSpec) -> QRes {
    let mut res = QRes::default();
    let mut stamp = if q.write && A::nw() > 0 { Some(cx.stamp) } else { None };
    let cap = cx.toks.len() * 2 + q.list.len() + 64;
    let toks = &cx.by_handle;
    let tok = |e: Entity| toks.get(&(e.id(), e.version())).copied().unwrap_or(0);
    let st = cx.store.as_ref().unwrap();
    match q.kind {
        'c' => {
            let key = TypeId::of::<ComponentQuery<A>>();
            let mut qo: Box<dyn Any> = match cx.queries.remove(&(key, 0)) {
                Some(x) if q.persist => x.0,
                _ => Box::new(ComponentQuery::<A>::new()),
            };
            {
                let qq = qo.downcast_mut::<ComponentQuery<A>>().unwrap();
                let it = st.component_query_iter(qq);
                if !q.ents {
                    drive(it, q, cap, &mut res, ex_len, |o| A::item(o, &mut stamp));
                } else {
                    let mut f = |(e, o): (Entity, A::AccessOutput<'_>)| {
                        let mut i = A::item(o, &mut stamp);
                        i.tok = tok(e);
                        i
                    };
                    let it = it.with_entities();
                    match q.filter {
                        0 => drive(it, q, cap, &mut res, no_len, &mut f),
                        1 => drive(it.filter_tag::<Tg<1>>(), q, cap, &mut res, no_len, &mut f),
                        _ => drive(it.filter_tag::<Tg<2>>(), q, cap, &mut res, no_len, &mut f),
                    }
                }
            }
            if q.persist {
                let f: Foreign = |o, s, _, take| {
                    s.component_query_iter(o.downcast_mut::<ComponentQuery<A>>().unwrap()).take(take).count()
                };
                cx.queries.insert((key, 0), (qo, f));
            }
        }
        'l' => {
            let key = TypeId::of::<EntityComponentQuery<A>>();
            let mut qo: Box<dyn Any> = match cx.queries.remove(&(key, 0)) {
                Some(x) if q.persist => x.0,
                _ => Box::new(EntityComponentQuery::<A>::new()),
            };
            let list: Vec<Entity> = q.list.iter().map(|t| cx.toks[*t - 1]).collect();
            {
                let qq = qo.downcast_mut::<EntityComponentQuery<A>>().unwrap();
                let it = st.entity_component_query_iter(&list, qq);
                if !q.ents {
                    drive(it, q, cap, &mut res, no_len, |o| A::item(o, &mut stamp));
                } else {
                    drive(it.with_entities(), q, cap, &mut res, no_len, |(e, o)| {
                        let mut i = A::item(o, &mut stamp);
                        i.tok = tok(e);
                        i
                    });
                }
            }
            if q.persist {
                let f: Foreign = |o, s, l, take| {
                    s.entity_component_query_iter(l, o.downcast_mut::<EntityComponentQuery<A>>().unwrap()).take(take).count()
                };
                cx.queries.insert((key, 0), (qo, f));
            }
        }
        _ => {
            if q.group == 1 {
                ordered::<A, Tg<1>>(st, &mut cx.queries, q, cap, &mut res, &mut stamp, &tok)
            } else {
                ordered::<A, Tg<2>>(st, &mut cx.queries, q, cap, &mut res, &mut stamp, &tok)
            }
        }
    }
    if let Some(s) = stamp {
        cx.stamp = s
    }
    res
}

fn ordered<A: Acc, G: Tag>(
    st: &Store,
    queries: &mut HashMap<(TypeId, u8), (Box<dyn Any>, Foreign)>,
    q: &QSpec,
    cap: usize,
    res: &mut QRes,
    stamp: &mut Option<u32>,
    tok: &dyn Fn(Entity) -> usize,
) {
    let key = TypeId::of::<OrderedComponentQuery<G, A>>();
    let mut qo: Box<dyn Any> = match queries.remove(&(key, 0)) {
        Some(x) if q.persist => x.0,
        _ => Box::new(OrderedComponentQuery::<G, A>::new()),
    };
    {
        let qq = qo.downcast_mut::<OrderedComponentQuery<G, A>>().unwrap();
        let it = st.ordered_query_iter(qq);
        if !q.ents {
            drive(it, q, cap, res, ex_len, |o| A::item(o, stamp));
        } else {
            drive(it.with_entities(), q, cap, res, no_len, |(e, o)| {
                let mut i = A::item(o, stamp);
                i.tok = tok(e);
                i
            });
        }
    }
    if q.persist {
        let f: Foreign = |o, s, _, take| {
            s.ordered_query_iter(o.downcast_mut::<OrderedComponentQuery<G, A>>().unwrap()).take(take).count()
        };
        queries.insert((key, 0), (qo, f));
    }
}

pub struct Ctx {
    pub store: Option<Store>,
    pub toks: Vec<Entity>,
    pub by_handle: HashMap<(u32, u32), usize>,
    pub queries: HashMap<(TypeId, u8), (Box<dyn Any>, Foreign)>,
    pub stamp: u32,
    pub comps: Vec<usize>, // shapes of the single components reported by vals/arch/addr
}

pub const NTAG: usize = 40;
pub const NGROUP: usize = 6;

macro_rules! by_n {
    ($n:expr, $f:ident, [$($k:literal)*]) => {
        match $n { $($k => $f!($k),)* _ => unreachable!() }
    };
}
macro_rules! tag_n {
    ($n:expr, $f:ident) => {
        by_n!($n, $f, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30
                       31 32 33 34 35 36 37 38 39 40])
    };
}
fn add_tag(s: &mut Store, e: Entity, g: usize) {
    macro_rules! f { ($k:literal) => { s.add_tag::<Tg<$k>>(e) } }
    tag_n!(g, f)
}
fn remove_tag(s: &mut Store, e: Entity, g: usize) {
    macro_rules! f { ($k:literal) => { s.remove_tag::<Tg<$k>>(e) } }
    tag_n!(g, f)
}
fn has_tag(s: &Store, e: Entity, g: usize) -> bool {
    macro_rules! f { ($k:literal) => { s.has_tag::<Tg<$k>>(e) } }
    tag_n!(g, f)
}
fn o_app(s: &mut Store, e: Entity, g: usize) {
    macro_rules! f { ($k:literal) => { s.add_entity_order_by::<Tg<$k>>(e) } }
    tag_n!(g, f)
}
fn o_next(s: &mut Store, e: Entity, a: Entity, g: usize) {
    macro_rules! f { ($k:literal) => { s.add_entity_next_to_order_by::<Tg<$k>>(e, a) } }
    tag_n!(g, f)
}
fn o_prev(s: &mut Store, e: Entity, a: Entity, g: usize) {
    macro_rules! f { ($k:literal) => { s.add_entity_previous_to_order_by::<Tg<$k>>(e, a) } }
    tag_n!(g, f)
}
fn o_rem(s: &mut Store, e: Entity, g: usize) {
    macro_rules! f { ($k:literal) => { s.remove_entity_order_by::<Tg<$k>>(e) } }
    tag_n!(g, f)
}
fn o_get(s: &Store, e: Option<Entity>, what: char, g: usize) -> Option<Entity> {
    macro_rules! f {
        ($k:literal) => {
            match what {
                'f' => s.get_first_entity_ordered_by::<Tg<$k>>(),
                'l' => s.get_last_entity_ordered_by::<Tg<$k>>(),
                'n' => s.get_next_entity_ordered_by::<Tg<$k>>(e.unwrap()),
                _ => s.get_previous_entity_ordered_by::<Tg<$k>>(e.unwrap()),
            }
        };
    }
    tag_n!(g, f)
}

/// a handle of another store
pub fn foreign(id: usize, version: usize) -> Entity {
    let mut s = Store::new();
    let mut e = s.create_entity();
    for _ in 0..id {
        e = s.create_entity();
    }
    for _ in 1..version {
        s.destroy_entity(e);
        e = s.create_entity();
    }
    if e.id() as usize != id || e.version() as usize != version {
        // the store under test is what is wrong here, which other histories tell
        return Entity::null();
    }
    e
}

pub fn bug(s: &str) -> ! {
    eprintln!("HARNESS-ERROR {s}");
    std::process::exit(7)
}

fn num(s: &str) -> usize {
    s.parse().unwrap_or_else(|_| bug(s))
}

fn open(cap: usize, o: &mut Out) -> Option<Ctx> {
    let mut cx = Ctx {
        store: None,
        toks: vec![],
        by_handle: HashMap::new(),
        queries: HashMap::new(),
        stamp: 1,
        comps: (0..5).collect(),
    };
    match lib_call(|| if cap == 0 { Store::new() } else { Store::with_capacity(cap) }) {
        Some(s) => {
            let c = s.entities_capacity().min(1 << 30);
            let cap = cap.min(1 << 30);
            cx.store = Some(s);
            o.ev(&format!("{{\"o\":\"new\",\"r\":\"ok\",\"req\":{cap},\"cap\":{c}}}"));
            Some(cx)
        }
        None => {
            let cap = cap.min(1 << 30);
            o.ev(&format!("{{\"o\":\"new\",\"r\":\"panic\",\"req\":{cap},\"cap\":0}}"));
            None
        }
    }
}

/// several stores at once; every line starts with the number of its store, whose events carry that number too.
/// The stores move in memory between the calls.
pub fn worlds(caps: &[usize], hist: &[Vec<String>], shapes: &[ShapeOps], o: &mut Out) {
    let base = TRACK.mem();
    let mut tmp: Vec<Archetype> = vec![];
    let mut all: Vec<Option<Box<Ctx>>> = vec![];
    let mut common: Box<Option<Ctx>> = Box::new(None);
    let mut queries = HashMap::new();
    let mut calls = 1u32;
    for (i, cap) in caps.iter().enumerate() {
        o.world = i + 1;
        all.push(open(*cap, o).map(Box::new));
    }
    for line in hist {
        let w = num(&line[0]);
        o.world = w;
        if line[1] == "gone" {
            let ok = match all[w - 1].take() {
                Some(mut cx) => lib_call(|| drop(cx.store.take())).is_some(),
                None => true,
            };
            o.ev(&format!("{{\"o\":\"gone\",\"r\":\"{}\"}}", r(ok)));
        } else if let Some(cx) = all[w - 1].take() {
            // half of the calls find their store where the other stores were for theirs,
            // and the kept query objects serve all of the stores
            calls = calls.wrapping_mul(1103515245).wrapping_add(12345);
            let mut cx = *cx;
            std::mem::swap(&mut cx.queries, &mut queries);
            let mut cx = if calls >> 16 & 1 == 0 {
                let mut moved = Box::new(cx);
                step(&mut moved, &line[1..], shapes, o, &base, &mut tmp);
                moved
            } else {
                *common = Some(cx);
                step((*common).as_mut().unwrap(), &line[1..], shapes, o, &base, &mut tmp);
                Box::new(common.take().unwrap())
            };
            std::mem::swap(&mut cx.queries, &mut queries);
            all[w - 1] = Some(cx);
        }
    }
    drop(queries);
    for cx in all.iter_mut().flatten() {
        let _ = lib_call(|| drop(cx.store.take()));
    }
    o.world = 0;
}

pub fn run(cap: usize, hist: &[Vec<String>], shapes: &[ShapeOps], o: &mut Out) {
    // histories that drop the store themselves report memory exactly
    let base = TRACK.mem();
    let mut cx = match open(cap, o) {
        Some(cx) => cx,
        None => return,
    };
    let mut tmp: Vec<Archetype> = vec![];
    for line in hist {
        step(&mut cx, line, shapes, o, &base, &mut tmp);
        if crate::TRACK.refused() {
            // a call that ended in a panic for want of memory is the last one
            std::mem::forget(cx);
            return;
        }
        if cx.store.is_none() {
            break;
        }
    }
    cx.queries = HashMap::new();
    let _ = lib_call(|| drop(cx.store.take()));
}

fn r(ok: bool) -> &'static str {
    if ok {
        "ok"
    } else {
        "panic"
    }
}

fn step(
    cx: &mut Ctx,
    l: &[String],
    shapes: &[ShapeOps],
    o: &mut Out,
    base: &(i64, i64, u32, u32, u32),
    tmp: &mut Vec<Archetype>,
) {
    let n = |i: usize| num(&l[i]);
    macro_rules! st {
        () => {
            cx.store.as_mut().unwrap()
        };
    }
    let fresh = |cx: &mut Ctx, k: usize| -> Vec<u32> {
        let b = cx.stamp;
        cx.stamp += k as u32;
        (b..b + k as u32).collect()
    };
    let toks_from = |cx: &Ctx, i: usize| -> Vec<usize> {
        if l.len() > i {
            l[i..].iter().map(|x| num(x)).collect()
        } else {
            (1..=cx.toks.len()).collect()
        }
    };
    let tok_of = |cx: &Ctx, e: Option<Entity>| -> i64 {
        match e {
            None => 0,
            Some(e) => cx.by_handle.get(&(e.id(), e.version())).map(|t| *t as i64).unwrap_or(-1),
        }
    };
    match l[0].as_str() {
        "comps" => cx.comps = l[1..].iter().map(|x| num(x)).collect(),
        "c" | "k" | "kr" => {
            let sh = if l[0] != "c" { Some(&shapes[n(1)]) } else { None };
            let e = match sh {
                None => lib_call(|| st!().create_entity()),
                Some(sh) => {
                    tmp.clear();
                    tmp.push((sh.arch)());
                    lib_call(|| st!().create_entity_with_archetype(&tmp[0]))
                }
            };
            let ids = sh.map(|s| s.ids.clone()).unwrap_or_default();
            match e {
                Some(e) => {
                    cx.toks.push(e);
                    cx.by_handle.insert((e.id(), e.version()), cx.toks.len());
                    let mut v = fresh(cx, ids.len());
                    if let Some(sh) = sh {
                        v = (sh.fit)(&v);
                    }
                    let mut w = true;
                    if let (Some(sh), "kr") = (sh, &l[0][..]) {
                        // what its components hold before anything was written into them
                        let p = lib_call(|| (sh.addr)(st!(), e)).flatten();
                        let zero = p.map(|p| {
                            p.iter().zip(&sh.sizes).all(|(a, (n, _))| {
                                (0..*n).all(|i| unsafe { ((a + i) as *const u8).read_volatile() == 0 })
                            })
                        });
                        let rr = if zero.is_some() { "ok" } else { "absent" };
                        let zero = zero.unwrap_or(false) as u8;
                        o.ev(&format!("{{\"o\":\"raw\",\"r\":\"{rr}\",\"s\":{},\"zero\":{zero}}}", nums(&ids)));
                    }
                    if let Some(sh) = sh {
                        w = lib_call(|| (sh.set)(st!(), e, &v)).flatten().is_some();
                    }
                    let c = lib_call(|| st!().entities_capacity()).unwrap_or(0);
                    o.ev(&format!(
                        "{{\"o\":\"c\",\"r\":\"{}\",\"id\":{},\"ver\":{},\"s\":{},\"v\":{},\"cap\":{}}}",
                        if w { "ok" } else { "unset" }, e.id().min(BAD), ver(e), nums(&ids), nums(&v), c
                    ));
                }
                None => o.ev(&format!(
                    "{{\"o\":\"c\",\"r\":\"panic\",\"id\":0,\"ver\":0,\"s\":{},\"v\":[],\"cap\":0}}",
                    nums(&ids)
                )),
            }
        }
        "a" => {
            let (t, sh) = (n(1), &shapes[n(2)]);
            let v = (sh.fit)(&fresh(cx, sh.ids.len()));
            let e = cx.toks[t - 1];
            let ok = lib_call(|| (sh.add)(st!(), e, &v)).is_some();
            o.ev(&format!("{{\"o\":\"a\",\"r\":\"{}\",\"t\":{t},\"s\":{},\"v\":{}}}", r(ok), nums(&sh.ids), nums(&v)));
        }
        "r" => {
            let (t, sh) = (n(1), &shapes[n(2)]);
            let e = cx.toks[t - 1];
            let ok = lib_call(|| (sh.rem)(st!(), e)).is_some();
            o.ev(&format!("{{\"o\":\"r\",\"r\":\"{}\",\"t\":{t},\"s\":{}}}", r(ok), nums(&sh.ids)));
        }
        "d" => {
            let e = cx.toks[n(1) - 1];
            let ok = lib_call(|| st!().destroy_entity(e)).is_some();
            o.ev(&format!("{{\"o\":\"d\",\"r\":\"{}\",\"t\":{},\"id\":{},\"ver\":{}}}", r(ok), n(1), e.id(), ver(e)));
        }
        "s" => {
            let (t, sh) = (n(1), &shapes[n(2)]);
            let v = (sh.fit)(&fresh(cx, sh.ids.len()));
            let e = cx.toks[t - 1];
            let old = lib_call(|| (sh.set)(st!(), e, &v));
            let (ok, has, old) = match old {
                None => (false, false, vec![]),
                Some(None) => (true, false, vec![]),
                Some(Some(x)) => (true, true, x),
            };
            o.ev(&format!(
                "{{\"o\":\"s\",\"r\":\"{}\",\"t\":{t},\"s\":{},\"v\":{},\"has\":{},\"old\":{}}}",
                r(ok), nums(&sh.ids), nums(&v), has as u8, nums(&old)
            ));
        }
        "t+" | "t-" => {
            let e = cx.toks[n(1) - 1];
            let g = n(2);
            let add = l[0] == "t+";
            let ok = lib_call(|| if add { add_tag(st!(), e, g) } else { remove_tag(st!(), e, g) }).is_some();
            o.ev(&format!("{{\"o\":\"{}\",\"r\":\"{}\",\"t\":{},\"g\":{g}}}", l[0], r(ok), n(1)));
        }
        "oa" | "or" => {
            let (g, t) = (n(1), n(2));
            let e = cx.toks[t - 1];
            let add = l[0] == "oa";
            let ok = lib_call(|| if add { o_app(st!(), e, g) } else { o_rem(st!(), e, g) }).is_some();
            o.ev(&format!("{{\"o\":\"{}\",\"r\":\"{}\",\"g\":{g},\"t\":{t}}}", l[0], r(ok)));
        }
        "on" | "op" => {
            let (g, t, a) = (n(1), n(2), n(3));
            let (e, ae) = (cx.toks[t - 1], cx.toks[a - 1]);
            let next = l[0] == "on";
            let ok = lib_call(|| if next { o_next(st!(), e, ae, g) } else { o_prev(st!(), e, ae, g) }).is_some();
            o.ev(&format!("{{\"o\":\"{}\",\"r\":\"{}\",\"g\":{g},\"t\":{t},\"a\":{a}}}", l[0], r(ok)));
        }
        // ---- bulk operations (one event each)
        "C" | "K" => {
            let k = n(1);
            let sh = if l[0] == "K" { Some(&shapes[n(2)]) } else { None };
            let ids = sh.map(|s| s.ids.clone()).unwrap_or_default();
            let m = ids.len();
            let v = fresh(cx, k * m);
            let b = v.first().copied().unwrap_or(0);
            tmp.clear();
            if let Some(sh) = sh {
                tmp.push((sh.arch)());
            }
            let mut ok = true;
            let mut hs = Runs::default();
            for j in 0..k {
                let e = match sh {
                    None => lib_call(|| st!().create_entity()),
                    Some(_) => lib_call(|| st!().create_entity_with_archetype(&tmp[0])),
                };
                match e {
                    None => {
                        ok = false;
                        break;
                    }
                    Some(e) => {
                        hs.push(e);
                        cx.toks.push(e);
                        cx.by_handle.insert((e.id(), e.version()), cx.toks.len());
                        if let Some(sh) = sh {
                            ok &= lib_call(|| (sh.set)(st!(), e, &(sh.fit)(&v[j * m..j * m + m]))).flatten().is_some();
                        }
                    }
                }
            }
            let c = st!().entities_capacity();
            o.ev(&format!(
                "{{\"o\":\"C\",\"r\":\"{}\",\"k\":{k},\"s\":{},\"b\":{b},\"cap\":{c},\"hs\":{}}}",
                r(ok), nums(&ids), hs.text()
            ));
        }
        "A" | "R" | "D" | "T+" | "T-" | "OA" | "OR" => {
            let (lo, hi, step) = (n(1), n(2), n(3));
            let mut ok = true;
            let arg = if l.len() > 4 { n(4) } else { 0 };
            let ids = if l[0] == "A" || l[0] == "R" { shapes[arg].ids.clone() } else { vec![] };
            let m = ids.len();
            let b = cx.stamp;
            let mut t = lo;
            let mut hs = Runs::default();
            while t <= hi {
                let e = cx.toks[t - 1];
                hs.push(e);
                let one = match l[0].as_str() {
                    "A" => {
                        let v = (shapes[arg].fit)(&fresh(cx, m));
                        lib_call(|| (shapes[arg].add)(st!(), e, &v))
                    }
                    "R" => lib_call(|| (shapes[arg].rem)(st!(), e)),
                    "D" => lib_call(|| st!().destroy_entity(e)),
                    "T+" => lib_call(|| add_tag(st!(), e, arg)),
                    "T-" => lib_call(|| remove_tag(st!(), e, arg)),
                    "OA" => lib_call(|| o_app(st!(), e, arg)),
                    _ => lib_call(|| o_rem(st!(), e, arg)),
                };
                ok &= one.is_some();
                t += step;
            }
            o.ev(&format!(
                "{{\"o\":\"{}\",\"r\":\"{}\",\"lo\":{lo},\"hi\":{hi},\"st\":{step},\"g\":{arg},\"s\":{},\"b\":{b},\"hs\":{}}}",
                l[0], r(ok), nums(&ids), if l[0] == "D" { hs.text() } else { "[]".to_string() }
            ));
        }
        // V k: like U, the two calls only
        "V" => {
            let k = n(1);
            let s = st!();
            let (ok, hs) = churn::store(k, |f| lib_call(f).is_some(), s);
            let c = st!().entities_capacity();
            o.ev(&format!("{{\"o\":\"U\",\"r\":\"{}\",\"k\":{k},\"cap\":{c},\"hs\":{}}}", r(ok), hs));
        }
        // U k [shape]: k times create one entity (with an archetype and a tag) and destroy it
        "U" => {
            let k = n(1);
            tmp.clear();
            if l.len() > 2 {
                tmp.push((shapes[n(2)].arch)())
            }
            let mut ok = true;
            let mut hs = Runs::default();
            for _ in 0..k {
                let e = lib_call(|| {
                    let e = match tmp.first() {
                        None => st!().create_entity(),
                        Some(a) => st!().create_entity_with_archetype(a),
                    };
                    st!().add_tag::<Tg<1>>(e);
                    st!().destroy_entity(e);
                    e
                });
                match e {
                    Some(e) => hs.push(e),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            let c = st!().entities_capacity();
            o.ev(&format!("{{\"o\":\"U\",\"r\":\"{}\",\"k\":{k},\"cap\":{c},\"hs\":{}}}", r(ok), hs.text()));
        }
        // X mode num dver shape group destroy t1 t2: a handle this store never gave out, in every call
        //   mode a: id num; c: id capacity + num; n: the null handle. Its version is dver above the last one of the id
        "X" => {
            let cap = st!().entities_capacity();
            let (sh, g, t1, t2) = (&shapes[n(4)], n(5), n(7), n(8));
            let x = match l[1].as_str() {
                "n" => Entity::null(),
                m => {
                    let id = if m == "c" { cap + n(2) } else { n(2) };
                    let top = cx.by_handle.keys().filter(|k| k.0 as usize == id).map(|k| k.1).max().unwrap_or(0);
                    foreign(id, top as usize + n(3))
                }
            };
            let (e1, e2) = (cx.toks[t1 - 1], cx.toks[t2 - 1]);
            // 0: absent, 1: there, 2: panic
            let yes = |x: Option<bool>| x.map(|b| b as u8).unwrap_or(2);
            let rd = vec![
                yes(lib_call(|| st!().is_alive(x))),
                yes(lib_call(|| st!().is_valid_entity_with_archetype(x))),
                yes(lib_call(|| st!().get_entity_archetype(x).is_some())),
                yes(lib_call(|| (sh.addr)(st!(), x).is_some())),
                yes(lib_call(|| (sh.addrm)(st!(), x).is_some())),
                yes(lib_call(|| (1..=8).any(|g| has_tag(st!(), x, g)))),
                yes(lib_call(|| o_get(st!(), Some(x), 'n', g).is_some())),
                yes(lib_call(|| o_get(st!(), Some(x), 'p', g).is_some())),
            ];
            let q = QSpec { kind: 'l', ents: true, take: -1, ..QSpec::default() };
            let mut q = QSpec { list: vec![t1, 0, t2], ..q };
            cx.toks.push(x);
            q.list[1] = cx.toks.len();
            let res = sh.qr.map(|f| lib_call(|| f(cx, &q)));
            cx.toks.pop();
            let (lr, it) = match &res {
                None => ("none", vec![]),
                Some(None) => ("panic", vec![]),
                Some(Some(r)) => ("ok", r.items.iter().map(|i| format!("[{},{}]", i.tok, nums(&i.rd))).collect()),
            };
            let v = (sh.fit)(&fresh(cx, sh.ids.len()));
            let did = |x: Option<()>| if x.is_some() { 0u8 } else { 2 };
            let up = vec![
                did(lib_call(|| (sh.add)(st!(), x, &v))),
                did(lib_call(|| (sh.rem)(st!(), x))),
                did(lib_call(|| add_tag(st!(), x, g))),
                did(lib_call(|| remove_tag(st!(), x, g))),
                did(lib_call(|| o_app(st!(), x, g))),
                did(lib_call(|| o_next(st!(), x, e1, g))),
                did(lib_call(|| o_next(st!(), e2, x, g))),
                did(lib_call(|| o_prev(st!(), x, e1, g))),
                did(lib_call(|| o_prev(st!(), e2, x, g))),
                did(lib_call(|| o_rem(st!(), x, g))),
            ];
            let ds = if n(6) == 1 { did(lib_call(|| st!().destroy_entity(x))) as i32 } else { -1 };
            o.ev(&format!(
                "{{\"o\":\"X\",\"id\":{},\"tok\":{},\"t\":[{t1},{t2}],\"s\":{},\"rd\":{},\"lr\":\"{lr}\",\"it\":[{}],\"up\":{},\"ds\":{ds}}}",
                x.id().min(2_000_000_000), tok_of(cx, Some(x)), nums(&sh.ids), nums(&rd), it.join(","), nums(&up)
            ));
        }
        // ---- queries: q kind mode shape ents filter group persist take style write [list]
        "q" => {
            let sh = &shapes[n(3)];
            let q = QSpec {
                kind: l[1].chars().next().unwrap(),
                ents: n(4) == 1,
                filter: n(5),
                group: n(6),
                persist: n(7) == 1,
                take: l[8].parse().unwrap(),
                style: n(9),
                write: n(10) == 1,
                list: l[11..].iter().map(|x| num(x)).collect(),
            };
            let (f, ids, nw) = match l[2].as_str() {
                "R" => (sh.qr.unwrap(), sh.ids.clone(), 0),
                "W" => (sh.qw.unwrap(), sh.ids.clone(), sh.ids.len()),
                _ => {
                    let x = sh.qrw.as_ref().unwrap();
                    (x.0, x.1.clone(), x.2)
                }
            };
            let res = lib_call(|| f(cx, &q));
            let ok = res.is_some();
            let res = res.unwrap_or_default();
            let items: Vec<String> = res
                .items
                .iter()
                .map(|i| format!("[{},{},{}]", i.tok, nums(&i.rd), nums(&i.wr)))
                .collect();
            o.ev(&format!(
                "{{\"o\":\"q\",\"r\":\"{}\",\"k\":\"{}\",\"m\":\"{}\",\"s\":{},\"nw\":{nw},\"w\":{},\"e\":{},\"f\":{},\"g\":{},\"p\":{},\"part\":{},\"style\":{},\"l\":{},\"it\":[{}],\"ln\":{},\"lo\":{},\"hi\":{},\"post\":{},\"over\":{},\"cnt\":{}}}",
                r(ok), q.kind, l[2], nums(&ids), (q.write && nw > 0) as u8, q.ents as u8, q.filter, q.group,
                q.persist as u8, q.take, q.style, nums(&q.list), items.join(","), nums(&res.len), nums(&res.lo),
                nums(&res.hi), res.post, res.over, res.cnt
            ));
        }
        // F seed what: the kept query objects are used on another store, which is then dropped
        "F" => {
            let (seed, what) = (n(1), n(2));
            let mut ok = true;
            let mut other = None;
            let mut es = vec![];
            ok &= lib_call(|| {
                let mut s = Store::with_capacity(1 + seed % 40);
                for i in 0..(3 + seed % 11) {
                    let sh = &shapes[(seed + i * i * 7) % 24];
                    let e = s.create_entity_with_archetype(&(sh.arch)());
                    if what & 1 != 0 {
                        s.add_entity_order_by::<Tg<1>>(e);
                        s.add_tag::<Tg<1>>(e);
                    }
                    if what & 2 != 0 {
                        s.add_entity_order_by::<Tg<2>>(e);
                    }
                    es.push(e);
                }
                other = Some(s);
            })
            .is_some();
            for (_, (q, f)) in cx.queries.iter_mut() {
                ok &= lib_call(|| f(&mut **q, other.as_ref().unwrap(), &es, if what & 4 != 0 { 2 } else { 1000 })).is_some();
            }
            ok &= lib_call(|| drop(other)).is_some();
            o.ev(&format!("{{\"o\":\"F\",\"r\":\"{}\"}}", r(ok)));
        }
        // ---- observations
        "alive" => {
            let v: Vec<usize> = (1..=cx.toks.len())
                .filter(|t| lib_call(|| cx.store.as_ref().unwrap().is_alive(cx.toks[*t - 1])).unwrap_or(false))
                .collect();
            o.ev(&format!("{{\"o\":\"alive\",\"v\":{}}}", nums(&v)));
        }
        "cap" => {
            let c = st!().entities_capacity();
            o.ev(&format!("{{\"o\":\"cap\",\"v\":{c}}}"));
        }
        "arch" => {
            // per token: [t, archetype reported, validity answer, types of the archetype, types found by lookups]
            let mut v = vec![];
            let mut bad = false;
            let by: HashMap<TypeId, u8> =
                cx.comps.iter().map(|c| ((shapes[*c].type_ids)()[0], shapes[*c].ids[0])).collect();
            for t in toks_from(cx, 1) {
                let e = cx.toks[t - 1];
                let s = cx.store.as_ref().unwrap();
                let x = lib_call(|| {
                    let valid = s.is_valid_entity_with_archetype(e);
                    let a = s.get_entity_archetype(e);
                    let (has, mut ids) = match a {
                        None => (0, vec![]),
                        Some(a) => {
                            let mut ids: Vec<i64> = a
                                .included_ids()
                                .iter()
                                .map(|i| by.get(i).map(|c| *c as i64).unwrap_or(-1))
                                .collect();
                            if ids.len() != a.component_count() {
                                ids.push(-2)
                            }
                            (1, ids)
                        }
                    };
                    ids.sort();
                    let mut pres: Vec<u8> = vec![];
                    for c in &cx.comps {
                        if (shapes[*c].addr)(s, e).is_some() {
                            pres.push(shapes[*c].ids[0])
                        }
                    }
                    pres.sort();
                    (has, valid as u8, ids, pres)
                });
                match x {
                    Some((has, valid, ids, pres)) => {
                        v.push(format!("[{t},{has},{valid},{},{}]", nums(&ids), nums(&pres)))
                    }
                    None => bad = true,
                }
            }
            o.ev(&format!("{{\"o\":\"arch\",\"r\":\"{}\",\"v\":[{}]}}", r(!bad), v.join(",")));
        }
        "vals" => {
            let mut v = vec![];
            let mut bad = false;
            for t in toks_from(cx, 1) {
                let e = cx.toks[t - 1];
                let mut p: Vec<String> = vec![];
                for c in &cx.comps {
                    let s = cx.store.as_ref().unwrap();
                    match lib_call(|| (shapes[*c].get)(s, e)) {
                        None => bad = true,
                        Some(None) => {}
                        Some(Some(x)) => p.push(format!("[{},{}]", shapes[*c].ids[0], x[0])),
                    }
                }
                v.push(format!("[{t},[{}]]", p.join(",")));
            }
            o.ev(&format!("{{\"o\":\"vals\",\"r\":\"{}\",\"v\":[{}]}}", r(!bad), v.join(",")));
        }
        "get" => {
            // get t shape how (0 refs, 1 mutable refs, 2 cloned)
            let (t, sh) = (n(1), &shapes[n(2)]);
            let e = cx.toks[t - 1];
            let how = n(3);
            let x = lib_call(|| match how {
                0 => (sh.get)(st!(), e),
                1 => (sh.getm)(st!(), e),
                _ => (sh.getc)(st!(), e),
            });
            let (ok, has, v) = match x {
                None => (false, 0, vec![]),
                Some(None) => (true, 0, vec![]),
                Some(Some(v)) => (true, 1, v),
            };
            o.ev(&format!(
                "{{\"o\":\"get\",\"r\":\"{}\",\"t\":{t},\"s\":{},\"has\":{has},\"v\":{}}}",
                r(ok), nums(&sh.ids), nums(&v)
            ));
        }
        "tags" => {
            // tags upto [tokens]
            let mut v = vec![];
            let upto = n(1);
            let mut bad = false;
            for t in toks_from(cx, 2) {
                let e = cx.toks[t - 1];
                let s = cx.store.as_ref().unwrap();
                let g = lib_call(|| (1..=upto).filter(|g| has_tag(s, e, *g)).collect::<Vec<_>>());
                match g {
                    Some(g) => v.push(format!("[{t},{}]", nums(&g))),
                    None => bad = true,
                }
            }
            o.ev(&format!("{{\"o\":\"tags\",\"r\":\"{}\",\"upto\":{upto},\"v\":[{}]}}", r(!bad), v.join(",")));
        }
        "ord" => {
            // ord group [tokens]: first, last, forward walk, backward walk, next/previous of the tokens
            let g = n(1);
            let s = cx.store.as_ref().unwrap();
            let lim = cx.toks.len() + 3;
            let x = lib_call(|| {
                let f = o_get(s, None, 'f', g);
                let la = o_get(s, None, 'l', g);
                let walk = |mut e: Option<Entity>, d: char| {
                    let mut w = vec![];
                    while let Some(x) = e {
                        w.push(tok_of(cx, Some(x)));
                        if w.len() > lim || tok_of(cx, Some(x)) < 0 {
                            break;
                        }
                        e = o_get(s, Some(x), d, g);
                    }
                    w
                };
                let fw = walk(f, 'n');
                let bw = walk(la, 'p');
                let mut np = vec![];
                for t in toks_from(cx, 2) {
                    let e = Some(cx.toks[t - 1]);
                    np.push(format!(
                        "[{t},{},{}]",
                        tok_of(cx, o_get(s, e, 'n', g)),
                        tok_of(cx, o_get(s, e, 'p', g))
                    ));
                }
                format!(
                    "\"f\":{},\"la\":{},\"fw\":{},\"bw\":{},\"np\":[{}]",
                    tok_of(cx, f), tok_of(cx, la), nums(&fw), nums(&bw), np.join(",")
                )
            });
            match x {
                Some(x) => o.ev(&format!("{{\"o\":\"ord\",\"r\":\"ok\",\"g\":{g},{x}}}")),
                None => o.ev(&format!(
                    "{{\"o\":\"ord\",\"r\":\"panic\",\"g\":{g},\"f\":0,\"la\":0,\"fw\":[],\"bw\":[],\"np\":[]}}"
                )),
            }
        }
        "addr" => {
            // [token, component, block, offset, size, address mod alignment, block size]
            let blocks = TRACK.lib_blocks();
            let find = |a: usize| -> (i64, i64, i64) {
                let k = blocks.partition_point(|b| b.ptr <= a);
                if k == 0 || a >= blocks[k - 1].ptr + blocks[k - 1].size {
                    return (-1, -1, 0);
                }
                let b = blocks[k - 1];
                (b.id as i64, (a - b.ptr) as i64, b.size as i64)
            };
            let mut v = vec![];
            let mut bad = false;
            let ts = toks_from(cx, 1);
            for &t in &ts {
                let e = cx.toks[t - 1];
                for c in &cx.comps {
                    let sh = &shapes[*c];
                    let s = cx.store.as_ref().unwrap();
                    match lib_call(|| (sh.addr)(s, e)) {
                        None => bad = true,
                        Some(None) => {}
                        Some(Some(a)) => {
                            let (b, off, bs) = find(a[0]);
                            v.push((
                                (b, off),
                                format!(
                                    "[{t},{},{b},{off},{},{},{bs}]",
                                    sh.ids[0], sh.sizes[0].0, a[0] % sh.sizes[0].1
                                ),
                            ))
                        }
                    }
                }
            }
            v.sort();
            let v: Vec<String> = v.into_iter().map(|x| x.1).collect();
            o.ev(&format!(
                "{{\"o\":\"addr\",\"r\":\"{}\",\"toks\":{},\"v\":[{}]}}",
                r(!bad), nums(&ts), v.join(",")
            ));
        }
        "mem" => {
            cx.queries = HashMap::new();
            let m = TRACK.mem();
            o.ev(&format!(
                "{{\"o\":\"mem\",\"warm\":{},\"by\":{},\"bl\":{},\"cap\":{}}}",
                n(1), m.0 - base.0, m.1 - base.1, st!().entities_capacity()
            ));
        }
        "end" => {
            cx.queries = HashMap::new();
            let ok = lib_call(|| drop(cx.store.take())).is_some();
            let m = TRACK.mem();
            o.ev(&format!(
                "{{\"o\":\"end\",\"r\":\"{}\",\"by\":{},\"bl\":{},\"zero\":{},\"badfree\":{},\"badlayout\":{},\"stray\":{}}}",
                r(ok), m.0 - base.0, m.1 - base.1, m.2 - base.2, m.3 - base.3, m.4 - base.4, TRACK.strays()
            ));
        }
        x => bug(x),
    }
}
