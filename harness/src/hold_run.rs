//! Places of the references that a program holds at the same time: everything a query gives, kept until the end.
use crate::lib_call;
use crate::out::*;
use division_ecs::query::{component, entity_component, ordered_component};
use division_ecs::*;

#[derive(Clone, Copy, Component)]
pub struct A(u32);
#[derive(Clone, Copy, Component)]
pub struct B([u8; 3]);
#[derive(Clone, Copy, Component)]
pub struct C(u64, u64);
#[derive(Clone, Copy, Component)]
pub struct D([u16; 50]);
#[derive(Tag)]
pub struct T;
#[derive(Tag)]
pub struct O;

/// from, to, mutable
type Place = (usize, usize, bool);

pub trait Places {
    fn places(self, v: &mut Vec<Place>);
}
impl<X> Places for &X {
    fn places(self, v: &mut Vec<Place>) {
        let p = self as *const X as usize;
        v.push((p, p + std::mem::size_of::<X>(), false));
    }
}
impl<X> Places for &mut X {
    fn places(self, v: &mut Vec<Place>) {
        let p = self as *mut X as usize;
        v.push((p, p + std::mem::size_of::<X>(), true));
    }
}
impl<X: Places, Y: Places> Places for (X, Y) {
    fn places(self, v: &mut Vec<Place>) {
        self.0.places(v);
        self.1.places(v);
    }
}
impl<X: Places, Y: Places, Z: Places> Places for (X, Y, Z) {
    fn places(self, v: &mut Vec<Place>) {
        self.0.places(v);
        self.1.places(v);
        self.2.places(v);
    }
}
impl<X: Places> Places for Option<X> {
    fn places(self, v: &mut Vec<Place>) {
        if let Some(x) = self {
            x.places(v)
        }
    }
}

fn places<X: Places>(all: Vec<X>) -> (usize, Vec<Place>) {
    let n = all.len();
    let mut v = vec![];
    for x in all {
        x.places(&mut v);
    }
    (n, v)
}

/// numbers instead of addresses; equal places of shared references once
fn numbered(mut v: Vec<Place>) -> Vec<Place> {
    v.sort();
    let mut w: Vec<Place> = vec![];
    for p in v {
        if p.2 || w.last() != Some(&p) {
            w.push(p);
        }
    }
    let mut ends: Vec<usize> = w.iter().flat_map(|p| [p.0, p.1]).collect();
    ends.sort();
    ends.dedup();
    let at = |x: usize| ends.binary_search(&x).unwrap();
    w.iter().map(|p| (at(p.0), at(p.1), p.2)).collect()
}

fn query<Q: query::access::ComponentQueryAccess>(s: &Store, kind: &str, form: &str, list: &[Entity]) -> (usize, Vec<Place>)
where
    for<'a> Q::AccessOutput<'a>: Places,
{
    match kind {
        "component" => {
            let mut q = ComponentQuery::<Q>::new();
            let i = s.component_query_iter(&mut q);
            match form {
                "ents" => places(i.with_entities().map(|x| x.1).collect()),
                "tagged" => places(i.with_entities().filter_tag::<T>().map(|x| x.1).collect()),
                _ => places(i.collect()),
            }
        }
        "list" => {
            let mut q = EntityComponentQuery::<Q>::new();
            let i = s.entity_component_query_iter(list, &mut q);
            match form {
                "ents" => places(i.with_entities().map(|x| x.1).collect()),
                _ => places(i.collect()),
            }
        }
        _ => {
            let mut q = OrderedComponentQuery::<O, Q>::new();
            let i = s.ordered_query_iter(&mut q);
            match form {
                "ents" => places(i.with_entities().map(|x| x.1).collect()),
                _ => places(i.collect()),
            }
        }
    }
}

/// the accesses by name; the last four name a type twice
fn access(s: &Store, name: &str, kind: &str, form: &str, list: &[Entity]) -> (usize, Vec<Place>) {
    match name {
        "R:A" => query::<ReadonlyAccess<A>>(s, kind, form, list),
        "R:AB" => query::<ReadonlyAccess<(A, B)>>(s, kind, form, list),
        "W:A" => query::<WriteAccess<A>>(s, kind, form, list),
        "W:B" => query::<WriteAccess<B>>(s, kind, form, list),
        "W:D" => query::<WriteAccess<D>>(s, kind, form, list),
        "W:BA" => query::<WriteAccess<(B, A)>>(s, kind, form, list),
        "W:CDA" => query::<WriteAccess<(C, D, A)>>(s, kind, form, list),
        "X:A:B" => query::<ReadWriteAccess<A, B>>(s, kind, form, list),
        "X:BD:CA" => query::<ReadWriteAccess<(B, D), (C, A)>>(s, kind, form, list),
        "W:AA" => query::<WriteAccess<(A, A)>>(s, kind, form, list),
        "W:ABA" => query::<WriteAccess<(A, B, A)>>(s, kind, form, list),
        "X:A:A" => query::<ReadWriteAccess<A, A>>(s, kind, form, list),
        "X:BA:BC" => query::<ReadWriteAccess<(B, A), (B, C)>>(s, kind, form, list),
        x => crate::store_run::bug(x),
    }
}

fn get(s: &mut Store, name: &str, e: Entity) -> (usize, Vec<Place>) {
    fn one<X: Places>(x: X) -> (usize, Vec<Place>) {
        let mut v = vec![];
        x.places(&mut v);
        (!v.is_empty() as usize, v)
    }
    match name {
        "R:A" => one(s.get_components_refs::<A>(e)),
        "W:A" => one(s.get_components_refs_mut::<A>(e)),
        "W:BA" => one(s.get_components_refs_mut::<(B, A)>(e)),
        "W:CDA" => one(s.get_components_refs_mut::<(C, D, A)>(e)),
        "W:AA" => one(s.get_components_refs_mut::<(A, A)>(e)),
        "W:ABA" => one(s.get_components_refs_mut::<(A, B, A)>(e)),
        x => crate::store_run::bug(x),
    }
}

pub fn run(cap: usize, hist: &[Vec<String>], o: &mut Out) {
    let mut s = Store::with_capacity(cap);
    let mut es: Vec<Entity> = vec![];
    for l in hist {
        let n = |i: usize| -> usize { l[i].parse().unwrap() };
        let done = |o: &mut Out, x: Option<()>| {
            o.ev(&format!("{{\"o\":\"do\",\"r\":\"{}\",\"w\":\"{}\"}}", if x.is_some() { "ok" } else { "panic" }, l[0]));
        };
        match l[0].as_str() {
            // make entities: number, set of components (bits)
            "mk" => {
                let mut b = ArchetypeBuilder::new();
                if n(2) & 1 != 0 {
                    b.include_components::<A>();
                }
                if n(2) & 2 != 0 {
                    b.include_components::<B>();
                }
                if n(2) & 4 != 0 {
                    b.include_components::<C>();
                }
                if n(2) & 8 != 0 {
                    b.include_components::<D>();
                }
                let a = lib_call(|| b.build());
                let r = lib_call(|| {
                    for _ in 0..n(1) {
                        es.push(if n(2) == 0 { s.create_entity() } else { s.create_entity_with_archetype(a.as_ref().unwrap()) });
                    }
                });
                done(o, r);
            }
            "del" => {
                let e = es.remove(n(1) % es.len());
                done(o, lib_call(|| s.destroy_entity(e)));
            }
            "add" | "rem" => {
                let e = es[n(2) % es.len()];
                let r = lib_call(|| match (l[0].as_str(), n(1)) {
                    ("add", 1) => s.add_components(e, A(7)),
                    ("add", 2) => s.add_components(e, B([1; 3])),
                    ("add", 4) => s.add_components(e, C(1, 2)),
                    ("add", _) => s.add_components(e, D([3; 50])),
                    (_, 1) => s.remove_components::<A>(e),
                    (_, 2) => s.remove_components::<B>(e),
                    (_, 4) => s.remove_components::<C>(e),
                    _ => s.remove_components::<D>(e),
                });
                done(o, r);
            }
            "tag" => {
                let e = es[n(2) % es.len()];
                let r = lib_call(|| if n(1) == 1 { s.add_tag::<T>(e) } else { s.remove_tag::<T>(e) });
                done(o, r);
            }
            "ord" => {
                let e = es[n(2) % es.len()];
                let r = lib_call(|| {
                    s.remove_entity_order_by::<O>(e);
                    if n(1) == 1 {
                        s.add_entity_order_by::<O>(e)
                    }
                });
                done(o, r);
            }
            // hold access kind form list...
            "hold" => {
                let list: Vec<Entity> = l[4..].iter().map(|x| es[x.parse::<usize>().unwrap() % es.len()]).collect();
                let rep = l[2] == "list" && (0..list.len()).any(|i| list[..i].contains(&list[i]));
                let r = lib_call(|| {
                    if l[2] == "refs" {
                        get(&mut s, &l[1], list[0])
                    } else {
                        access(&s, &l[1], &l[2], &l[3], &list)
                    }
                });
                let twice = ["W:AA", "W:ABA", "X:A:A", "X:BA:BC"].contains(&l[1].as_str());
                let (k, v) = r.clone().unwrap_or((0, vec![]));
                let iv: Vec<String> = numbered(v).iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
                o.ev(&format!(
                    "{{\"o\":\"hold\",\"r\":\"{}\",\"k\":\"{}\",\"m\":\"{}\",\"twice\":{},\"rep\":{},\"n\":{},\"iv\":[{}]}}",
                    if r.is_some() { "ok" } else { "panic" }, l[2], l[1], twice as u8, rep as u8, k, iv.join(",")
                ));
            }
            x => crate::store_run::bug(x),
        }
    }
}
