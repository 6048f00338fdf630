//! Archetype algebra histories: registers hold archetypes built in different ways.
use crate::lib_call;
use crate::out::*;
use crate::store_run::ShapeOps;
use division_ecs::*;
use std::any::TypeId;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

fn hash(a: &Archetype) -> u64 {
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}

pub fn run(hist: &[Vec<String>], shapes: &[ShapeOps], o: &mut Out) {
    let mut by: HashMap<TypeId, u8> = HashMap::new();
    let mut tid: HashMap<u8, TypeId> = HashMap::new();
    let mut typ: HashMap<u8, ComponentType> = HashMap::new();
    let mut named: HashMap<&str, u8> = HashMap::new();
    let mut hs: HashMap<u64, usize> = HashMap::new(); // hash -> small number
    for s in shapes {
        for (k, t) in s.ids.iter().zip((s.type_ids)()) {
            by.insert(t, *k);
            tid.insert(*k, t);
        }
        for (k, t) in s.ids.iter().zip((s.types)()) {
            typ.insert(*k, t);
            named.insert(t.name(), *k);
        }
    }
    let mut regs: Vec<Archetype> = vec![];
    let mut b: Option<ArchetypeBuilder> = None;
    o.ev("{\"o\":\"anew\",\"r\":\"ok\"}");
    for l in hist {
        if crate::TRACK.refused() {
            return;
        }
        let n = |i: usize| -> usize { l[i].parse().unwrap() };
        let list = |i: usize| -> Vec<u8> { l[i..].iter().map(|x| x.parse().unwrap()).collect() };
        let types = |i: usize| -> Vec<ComponentType> { list(i).iter().map(|k| typ[k]).collect() };
        let ok = |x: bool| if x { "ok" } else { "panic" };
        match l[0].as_str() {
            "with" => {
                let sh = &shapes[n(1)];
                let a = lib_call(|| (sh.arch)());
                o.ev(&format!("{{\"o\":\"with\",\"r\":\"{}\",\"s\":{}}}", ok(a.is_some()), nums(&sh.ids)));
                if let Some(a) = a {
                    regs.push(a)
                }
            }
            "clone" => {
                let a = lib_call(|| regs[n(1) - 1].clone());
                o.ev(&format!("{{\"o\":\"clone\",\"r\":\"{}\",\"x\":{}}}", ok(a.is_some()), n(1)));
                if let Some(a) = a {
                    regs.push(a)
                }
            }
            "bnew" => {
                b = lib_call(ArchetypeBuilder::new);
                o.ev(&format!("{{\"o\":\"bnew\",\"r\":\"{}\"}}", ok(b.is_some())));
            }
            "binc" | "bexc" => {
                // tuple
                let sh = &shapes[n(1)];
                let inc = l[0] == "binc";
                let x = lib_call(|| {
                    let bb = b.as_mut().unwrap();
                    if inc { (sh.incl)(bb) } else { (sh.excl)(bb) }
                });
                o.ev(&format!("{{\"o\":\"{}\",\"r\":\"{}\",\"s\":{}}}", l[0], ok(x.is_some()), nums(&sh.ids)));
            }
            "btin" | "btex" => {
                // list of component types
                let ts = types(1);
                let inc = l[0] == "btin";
                let x = lib_call(|| {
                    let bb = b.as_mut().unwrap();
                    if inc {
                        bb.include_component_types(&ts);
                    } else {
                        bb.exclude_component_types(&ts);
                    }
                });
                o.ev(&format!(
                    "{{\"o\":\"{}\",\"r\":\"{}\",\"s\":{}}}",
                    if inc { "binc" } else { "bexc" }, ok(x.is_some()), nums(&list(1))
                ));
            }
            "barc" => {
                let x = lib_call(|| {
                    b.as_mut().unwrap().include_archetype(&regs[n(1) - 1]);
                });
                o.ev(&format!("{{\"o\":\"barc\",\"r\":\"{}\",\"x\":{}}}", ok(x.is_some()), n(1)));
            }
            "build" => {
                let a = lib_call(|| b.as_mut().unwrap().build());
                o.ev(&format!("{{\"o\":\"build\",\"r\":\"{}\"}}", ok(a.is_some())));
                if let Some(a) = a {
                    regs.push(a)
                }
            }
            // observations
            "show" => {
                let a = &regs[n(1) - 1];
                let all: Vec<u8> = (1..=113).collect();
                let x = lib_call(|| {
                    let ids: Vec<u8> = a.included_ids().iter().map(|t| by.get(t).copied().unwrap_or(0)).collect();
                    let comps: Vec<String> = a
                        .components_iter()
                        .map(|c| {
                            let name = named.get(c.name()).copied().unwrap_or(0);
                            format!("[{},{},{},{name}]", by.get(&c.id()).copied().unwrap_or(0), c.size(), c.align())
                        })
                        .collect();
                    // position of each type
                    let pos: Vec<i64> = all
                        .iter()
                        .map(|k| a.find_component_index(tid[k]).map(|p| p as i64).unwrap_or(-1))
                        .collect();
                    let posok: Vec<u8> = all
                        .iter()
                        .filter(|k| {
                            a.find_component_index(tid[k]).map(|p| a.included_ids()[p] == tid[*k]).unwrap_or(false)
                        })
                        .copied()
                        .collect();
                    let has: Vec<u8> = shapes
                        .iter()
                        .filter(|s| s.ids.len() == 1)
                        .filter(|s| {
                            let h = has_of(a, s.ids[0]);
                            h.unwrap_or(a.is_include_ids(&(s.type_ids)()))
                        })
                        .map(|s| s.ids[0])
                        .collect();
                    let text = format!("{a}");
                    let shown: Vec<u8> = all.iter().filter(|k| text.contains(&format!("{:?}", typ[k].name()))).copied().collect();
                    (ids, comps, pos.len(), posok, has, a.component_count(), shown)
                });
                match x {
                    Some((ids, comps, _, posok, has, cnt, shown)) => {
                        let next = hs.len() + 1;
                        let h = lib_call(|| hash(a)).unwrap_or(0);
                        let h = *hs.entry(h).or_insert(next);
                        o.ev(&format!(
                            "{{\"o\":\"show\",\"r\":\"ok\",\"x\":{},\"ids\":{},\"comps\":[{}],\"posok\":{},\"has\":{},\"cnt\":{cnt},\"shown\":{},\"hash\":{h}}}",
                            n(1), nums(&ids), comps.join(","), nums(&posok), nums(&has), nums(&shown)
                        ))
                    }
                    None => o.ev(&format!(
                        "{{\"o\":\"show\",\"r\":\"panic\",\"x\":{},\"ids\":[],\"comps\":[],\"posok\":[],\"has\":[],\"cnt\":0,\"shown\":[],\"hash\":0}}",
                        n(1)
                    )),
                }
            }
            "cmp" => {
                let (x, y) = (&regs[n(1) - 1], &regs[n(2) - 1]);
                let v = lib_call(|| {
                    [x.is_same_as(y), x.is_include(y), x.is_exclude(y), x.is_include_only_ids(y.included_ids())]
                });
                let v = v.map(|v| v.iter().map(|b| *b as u8).collect::<Vec<_>>());
                o.ev(&format!(
                    "{{\"o\":\"cmp\",\"r\":\"{}\",\"x\":{},\"y\":{},\"v\":{}}}",
                    ok(v.is_some()), n(1), n(2), nums(&v.unwrap_or_default())
                ));
            }
            "ids" => {
                // answers for an explicit list of ids (any order, repetitions)
                let a = &regs[n(1) - 1];
                let t: Vec<TypeId> = list(2).iter().map(|k| tid[k]).collect();
                let v = lib_call(|| [a.is_include_ids(&t), a.is_include_only_ids(&t), a.is_exclude_ids(&t)]);
                let v = v.map(|v| v.iter().map(|b| *b as u8).collect::<Vec<_>>());
                o.ev(&format!(
                    "{{\"o\":\"ids\",\"r\":\"{}\",\"x\":{},\"s\":{},\"v\":{}}}",
                    ok(v.is_some()), n(1), nums(&list(2)), nums(&v.unwrap_or_default())
                ));
            }
            "aend" => {
                let _ = lib_call(|| {
                    regs.clear();
                    b = None;
                });
                o.ev(&format!("{{\"o\":\"aend\",\"r\":\"ok\",\"stray\":{}}}", crate::TRACK.strays()));
            }
            x => crate::store_run::bug(x),
        }
    }
}

fn has_of(a: &Archetype, k: u8) -> Option<bool> {
    use crate::comps::*;
    Some(match k {
        1 => a.has_component::<C1>() && a.find_component_index_of::<C1>().is_some(),
        2 => a.has_component::<C2>() && a.find_component_index_of::<C2>().is_some(),
        3 => a.has_component::<C3>() && a.find_component_index_of::<C3>().is_some(),
        4 => a.has_component::<C4>() && a.find_component_index_of::<C4>().is_some(),
        5 => a.has_component::<C5>() && a.find_component_index_of::<C5>().is_some(),
        6 => a.has_component::<W6>() && a.find_component_index_of::<W6>().is_some(),
        _ => return None,
    })
}
