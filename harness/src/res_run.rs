//! Resource store histories, for several kinds of values.
use crate::comps::BAD;
use crate::out::*;
use crate::{lib_call, TRACK};
use division_ecs::{Entity, ResourceStore};
use std::cell::{Cell, RefCell};

thread_local! {
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    /// the value whose destructor panics
    static FUSE: Cell<Option<u32>> = const { Cell::new(None) };
}
fn dropped(v: u32) {
    let was = TRACK.enter();
    TRACK.leave(false);
    DROPS.with(|d| d.borrow_mut().push(v));
    TRACK.leave(was);
    if FUSE.get() == Some(v) {
        FUSE.set(None);
        std::panic::panic_any(());
    }
}
fn take_drops() -> Vec<u32> {
    DROPS.with(|d| {
        let mut v = std::mem::take(&mut *d.borrow_mut());
        v.sort();
        v
    })
}

pub trait Val {
    fn mk(v: u32) -> Self;
    fn rd(&self) -> u32;
    fn poke(&mut self, v: u32);
}

pub struct Plain(u32);
impl Val for Plain {
    fn mk(v: u32) -> Self {
        Plain(v)
    }
    fn rd(&self) -> u32 {
        self.0
    }
    fn poke(&mut self, v: u32) {
        self.0 = v
    }
}
impl Drop for Plain {
    fn drop(&mut self) {
        dropped(self.0)
    }
}

pub struct Zst;
impl Val for Zst {
    fn mk(_: u32) -> Self {
        Zst
    }
    fn rd(&self) -> u32 {
        0
    }
    fn poke(&mut self, _: u32) {}
}
impl Drop for Zst {
    fn drop(&mut self) {
        dropped(0)
    }
}

pub struct Heap(Box<[u32; 9]>);
impl Val for Heap {
    fn mk(v: u32) -> Self {
        Heap(Box::new([v; 9]))
    }
    fn rd(&self) -> u32 {
        if self.0.iter().all(|x| *x == self.0[0]) { self.0[0].min(BAD) } else { BAD }
    }
    fn poke(&mut self, v: u32) {
        *self.0 = [v; 9]
    }
}
impl Drop for Heap {
    fn drop(&mut self) {
        dropped(self.rd())
    }
}

#[repr(align(128))]
pub struct Wide([u32; 64]);
impl Val for Wide {
    fn mk(v: u32) -> Self {
        Wide([v; 64])
    }
    fn rd(&self) -> u32 {
        if (self as *const Self as usize) % 128 != 0 {
            return BAD;
        }
        if self.0.iter().all(|x| *x == self.0[0]) { self.0[0].min(BAD) } else { BAD }
    }
    fn poke(&mut self, v: u32) {
        self.0 = [v; 64]
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        dropped(self.0[0].min(BAD))
    }
}

pub struct Text(String);
impl Val for Text {
    fn mk(v: u32) -> Self {
        Text(format!("value-{v}"))
    }
    fn rd(&self) -> u32 {
        self.0.strip_prefix("value-").and_then(|x| x.parse().ok()).unwrap_or(BAD)
    }
    fn poke(&mut self, v: u32) {
        self.0 = format!("value-{v}")
    }
}
impl Drop for Text {
    fn drop(&mut self) {
        dropped(self.rd())
    }
}

use churn::Pod;
impl Val for Pod {
    fn mk(v: u32) -> Self {
        Pod(v as u64)
    }
    fn rd(&self) -> u32 {
        self.0.min(BAD as u64) as u32
    }
    fn poke(&mut self, v: u32) {
        self.0 = v as u64
    }
}

pub fn run(kind: &str, cap: i64, hist: &[Vec<String>], o: &mut Out) {
    match kind {
        "plain" => go::<Plain>(cap, hist, o),
        "zst" => go::<Zst>(cap, hist, o),
        "heap" => go::<Heap>(cap, hist, o),
        "wide" => go::<Wide>(cap, hist, o),
        "text" => go::<Text>(cap, hist, o),
        "pod" => go::<Pod>(cap, hist, o),
        x => crate::store_run::bug(x),
    }
}

fn go<T: Val + 'static>(cap: i64, hist: &[Vec<String>], o: &mut Out) {
    let _ = take_drops();
    let base = TRACK.mem();
    let mut toks: Vec<Entity> = vec![];
    let mut stamp: u32 = 1;
    let mut last: Vec<u32> = vec![]; // the last value given to each handle
    let st = lib_call(|| {
        if cap < 0 {
            ResourceStore::<T>::new()
        } else {
            ResourceStore::<T>::with_capacity(cap as usize)
        }
    });
    let mut st = match st {
        Some(s) => Some(s),
        None => {
            o.ev(&format!("{{\"o\":\"rnew\",\"r\":\"panic\",\"cap\":{}}}", cap.min(1 << 30)));
            return;
        }
    };
    o.ev(&format!("{{\"o\":\"rnew\",\"r\":\"ok\",\"cap\":{}}}", cap.min(1 << 30)));
    for l in hist {
        if TRACK.refused() {
            std::mem::forget(st);
            return;
        }
        let n = |i: usize| -> usize { l[i].parse().unwrap() };
        match l[0].as_str() {
            "n" => {
                // n [count]: create
                let k = if l.len() > 1 { n(1) } else { 1 };
                for _ in 0..k {
                    let v = stamp;
                    stamp += 1;
                    match lib_call(|| st.as_mut().unwrap().create(T::mk(v))) {
                        Some(e) => {
                            toks.push(e);
                            last.push(if std::mem::size_of::<T>() == 0 { 0 } else { v });
                            o.ev(&format!(
                                "{{\"o\":\"n\",\"r\":\"ok\",\"id\":{},\"ver\":{},\"v\":{v},\"dr\":{}}}",
                                e.id().min(BAD), churn::ver(e), nums(&take_drops())
                            ))
                        }
                        None => o.ev(&format!(
                            "{{\"o\":\"n\",\"r\":\"panic\",\"id\":0,\"ver\":0,\"v\":{v},\"dr\":{}}}",
                            nums(&take_drops())
                        )),
                    }
                }
            }
            "N" => {
                // N k: create many
                let k = n(1);
                let v = stamp;
                let (mut hs, mut ok) = (churn::Runs::default(), true);
                for _ in 0..k {
                    let v = stamp;
                    stamp += 1;
                    match lib_call(|| st.as_mut().unwrap().create(T::mk(v))) {
                        Some(e) => {
                            hs.push(e);
                            toks.push(e);
                            last.push(if std::mem::size_of::<T>() == 0 { 0 } else { v });
                        }
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                o.ev(&format!(
                    "{{\"o\":\"N\",\"r\":\"{}\",\"k\":{k},\"v\":{v},\"hs\":{},\"dr\":{}}}",
                    if ok { "ok" } else { "panic" }, hs.text(), nums(&take_drops())
                ));
            }
            "G" | "Y" => {
                // G lo hi st: read many; Y: release many
                let ts: Vec<usize> = (n(1)..=n(2)).step_by(n(3)).collect();
                let release = l[0] == "Y";
                let (mut v, mut ok, mut own, mut dr) = (vec![], true, 0, vec![]);
                for t in &ts {
                    let e = toks[*t - 1];
                    let x = if release {
                        let x = lib_call(|| st.as_mut().unwrap().release(e));
                        own += take_drops().len();
                        x.map(|x| x.rd())
                    } else {
                        lib_call(|| st.as_ref().unwrap()[e].rd())
                    };
                    ok &= x.is_some();
                    v.push(x.unwrap_or(BAD));
                    // the drops by the new owner
                    dr.extend(take_drops());
                }
                dr.sort();
                o.ev(&format!(
                    "{{\"o\":\"{}\",\"r\":\"{}\",\"lo\":{},\"hi\":{},\"st\":{},\"v\":{},\"in\":{own},\"dr\":{}}}",
                    l[0], if ok { "ok" } else { "panic" }, n(1), n(2), n(3), nums(&v), nums(&dr)
                ));
            }
            "u" => {
                // u k: k times create and release at once
                let k = n(1);
                let (mut hs, mut okv, mut drn, mut ok) = (churn::Runs::default(), 0, 0, true);
                for _ in 0..k {
                    let v = stamp;
                    stamp += 1;
                    let x = lib_call(|| {
                        let e = st.as_mut().unwrap().create(T::mk(v));
                        (e, st.as_mut().unwrap().release(e))
                    });
                    match x {
                        None => {
                            ok = false;
                            break;
                        }
                        Some((e, x)) => {
                            hs.push(e);
                            okv += (x.rd() == v || std::mem::size_of::<T>() == 0) as usize;
                            drop(x);
                            drn += take_drops().len();
                        }
                    }
                }
                o.ev(&format!(
                    "{{\"o\":\"u\",\"r\":\"{}\",\"k\":{k},\"okv\":{okv},\"drn\":{drn},\"hs\":{}}}",
                    if ok { "ok" } else { "panic" }, hs.text()
                ));
            }
            "v" => {
                // like u, for values without a destructor, the two calls only
                let k = n(1);
                let s = (st.as_mut().unwrap() as &mut dyn std::any::Any).downcast_mut::<ResourceStore<Pod>>().unwrap();
                let (ok, okv, hs) = churn::pods(k, |f| lib_call(f).is_some(), s);
                o.ev(&format!(
                    "{{\"o\":\"u\",\"r\":\"{}\",\"k\":{k},\"okv\":{okv},\"drn\":0,\"hs\":{}}}",
                    if ok { "ok" } else { "panic" }, hs
                ));
            }
            "g" => {
                let e = toks[n(1) - 1];
                let x = lib_call(|| st.as_ref().unwrap()[e].rd());
                o.ev(&format!(
                    "{{\"o\":\"g\",\"r\":\"{}\",\"t\":{},\"v\":{},\"dr\":{}}}",
                    if x.is_some() { "ok" } else { "panic" }, n(1), x.unwrap_or(0), nums(&take_drops())
                ));
            }
            "w" | "p" => {
                // w: assign a new value (drops the old one); p: change in place
                let e = toks[n(1) - 1];
                let v = stamp;
                stamp += 1;
                let assign = l[0] == "w";
                let x = lib_call(|| {
                    let r = &mut st.as_mut().unwrap()[e];
                    if assign {
                        *r = T::mk(v)
                    } else {
                        r.poke(v)
                    }
                });
                if x.is_some() && std::mem::size_of::<T>() != 0 {
                    last[n(1) - 1] = v;
                }
                o.ev(&format!(
                    "{{\"o\":\"{}\",\"r\":\"{}\",\"t\":{},\"v\":{v},\"dr\":{}}}",
                    l[0], if x.is_some() { "ok" } else { "panic" }, n(1), nums(&take_drops())
                ));
            }
            "x" => {
                let e = toks[n(1) - 1];
                let x = lib_call(|| st.as_mut().unwrap().release(e));
                let dr = take_drops();
                let (ok, v) = match &x {
                    Some(x) => (true, x.rd()),
                    None => (false, 0),
                };
                drop(x);
                let own = take_drops();
                o.ev(&format!(
                    "{{\"o\":\"x\",\"r\":\"{}\",\"t\":{},\"v\":{v},\"dr\":{},\"own\":{}}}",
                    if ok { "ok" } else { "panic" }, n(1), nums(&dr), nums(&own)
                ));
            }
            "X" => {
                // X mode num dver: a handle this store never gave out
                let x = match l[1].as_str() {
                    "n" => Entity::null(),
                    _ => {
                        let id = n(2);
                        let top = toks.iter().filter(|e| e.id() as usize == id).map(|e| e.version()).max().unwrap_or(0);
                        crate::store_run::foreign(id, top as usize + n(3))
                    }
                };
                let did = |x: Option<()>| if x.is_some() { 0u8 } else { 2 };
                let v = stamp;
                let used = vec![
                    did(lib_call(|| {
                        st.as_ref().unwrap()[x].rd();
                    })),
                    did(lib_call(|| st.as_mut().unwrap()[x].poke(v))),
                    did(lib_call(|| drop(st.as_mut().unwrap().release(x)))),
                ];
                o.ev(&format!(
                    "{{\"o\":\"X\",\"used\":{},\"known\":{},\"dr\":{}}}",
                    nums(&used), toks.contains(&x) as u8, nums(&take_drops())
                ));
            }
            "end" => {
                // end [t]: the destructor of this resource panics
                let fu = if l.len() > 1 { n(1) } else { 0 };
                FUSE.set(if fu > 0 { Some(last[fu - 1]) } else { None });
                let ok = lib_call(|| drop(st.take())).is_some();
                FUSE.set(None);
                let dr = take_drops();
                let m = TRACK.mem();
                o.ev(&format!(
                    "{{\"o\":\"rend\",\"r\":\"{}\",\"fu\":{fu},\"dr\":{},\"by\":{},\"bl\":{},\"zero\":{},\"badfree\":{},\"badlayout\":{},\"stray\":{}}}",
                    if ok { "ok" } else { "panic" }, nums(&dr), m.0 - base.0, m.1 - base.1, m.2 - base.2,
                    m.3 - base.3, m.4 - base.4, TRACK.strays()
                ));
                return;
            }
            x => crate::store_run::bug(x),
        }
    }
    let _ = lib_call(|| drop(st.take()));
    let _ = take_drops();
}
