//! Handles in short form, and the loops that use up the versions of an id.
use division_ecs::*;

/// a version as a number of the specification: its integers have 32 bits with a sign
pub fn ver(e: Entity) -> i64 {
    e.version() as i64 - (1 << 31)
}

/// handles as runs [id, version, count, id step, version step]
#[derive(Default)]
pub struct Runs {
    out: String,
    start: (i64, i64),
    last: (i64, i64),
    step: (i64, i64),
    n: u64,
}
impl Runs {
    pub fn push(&mut self, e: Entity) {
        let x = ((e.id().min(2_000_000_001)) as i64, ver(e));
        let d = (x.0 - self.last.0, x.1 - self.last.1);
        if self.n == 1 && d.1.abs() < 1 << 30 {
            self.step = d;
        } else if self.n == 0 || self.n == 1 || d != self.step {
            self.flush();
            self.start = x;
        }
        self.last = x;
        self.n += 1;
    }
    fn flush(&mut self) {
        if self.n > 0 {
            if !self.out.is_empty() {
                self.out.push(',')
            }
            let (d, v) = if self.n == 1 { (0, 0) } else { self.step };
            self.out.push_str(&format!("[{},{},{},{d},{v}]", self.start.0, self.start.1, self.n));
        }
        self.n = 0;
    }
    pub fn text(mut self) -> String {
        self.flush();
        format!("[{}]", self.out)
    }
}

pub fn store(k: usize, call: impl Fn(&mut dyn FnMut()) -> bool, s: &mut Store) -> (bool, String) {
    let mut hs = Runs::default();
    let ok = call(&mut || store_loop(k, s, &mut hs));
    (ok, hs.text())
}

/// a value without a destructor
pub struct Pod(pub u64);

/// returns also how many values came back as they were put in
pub fn pods(k: usize, call: impl Fn(&mut dyn FnMut()) -> bool, s: &mut ResourceStore<Pod>) -> (bool, usize, String) {
    let (mut hs, mut right) = (Runs::default(), 0);
    let ok = call(&mut || right = pod_loop(k, s, &mut hs));
    (ok, right, hs.text())
}

#[inline(never)]
fn pod_loop(k: usize, s: &mut ResourceStore<Pod>, hs: &mut Runs) -> usize {
    let mut right = 0;
    for i in 0..k as u64 {
        let e = s.create(Pod(i));
        right += (s.release(e).0 == i) as usize;
        hs.push(e);
    }
    right
}

#[inline(never)]
fn store_loop(k: usize, s: &mut Store, hs: &mut Runs) {
    for _ in 0..k {
        let e = s.create_entity();
        s.destroy_entity(e);
        hs.push(e);
    }
}
