mod arch_run;
mod comps;
mod hold_run;
mod out;
mod res_run;
mod shapes;
mod store_run;
mod tracker;

use std::io::{BufRead, Write};

#[global_allocator]
pub static TRACK: tracker::Tracker = tracker::Tracker::new();

/// Runs a call into the library: its allocations are tracked, a panic becomes None.
pub fn lib_call<T>(f: impl FnOnce() -> T) -> Option<T> {
    let was = TRACK.enter();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    TRACK.leave(was);
    r.ok()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|x| if std::env::var("DBG").is_ok() { eprintln!("{x}") }));
    let _ = std::panic::catch_unwind(|| panic!("warm up {}", 1));
    let shapes = shapes::shapes();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = out::Out { f: std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap(), world: 0 };
    TRACK.start(std::os::fd::AsRawFd::as_raw_fd(&out.f));
    let start: usize = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(0);

    let mut head: Option<Vec<String>> = None;
    let mut body: Vec<Vec<String>> = vec![];
    let mut index = 0;
    let mut lines = f.lines();
    loop {
        let line = lines.next().map(|l| l.unwrap());
        let w: Vec<String> = match &line {
            Some(l) => l.split_whitespace().map(|x| x.to_string()).collect(),
            None => vec![],
        };
        let is_head = !w.is_empty() && w[0].len() == 2 && w[0].starts_with('H');
        if line.is_none() || is_head {
            if let Some(h) = head.take() {
                if index >= start {
                    out.ev(&format!("{{\"o\":\"H\",\"i\":{index},\"name\":\"{}\"}}", h[1]));
                    TRACK.memory(0xA5, false);
                    TRACK.refuse(-1);
                    if !body.is_empty() && body[0][0] == "memory" {
                        let l = body.remove(0);
                        TRACK.memory(l[1].parse().unwrap(), l[2] == "1");
                        TRACK.refuse(l.get(3).map(|x| x.parse().unwrap()).unwrap_or(-1));
                    }
                    match h[0].as_str() {
                        "HS" => store_run::run(h[2].parse().unwrap(), &body, &shapes, &mut out),
                        "HW" => {
                            let caps: Vec<usize> = h[2..].iter().map(|x| x.parse().unwrap()).collect();
                            store_run::worlds(&caps, &body, &shapes, &mut out)
                        }
                        "HR" => res_run::run(&h[2], h[3].parse().unwrap(), &body, &mut out),
                        "HB" => hold_run::run(h[2].parse().unwrap(), &body, &mut out),
                        "HA" => arch_run::run(&body, &shapes, &mut out),
                        x => store_run::bug(x),
                    }
                    out.ev(&format!("{{\"o\":\"E\",\"i\":{index}}}"));
                }
                index += 1;
            }
            body.clear();
            if is_head {
                head = Some(w);
            }
        } else if !w.is_empty() {
            body.push(w);
        }
        if line.is_none() {
            break;
        }
    }
    out.f.flush().unwrap();
}
