use std::fs::File;
use std::io::Write;

pub struct Out {
    pub f: File,
    /// which of several stores an event belongs to (0: there is one)
    pub world: usize,
}
impl Out {
    pub fn ev(&mut self, s: &str) {
        let mut b = String::with_capacity(s.len() + 1);
        if self.world > 0 {
            b.push_str(&format!("W{}", self.world));
        }
        b.push_str(s);
        b.push('\n');
        self.f.write_all(b.as_bytes()).unwrap();
    }
}
pub fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    let x: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", x.join(","))
}
