mod alloc;
mod checks;
mod panics;
mod gen;
mod refimpl;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[global_allocator]
static ALLOC: alloc::Marked = alloc::Marked;

pub static BEAT: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<String> = Mutex::new(String::new());

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub scale: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub fails: Vec<String>,
    trace: Option<std::fs::File>,
}

pub enum Out {
    /// The case was outside the property's scope.
    Skip,
    /// Decided, but too simple to count.
    Trivial,
    Ok,
}

impl Run {
    pub fn done(&self) -> bool {
        self.fails.len() >= 3
    }
    /// Runs one case; `desc` must allow to replay it by hand.
    pub fn case(&mut self, desc: String, f: impl FnOnce() -> Result<Out, String>) {
        if self.done() {
            return;
        }
        BEAT.fetch_add(1, Ordering::Relaxed);
        if let Some(t) = &mut self.trace {
            use std::io::{Seek, Write};
            let _ = t.set_len(0);
            let _ = t.rewind();
            let _ = t.write_all(desc.as_bytes());
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.clear();
            c.push_str(&desc);
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        self.evals += 1;
        match res {
            Ok(Ok(Out::Skip)) => {}
            Ok(Ok(Out::Trivial)) => {}
            Ok(Ok(Out::Ok)) => {
                self.nontrivial += 1;
                let n = self.nontrivial;
                if self.samples.len() < 6 && n.is_power_of_two() && n > 8 {
                    self.samples.push(desc);
                }
            }
            Ok(Err(e)) => self.fails.push(format!("{desc}\n    {e}")),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.fails.push(format!("{desc}\n    panicked: {m}"));
            }
        }
    }
}

fn config() -> String {
    format!(
        "{}{}",
        if cfg!(feature = "pejmdas") { "pejmdas" } else { "pemdas" },
        if cfg!(feature = "opt") { "+compile-time-optimizations" } else { "" }
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 3 && a[1] == "show" {
        checks::show(&a[2]);
        return;
    }
    if a.len() >= 3 && a[1] == "fresh18" {
        println!("{}", checks::probe(a[2].parse().unwrap()));
        return;
    }
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let scale: u64 = a[3].parse().unwrap();
    let trace = a.get(4).map(|p| std::fs::File::create(p).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last {
                last = b;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= 60 {
                let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                println!("FAIL {c}\n    no answer after 60 s");
                println!("DONE evals={b} nontrivial=0 fails=1");
                std::process::exit(1);
            }
        }
    });
    let th = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut run = Run {
                prop: prop.clone(),
                seed,
                scale,
                evals: 0,
                nontrivial: 0,
                samples: vec![],
                fails: vec![],
                trace,
            };
            checks::run(&mut run);
            run
        })
        .unwrap();
    let run = th.join().unwrap();
    println!("CONFIG {}", config());
    for s in &run.samples {
        println!("SAMPLE {}", s.replace('\n', "\\n"));
    }
    for f in &run.fails {
        println!("FAIL {f}");
    }
    println!("DONE evals={} nontrivial={} fails={}", run.evals, run.nontrivial, run.fails.len());
    std::process::exit(i32::from(!run.fails.is_empty()));
}
