//! Native replay of harness inputs: `replay FILE`, one case per line:
//! `HARNESS k:v k:v ...` with k = 0 (byte) or 1 (choice).  Prints one JSON line per case.
use std::cell::RefCell;
use std::io::Write;

struct Run {
    inputs: Vec<(u8, u32)>,
    pos: usize,
    notes: Vec<(u32, u64)>,
    mismatch: bool,
}
thread_local! {
    static RUN: RefCell<Run> = const { RefCell::new(Run { inputs: vec![], pos: 0, notes: vec![], mismatch: false }) };
}

struct Fail(u32);
struct Infeasible;

fn take(kind: u8) -> u32 {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.pos;
        r.pos += 1;
        match r.inputs.get(p) {
            Some(&(k, v)) if k == kind => v,
            Some(_) => {
                r.mismatch = true;
                0
            }
            None => {
                // inputs not reached by the recorded path
                0
            }
        }
    })
}

#[no_mangle]
extern "C" fn sx_u8() -> u8 {
    take(0) as u8
}
#[no_mangle]
extern "C" fn sx_choose(_n: u32) -> u32 {
    take(1)
}
#[no_mangle]
extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Infeasible))
    }
}
#[no_mangle]
extern "C-unwind" fn sx_fail(code: u32) -> ! {
    std::panic::resume_unwind(Box::new(Fail(code)))
}
#[no_mangle]
extern "C" fn sx_note(tag: u32, v: u64) {
    RUN.with(|r| r.borrow_mut().notes.push((tag, v)))
}
#[no_mangle]
extern "C" fn sx_reach(_: u32) {}
#[no_mangle]
extern "C" fn sx_pick(v: u64) -> u64 {
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let loc: std::sync::Arc<std::sync::Mutex<String>> = Default::default();
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| {
        let s = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        *l2.lock().unwrap() = s;
    }));
    let out = std::io::stdout();
    for (n, line) in text.lines().enumerate() {
        let mut it = line.split_whitespace();
        let name = match it.next() {
            Some(n) => n.to_string(),
            None => continue,
        };
        let inputs: Vec<(u8, u32)> = it
            .map(|x| {
                let (a, b) = x.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        let f = match harness::table().into_iter().find(|(k, _)| *k == name) {
            Some((_, f)) => f,
            None => {
                println!("{{\"case\":{n},\"end\":\"no-such-harness\"}}");
                continue;
            }
        };
        // a run that exhausts the stack or never ends takes the process down: say which one first
        {
            let mut o = out.lock();
            writeln!(o, "{{\"case\":{n},\"end\":\"start\"}}").unwrap();
            o.flush().unwrap();
        }
        let total = inputs.len();
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                RUN.with(|r| *r.borrow_mut() = Run { inputs, pos: 0, notes: vec![], mismatch: false });
                let r = std::panic::catch_unwind(f);
                let (notes, used, mis) = RUN.with(|r| {
                    let r = r.borrow();
                    (r.notes.clone(), r.pos, r.mismatch)
                });
                let (end, detail) = match r {
                    Ok(()) => ("ok", String::new()),
                    Err(e) => match e.downcast::<Fail>() {
                        Ok(f) => ("fail", f.0.to_string()),
                        Err(e) => match e.downcast::<Infeasible>() {
                            Ok(_) => ("infeasible", String::new()),
                            Err(_) => ("panic", "@".to_string()),
                        },
                    },
                };
                (end, detail, notes, used, mis)
            })
            .unwrap();
        let (end, mut detail, notes, used, mis) = h.join().unwrap();
        if detail == "@" {
            detail = loc.lock().unwrap().clone();
        }
        let ns: Vec<String> = notes.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
        let mut o = out.lock();
        writeln!(
            o,
            "{{\"case\":{n},\"end\":\"{end}\",\"detail\":\"{detail}\",\"used\":{used},\"given\":{total},\"mismatch\":{mis},\"notes\":[{}]}}",
            ns.join(",")
        )
        .unwrap();
        o.flush().unwrap();
    }
}
