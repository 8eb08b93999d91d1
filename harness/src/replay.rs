//! replay ENTRY PARAMS one INPUTS...   run one assignment, show its texts
//! replay ENTRY PARAMS all FILE        run `inputs|observed` lines and compare
#[path = "lib.rs"]
mod h;
use h::sx::S;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

fn run(f: fn(), params: &[u64], inputs: Vec<u64>, show: bool) -> Vec<u64> {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.inputs = inputs;
        s.at = 0;
        s.params = params.to_vec();
        s.observed.clear();
        s.show = show;
    });
    f();
    S.with(|s| s.borrow().observed.clone())
}

fn nums(s: &str, sep: char) -> Vec<u64> {
    s.split(sep).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn main() {
    // the usual stack of a thread
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(body).unwrap();
    if t.join().is_err() {
        std::process::exit(40);
    }
}

fn body() {
    let a: Vec<String> = std::env::args().collect();
    let f = h::entry(&a[1]).expect("entry");
    let params = nums(&a[2], ',');
    if a[3] == "one" {
        let inputs = a[4..].iter().map(|x| x.parse().unwrap()).collect();
        let o = run(f, &params, inputs, true);
        println!("COMPLETED observed={:?}", o);
        return;
    }
    let t = std::fs::read_to_string(&a[4]).unwrap();
    let mut n = 0;
    for l in t.lines() {
        let (i, o) = l.split_once('|').unwrap();
        // `?`: what the path observes is not known
        let open = o == "?";
        let want = if open { vec![] } else { nums(o, ' ') };
        // each in a process of its own, so that none sees what another left behind
        let pid = unsafe { fork() };
        if pid == 0 {
            let got = run(f, &params, nums(i, ' '), false);
            if got != want && !open {
                println!("MISMATCH inputs={}\n predicted={:?} got={:?}", i, want, got);
                std::process::exit(30);
            }
            std::process::exit(0);
        }
        let mut status = 0i32;
        unsafe { waitpid(pid, &mut status, 0) };
        if status != 0 && !(open && status == 20 << 8) {
            if status != 30 << 8 && status != 20 << 8 {
                println!("FAILED inputs={}", i);
                std::process::exit(31);
            }
            std::process::exit(30);
        }
        n += 1;
    }
    println!("VALIDATED {}", n);
}
