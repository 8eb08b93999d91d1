//! symx: bounded symbolic execution of LLVM IR with Z3.
//!
//! symx IR.ll ENTRY OUT.json [--params a,b,..] [--threads n] [--time s] [--steps n]
//!      [--samples n] [--val FILE] [--max-violations n] [--src SUBSTR]

mod exec;
mod expr;
mod ir;
mod solver;

use exec::{End, Exec, Item, Stats};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// A readable form of a mangled (v0) name: its identifiers.
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // possible disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j > i && (i == 0 || !b[i - 1].is_ascii_digit()) {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' {
                st += 1;
            }
            if l > 0 && st + l <= b.len() {
                out.push(&n[st..st + l]);
                i = st + l;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

struct Queue {
    items: Vec<Item>,
    active: usize,
    stop: bool,
}

struct Found {
    kind: &'static str,
    msg: String,
    inputs: Vec<u64>,
    texts: Vec<Vec<u8>>,
}

#[derive(Default)]
struct Shared {
    stats: Stats,
    found: Vec<Found>,
    found_count: BTreeMap<String, u64>,
    undecided: BTreeMap<String, u64>,
    samples: Vec<(Vec<u64>, Vec<u64>, Vec<Vec<u8>>)>,
    edges: Vec<Vec<u8>>,
    fns: BTreeSet<u32>,
    hang: u64,
    /// inputs of paths that could not be followed to their end
    open: Vec<Vec<u64>>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: symx IR.ll ENTRY OUT.json [options]");
        std::process::exit(2);
    }
    let mut params: Vec<u64> = vec![];
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut time = 600.0f64;
    let mut steps = 20_000_000u64;
    let mut nsamples = 300usize;
    let mut maxv = 12usize;
    let mut val_file: Option<String> = None;
    let mut src = String::from("wavefront_obj");
    let mut seed = 1u64;
    let mut i = 4;
    while i + 1 < args.len() {
        let v = &args[i + 1];
        match args[i].as_str() {
            "--params" => params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--threads" => threads = v.parse().unwrap(),
            "--time" => time = v.parse().unwrap(),
            "--steps" => steps = v.parse().unwrap(),
            "--samples" => nsamples = v.parse().unwrap(),
            "--max-violations" => maxv = v.parse().unwrap(),
            "--val" => val_file = Some(v.clone()),
            "--src" => src = v.clone(),
            "--seed" => seed = v.parse().unwrap(),
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&args[1]).expect("read IR");
    let module = match ir::Reader::read(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: cannot read {}: {}", args[1], e);
            std::process::exit(2);
        }
    };
    drop(text);
    let t_read = t0.elapsed().as_secs_f64();
    let entry = match module.fn_ids.get(&args[2]) {
        Some(&e) => e,
        None => {
            eprintln!("symx: no function {}", args[2]);
            std::process::exit(2);
        }
    };
    let q = Mutex::new(Queue { items: vec![Item::default()], active: 0, stop: false });
    let cv = Condvar::new();
    let shared = Mutex::new(Shared {
        edges: module.funcs.iter().map(|f| vec![0u8; f.edges.len()]).collect(),
        ..Default::default()
    });
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(time);
    let seen_paths = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || {
                    let mut ex = Exec::new(&module, params.clone(), steps);
                    let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
                    let mut local: Vec<Item> = vec![];
                    loop {
                        let item = match local.pop() {
                            Some(i) => i,
                            None => {
                                let mut g = q.lock().unwrap();
                                loop {
                                    if g.stop {
                                        break;
                                    }
                                    if let Some(i) = g.items.pop() {
                                        g.active += 1;
                                        local.push(i);
                                        break;
                                    }
                                    if g.active == 0 {
                                        g.stop = true;
                                        cv.notify_all();
                                        break;
                                    }
                                    g = cv.wait(g).unwrap();
                                }
                                if g.stop {
                                    break;
                                }
                                drop(g);
                                local.pop().unwrap()
                            }
                        };
                        let end = ex.run_path(entry, item);
                        let n = seen_paths.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
                        local.append(&mut ex.new_items);
                        let mut stop = Instant::now() > deadline;
                        match end {
                            End::Done => {
                                // reservoir sampling
                                rng ^= rng << 13;
                                rng ^= rng >> 7;
                                rng ^= rng << 17;
                                let take = n <= nsamples as u64 || rng % n < nsamples as u64;
                                if take && nsamples > 0 {
                                    let (iv, ob, tx) = (ex.input_values(), ex.observed(), ex.text_values());
                                    let mut sh = shared.lock().unwrap();
                                    if sh.samples.len() < nsamples {
                                        sh.samples.push((iv, ob, tx));
                                    } else {
                                        let k = (rng >> 20) as usize % nsamples;
                                        sh.samples[k] = (iv, ob, tx);
                                    }
                                }
                            }
                            End::Infeasible => {}
                            End::Undecided(s) => {
                                let iv = ex.input_values();
                                let mut sh = shared.lock().unwrap();
                                let c = sh.undecided.entry(s).or_default();
                                *c += 1;
                                if *c <= 100 {
                                    sh.open.push(iv);
                                }
                            }
                            e => {
                                let (kind, msg) = match e {
                                    End::Panic(s) => ("panic", s),
                                    End::Fault(s) => ("memory", s),
                                    End::Steps => ("hang", "step limit".to_string()),
                                    End::Stack => ("stack", "calls nested too deeply".to_string()),
                                    End::Check(s) => ("check", s),
                                    _ => unreachable!(),
                                };
                                let f = Found { kind, msg, inputs: ex.input_values(), texts: ex.text_values() };
                                let mut sh = shared.lock().unwrap();
                                if kind == "hang" {
                                    sh.hang += 1;
                                }
                                let key = format!("{}: {}", f.kind, f.msg);
                                let c = sh.found_count.entry(key).or_default();
                                *c += 1;
                                // a few witnesses per kind of failure
                                if *c <= 3 {
                                    sh.found.push(f);
                                }
                                let total: u64 = sh.found_count.values().sum();
                                if sh.found.len() >= maxv || total >= 200 {
                                    stop = true;
                                }
                            }
                        }
                        // share work
                        let mut g = q.lock().unwrap();
                        if stop {
                            g.stop = true;
                            cv.notify_all();
                        }
                        if g.stop {
                            // count what remains as unexplored
                            g.items.append(&mut local);
                            break;
                        }
                        if local.is_empty() {
                            g.active -= 1;
                            if g.active == 0 && g.items.is_empty() {
                                g.stop = true;
                                cv.notify_all();
                            }
                        } else if g.items.len() < threads && local.len() > 1 {
                            // give away the oldest half
                            let h = local.len() / 2;
                            let mut gift: Vec<Item> = local.drain(..h.max(1)).collect();
                            gift.reverse();
                            g.items.append(&mut gift);
                            cv.notify_all();
                        }
                    }
                    let mut sh = shared.lock().unwrap();
                    sh.stats.add(&ex.stats);
                    for (k, e) in ex.edge_seen.iter().enumerate() {
                        for (j, x) in e.iter().enumerate() {
                            sh.edges[k][j] |= x;
                        }
                    }
                    for (k, x) in ex.fn_seen.iter().enumerate() {
                        if *x {
                            sh.fns.insert(k as u32);
                        }
                    }
                })
                .unwrap();
        }
    });
    let wall = start.elapsed().as_secs_f64();
    let left = q.lock().unwrap().items.len();
    let sh = shared.into_inner().unwrap();
    let st = &sh.stats;
    // Source lines of the code under test that were executed.
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fnames: BTreeSet<String> = BTreeSet::new();
    for &f in &sh.fns {
        let fun = &module.funcs[f as usize];
        if fun.name.contains(&src) {
            fnames.insert(short_name(&fun.name));
        }
        let mut starts: Vec<u32> = vec![0];
        for (k, e) in fun.edges.iter().enumerate() {
            if sh.edges[f as usize][k] != 0 {
                starts.push(e.pc);
            }
        }
        starts.sort();
        starts.dedup();
        for s in starts {
            let mut pc = s as usize;
            loop {
                let d = fun.dbg[pc];
                if d != 0 {
                    if let Some(&(line, scope)) = module.locs.get(&d) {
                        let mut sc = scope;
                        for _ in 0..50 {
                            match module.scopes.get(&sc) {
                                Some(x) if x.parent != 0 => sc = x.parent,
                                _ => break,
                            }
                        }
                        if let Some(x) = module.scopes.get(&sc) {
                            if let Some(fi) = x.file.strip_prefix('!').and_then(|n| n.parse::<u32>().ok()).and_then(|n| module.scopes.get(&n)) {
                                if fi.name.contains("/repo/src/") || fi.name.starts_with("src/") && fi.name != "src/lib.rs" {
                                    lines.entry(fi.name.clone()).or_default().insert(line);
                                    fnames.insert(format!("{}: {}", fi.name.rsplit('/').next().unwrap_or(""), x.name));
                                }
                            }
                        }
                    }
                }
                match &fun.code[pc] {
                    ir::I::Br { .. } | ir::I::CondBr { .. } | ir::I::Switch { .. } | ir::I::Ret { .. } | ir::I::Unreachable | ir::I::Unsupported(_) => break,
                    _ => pc += 1,
                }
            }
        }
    }
    if let Some(vf) = &val_file {
        let mut o = String::new();
        for iv in &sh.open {
            let a: Vec<String> = iv.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(o, "{}|?", a.join(" "));
        }
        for (iv, ob, _) in &sh.samples {
            let a: Vec<String> = iv.iter().map(|x| x.to_string()).collect();
            let b: Vec<String> = ob.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(o, "{}|{}", a.join(" "), b.join(" "));
        }
        std::fs::write(vf, o).expect("write validation file");
    }
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"entry\": {}, \"params\": {},", esc(&args[2]), nums(&params));
    let _ = writeln!(
        o,
        "\"paths\": {}, \"completed\": {}, \"excluded_by_assumption\": {}, \"unexplored\": {}, \"instructions\": {}, \"longest_path\": {},",
        st.paths, st.done, st.infeasible, left, st.steps, st.max_steps
    );
    let _ = writeln!(
        o,
        "\"forks\": {}, \"branches_by_domain\": {}, \"branches_by_model\": {}, \"z3_queries\": {}, \"z3_cached\": {}, \"z3_unsat\": {}, \"z3_s\": {:.3},",
        st.forks, st.decided_domain, st.decided_model, st.z3_queries, st.z3_cached, st.z3_unsat, st.z3_ns as f64 / 1e9
    );
    let _ = writeln!(
        o,
        "\"assertions\": {}, \"assertions_folded\": {}, \"assertions_by_domain\": {}, \"assertions_by_z3\": {}, \"symbolic_variables\": {}, \"choices\": {},",
        st.checks, st.checks_folded, st.checks_domain, st.checks_z3, st.sym_bytes, st.choices
    );
    let kv = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let _ = writeln!(o, "\"reach\": {},", kv(&st.reach));
    let _ = writeln!(o, "\"assertion_counts\": {},", kv(&st.check_msgs));
    let _ = writeln!(o, "\"undecided\": {},", kv(&sh.undecided));
    let _ = writeln!(o, "\"failures\": {},", kv(&sh.found_count));
    let fv: Vec<String> = sh
        .found
        .iter()
        .map(|f| {
            let t: Vec<String> = f.texts.iter().map(|t| esc(&String::from_utf8_lossy(t))).collect();
            format!(
                "{{\"kind\": {}, \"msg\": {}, \"inputs\": {}, \"texts\": [{}]}}",
                esc(f.kind),
                esc(&f.msg),
                nums(&f.inputs),
                t.join(", ")
            )
        })
        .collect();
    let _ = writeln!(o, "\"found\": [{}],", fv.join(",\n"));
    let sv: Vec<String> = sh
        .samples
        .iter()
        .step_by((sh.samples.len() / 6).max(1))
        .take(6)
        .map(|(_, ob, tx)| {
            let t: Vec<String> = tx.iter().map(|t| esc(&String::from_utf8_lossy(t))).collect();
            format!("{{\"texts\": [{}], \"observed\": {}}}", t.join(", "), nums(&ob[..ob.len().min(12)]))
        })
        .collect();
    let _ = writeln!(o, "\"samples\": [{}],", sv.join(",\n"));
    let lv: Vec<String> = lines
        .iter()
        .map(|(k, v)| {
            let v: Vec<u64> = v.iter().map(|&x| x as u64).collect();
            format!("{}: {}", esc(k), nums(&v))
        })
        .collect();
    let _ = writeln!(o, "\"lines\": {{{}}},", lv.join(", "));
    let nv: Vec<String> = fnames.iter().map(|s| esc(s)).collect();
    let _ = writeln!(o, "\"functions\": [{}],", nv.join(", "));
    let _ = writeln!(o, "\"sampled\": {}, \"read_s\": {:.3}, \"wall_s\": {:.3}", sh.samples.len(), t_read, wall);
    o.push_str("}\n");
    std::fs::write(&args[3], o).expect("write result");
}
