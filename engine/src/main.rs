//! `tsym`: bounded symbolic execution of LLVM IR, decided by a SAT solver.

mod blast;
mod exec;
mod ir;
mod term;

use blast::*;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};
use term::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    ll: String,
    harness: String,
    out: Option<String>,
    time: u64,
    sat_time: u64,
    max_visits: u32,
    min_visits: u32,
    max_alloc: u64,
    smt2: Option<String>,
    trace: bool,
    jobs: usize,
    check_backedges: bool,
    max_labels: usize,
}

fn field<'a>(l: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("{}: ", key);
    let mut p = 0;
    loop {
        let i = l[p..].find(&k)? + p;
        let prev = l[..i].chars().last();
        if prev == Some('(') || prev == Some(' ') {
            let r = &l[i + k.len()..];
            if let Some(q) = r.strip_prefix('"') {
                let e = q.find('"')?;
                return Some(&q[..e]);
            }
            let e = r.find(|c: char| c == ',' || c == ')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        p = i + 1;
    }
}

/// Source functions (including inlined ones) covered by the executed instructions.
fn source_functions(m: &ir::Module, dbg: &std::collections::HashSet<u32>) -> BTreeSet<String> {
    let id = |s: &str| s.trim_start_matches('!').parse::<u32>().ok();
    let mut out = BTreeSet::new();
    let mut seen = std::collections::HashSet::new();
    let mut work: Vec<u32> = dbg.iter().cloned().collect();
    while let Some(k) = work.pop() {
        if !seen.insert(k) {
            continue;
        }
        let l = match m.meta.get(&k) {
            Some(l) => l.as_str(),
            None => continue,
        };
        if l.contains("!DISubprogram(") {
            let mut name = field(l, "name").unwrap_or("?").to_string();
            let mut sc = field(l, "scope").and_then(id);
            let mut depth = 0;
            while let Some(s) = sc {
                let sl = match m.meta.get(&s) {
                    Some(x) => x.as_str(),
                    None => break,
                };
                if sl.contains("!DINamespace") {
                    name = format!("{}::{}", field(sl, "name").unwrap_or("?"), name);
                }
                sc = field(sl, "scope").and_then(id);
                depth += 1;
                if depth > 20 {
                    break;
                }
            }
            out.insert(name);
        } else {
            for key in ["scope", "inlinedAt"] {
                if let Some(s) = field(l, key).and_then(id) {
                    work.push(s);
                }
            }
        }
    }
    out
}

fn main() {
    let th = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = th.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let mut o = Opts {
        ll: String::new(),
        harness: String::new(),
        out: None,
        time: 600,
        sat_time: 600,
        max_visits: 400,
        min_visits: 2,
        max_alloc: 1 << 16,
        smt2: None,
        trace: false,
        jobs: 1,
        check_backedges: true,
        max_labels: 4,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => o.ll = v(),
            "--harness" => o.harness = v(),
            "--out" => o.out = Some(v()),
            "--time" => o.time = v().parse().unwrap(),
            "--sat-time" => o.sat_time = v().parse().unwrap(),
            "--max-visits" => o.max_visits = v().parse().unwrap(),
            "--min-visits" => o.min_visits = v().parse().unwrap(),
            "--max-alloc" => o.max_alloc = v().parse().unwrap(),
            "--smt2" => o.smt2 = Some(v()),
            "--jobs" => o.jobs = v().parse().unwrap(),
            "--labels" => o.max_labels = v().parse().unwrap(),
            "--no-backedge-checks" => o.check_backedges = false,
            "--trace" => o.trace = true,
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(&o.ll) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", o.ll, e);
            return 2;
        }
    };
    let m = match ir::Module::load(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse {}: {}", o.ll, e);
            return 2;
        }
    };
    drop(text);
    let cfg = Cfg {
        max_visits: o.max_visits,
        max_alloc: o.max_alloc,
        sat_limit: Duration::from_secs(o.sat_time),
        deadline: t0 + Duration::from_secs(o.time),
        trace: o.trace,
        check_backedges: o.check_backedges,
        min_visits: o.min_visits,
    };
    let mut ex = Exec::new(&m, cfg);
    let r = ex.run_harness(&o.harness);
    let t_exec = t0.elapsed().as_secs_f64();
    let mut result = String::from("ok");
    let mut error = String::new();
    let mut viols: Vec<(Vec<(u64, u128)>, Vec<(String, &'static str)>)> = Vec::new();
    let mut covers: BTreeMap<String, &'static str> = BTreeMap::new();
    if let Err(e) = &r {
        result = "error".into();
        error = e.clone();
    }
    if o.trace {
        let mut p: Vec<_> = ex.prof.iter().collect();
        p.sort_by(|a, b| b.1.cmp(a.1));
        for (k, v) in p.iter().take(60) {
            eprintln!("{:8} {}", v, k);
        }
    }
    let remaining = |t: Instant| Duration::from_secs(o.time).saturating_sub(t.elapsed());
    let mut t_decide = 0.0;
    if r.is_ok() {
        // The loops' feasibility checks already cached some models.
        let td = Instant::now();
        let obls = ex.obls.clone();
        let mut known: BTreeSet<String> = BTreeSet::new();
        loop {
            let mut bad = 0;
            for ob in &obls {
                if !known.contains(&ob.label) {
                    bad = ex.ts.or(bad, ob.cond);
                }
            }
            if bad == 0 {
                break;
            }
            if let (Some(p), true) = (&o.smt2, known.is_empty()) {
                let _ = std::fs::write(p, smt2(&ex.ts, &[bad]));
            }
            let ans = decide(&mut ex, bad, o.jobs, remaining(t0));
            match ans {
                Answer::Unsat => break,
                Answer::Unknown(s) => {
                    if viols.is_empty() {
                        result = "error".into();
                        error = format!("decision query: {}", s);
                    }
                    break;
                }
                Answer::Sat(model) => {
                    result = "violation".into();
                    let mut ev = Eval::new(model);
                    let mut labels = Vec::new();
                    for ob in &obls {
                        if ev.eval(&ex.ts, ob.cond) == 1 {
                            if !labels.iter().any(|(l, _)| l == &ob.label) {
                                labels.push((ob.label.clone(), ob.kind));
                            }
                        }
                    }
                    if labels.is_empty() {
                        result = "error".into();
                        error = "the model violates no obligation".into();
                        break;
                    }
                    for (l, _) in &labels {
                        known.insert(l.clone());
                    }
                    let mut ins: Vec<(u64, u128)> = ex.inputs.iter().map(|(&k, &t)| (k, ev.eval(&ex.ts, t))).collect();
                    ins.sort();
                    viols.push((ins, labels));
                    if viols.len() >= o.max_labels {
                        break;
                    }
                }
            }
        }
        t_decide = td.elapsed().as_secs_f64();
        // Vacuity.
        let mut cov = ex.covers.clone();
        cov.push(("(the harness can finish)".into(), ex.finished));
        let mut by: BTreeMap<String, T> = BTreeMap::new();
        for (l, g) in cov {
            let e = by.entry(l).or_insert(0);
            *e = ex.ts.or(*e, g);
        }
        for (l, g) in by {
            let a = match ex.feasible(g) {
                Ok(true) => "satisfied",
                Ok(false) => "unsatisfiable",
                Err(_) => "unknown",
            };
            covers.insert(l, a);
        }
    }
    let total = t0.elapsed().as_secs_f64();
    let mut s = String::from("{\n");
    s += &format!(" \"harness\": {},\n \"result\": {},\n \"error\": {},\n", js(&o.harness), js(&result), js(&error));
    s += " \"violations\": [";
    for (k, (ins, labels)) in viols.iter().enumerate() {
        if k > 0 {
            s += ",";
        }
        s += "\n  {\"inputs\": {";
        s += &ins.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ");
        s += "}, \"labels\": [";
        s += &labels.iter().map(|(l, k)| format!("[{}, {}]", js(l), js(k))).collect::<Vec<_>>().join(", ");
        s += "]}";
    }
    s += "],\n \"covers\": {";
    s += &covers.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect::<Vec<_>>().join(", ");
    s += "},\n";
    let mut kinds: BTreeMap<&str, usize> = BTreeMap::new();
    let mut labels: BTreeSet<String> = BTreeSet::new();
    for ob in &ex.obls {
        *kinds.entry(ob.kind).or_insert(0) += 1;
        labels.insert(format!("{}: {}", ob.kind, ob.label));
    }
    s += &format!(
        " \"obligations\": {{{}}},\n \"obligation_labels\": [{}],\n",
        kinds.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
        labels.iter().map(|l| js(l)).collect::<Vec<_>>().join(", ")
    );
    // A model per satisfiable cover, for cross-checks.
    s += &format!(" \"inputs\": {},\n", ex.inputs.len());
    let mut models = String::new();
    for (k, md) in ex.models.iter_mut().enumerate().take(8) {
        let mut ins: Vec<(u64, u128)> = ex.inputs.iter().map(|(&k, &t)| (k, md.eval(&ex.ts, t))).collect();
        ins.sort();
        if k > 0 {
            models += ", ";
        }
        models += &format!("{{{}}}", ins.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    }
    s += &format!(" \"models\": [{}],\n", models);
    s += &format!(" \"functions\": [{}],\n", ex.executed.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "));
    let sf = source_functions(&m, &ex.dbg_seen);
    s += &format!(
        " \"source_functions\": [{}],\n",
        sf.iter().filter(|l| l.contains("treena")).map(|l| js(l)).collect::<Vec<_>>().join(", ")
    );
    s += &format!(
        " \"steps\": {}, \"merges\": {}, \"forks\": {}, \"terms\": {}, \"gates\": {},\n",
        ex.steps,
        ex.merges,
        ex.forks,
        ex.ts.nodes.len(),
        ex.bl.num_gates()
    );
    s += &format!(
        " \"queries\": {}, \"query_unsat\": {}, \"query_sat\": {}, \"max_vars\": {}, \"max_clauses\": {}, \"solver_time\": {:.3},\n",
        ex.stats.queries + ex.fstats.queries,
        ex.stats.unsat + ex.fstats.unsat,
        ex.stats.sat + ex.fstats.sat,
        ex.stats.max_vars.max(ex.fstats.max_vars),
        ex.stats.max_clauses.max(ex.fstats.max_clauses),
        ex.stats.time + ex.fstats.time
    );
    s += &format!(" \"exec_time\": {:.3}, \"decide_time\": {:.3}, \"total_time\": {:.3}\n}}\n", t_exec, t_decide, total);
    match &o.out {
        Some(p) => {
            if let Err(e) = std::fs::write(p, &s) {
                eprintln!("{}: {}", p, e);
                return 2;
            }
        }
        None => print!("{}", s),
    }
    match result.as_str() {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}

/// Decides the satisfiability of `bad`, in parallel cubes if the harness named splitting terms.
fn decide(ex: &mut Exec, bad: T, jobs: usize, limit: Duration) -> Answer {
    let mut cubes: Vec<T> = vec![1];
    if jobs > 1 {
        for (t, n) in ex.splits.clone() {
            if cubes.len() * n as usize > 64 {
                break;
            }
            let w = ex.ts.w(t);
            let mut next = Vec::new();
            for &c in &cubes {
                for k in 0..n {
                    let kc = ex.ts.cst(k as u128, w);
                    // The last cube takes the rest.
                    let e = if k + 1 == n { ex.ts.ule(kc, t) } else { ex.ts.eq(t, kc) };
                    let x = ex.ts.and(c, e);
                    if x != 0 {
                        next.push(x);
                    }
                }
            }
            cubes = next;
        }
    }
    if cubes.len() <= 1 {
        return check(&ex.ts, &mut ex.bl, &[bad], limit, &mut ex.stats);
    }
    let mut cnfs = Vec::new();
    for &c in &cubes {
        match prepare(&ex.ts, &mut ex.bl, &[bad, c]) {
            None => {
                ex.stats.queries += 1;
                ex.stats.unsat += 1;
            }
            Some(f) => cnfs.push(f),
        }
    }
    let nv = ex.ts.vars.len();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let res = std::sync::Mutex::new(Vec::new());
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..jobs.min(cnfs.len()) {
            s.spawn(|| loop {
                use std::sync::atomic::Ordering::SeqCst;
                let k = next.fetch_add(1, SeqCst);
                if k >= cnfs.len() || stop.load(SeqCst) {
                    break;
                }
                let t = Instant::now();
                let a = run_sat(&cnfs[k], nv, limit.saturating_sub(t0.elapsed()));
                if matches!(a, Answer::Sat(_)) {
                    stop.store(true, SeqCst);
                }
                res.lock().unwrap().push((a, t.elapsed().as_secs_f64(), cnfs[k].vars, cnfs[k].clauses));
            });
        }
    });
    let mut out = Answer::Unsat;
    for (a, t, v, c) in res.into_inner().unwrap() {
        ex.stats.queries += 1;
        ex.stats.time += t;
        ex.stats.max_vars = ex.stats.max_vars.max(v);
        ex.stats.max_clauses = ex.stats.max_clauses.max(c);
        match a {
            Answer::Sat(_) => {
                ex.stats.sat += 1;
                out = a;
            }
            Answer::Unsat => ex.stats.unsat += 1,
            Answer::Unknown(_) => {
                if !matches!(out, Answer::Sat(_)) {
                    out = a;
                }
            }
        }
    }
    out
}
