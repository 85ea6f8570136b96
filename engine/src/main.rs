mod exec;
mod expr;
mod field;
mod ints;
mod ir;
mod mac;
mod poly;
mod sweep;
mod z3;

use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn inputs_json(v: &[(char, Vec<u8>)]) -> String {
    let t: Vec<String> = v.iter().map(|(k, b)| format!("[\"{}\",\"{}\"]", k, hex(b))).collect();
    format!("[{}]", t.join(","))
}

fn real_main() {
    let t0 = Instant::now();
    let mut mods = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut max_paths = 10_000_000u64;
    let mut secs = 600u64;
    let mut qms = 60_000u32;
    let mut max_viols = 3usize;
    let mut params = vec![];
    let mut trace = false;
    let mut use_ints = false;
    let mut part = (0u64, 1u64);
    let mut part_depth = 1u64;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--mod" => mods.push(v()),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--seconds" => secs = v().parse().unwrap(),
            "--query-ms" => qms = v().parse().unwrap(),
            "--max-violations" => max_viols = v().parse().unwrap(),
            "--param" => params.push(v().parse().unwrap()),
            "--trace" => trace = true,
            "--ints" => use_ints = true,
            "--part" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                part = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--part-depth" => part_depth = v().parse().unwrap(),
            "--uf" => {
                // NAME=o:0:96,i:1:96,...[,r:1]
                let s = v();
                let (n, spec) = s.rsplit_once('=').unwrap();
                let mut args = vec![];
                let mut ret = 0;
                for t in spec.split(',') {
                    let p: Vec<&str> = t.split(':').collect();
                    if p[0] == "r" {
                        ret = p[1].parse().unwrap();
                    } else {
                        args.push((p[0].as_bytes()[0], p[1].parse().unwrap(), p.get(2).map_or(0, |x| x.parse().unwrap())));
                    }
                }
                exec::UFS.with(|u| u.borrow_mut().push(exec::UfSpec { name: n.to_string(), args, ret }));
            }
            "--contract" => {
                let s = v();
                let (n, o) = s.rsplit_once('=').unwrap();
                field::CONTRACTS.with(|c| c.borrow_mut().push((n.to_string(), field::op(o))));
            }
            _ => panic!("unknown argument {}", a),
        }
    }
    expr::init();
    let mut p = ir::Prog::new();
    for m in &mods {
        p.load(m);
    }
    let load = t0.elapsed().as_secs_f64();
    let mut x = exec::Exec {
        p,
        s: z3::Solver::new(qms),
        globals: Default::default(),
        work: vec![],
        paths: 0,
        ends: BTreeMap::new(),
        viols: vec![],
        viol_keys: Default::default(),
        unknowns: vec![],
        unsup: BTreeMap::new(),
        checks: BTreeMap::new(),
        reach: BTreeMap::new(),
        funcs: BTreeMap::new(),
        instrs: 0,
        max_paths,
        deadline: Instant::now() + Duration::from_secs(secs),
        max_viols,
        extcache: Default::default(),
        nin: 0,
        exports: vec![],
        forks: 0,
        concr: 0,
        params,
        trace,
        sweep_merged: 0,
        cs: z3::Solver::new(qms),
        asked: Default::default(),
        t0,
        confirmed: 0,
        normalised: 0,
        max_concr: 100_000,
        samples: vec![],
        peak_heap: 0,
        f: Default::default(),
        proved: 0,
        ints: Default::default(),
        use_ints,
        seen_f: Default::default(),
        part,
        part_left: if part.1 > 1 { part_depth } else { 0 },
    };
    // a query that does not end must not lose what was found before it
    let (px, e2, o2, stop) = (&x as *const exec::Exec as usize, entry.clone(), out.clone(), secs + 25);
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(stop));
        let x = unsafe { &*(px as *const exec::Exec) };
        OVER.store(true, std::sync::atomic::Ordering::SeqCst);
        report(x, &e2, load, t0, &o2, 0);
        std::process::exit(0);
    });
    for n in x.missing_ufs() {
        x.unknowns.push(format!("no function {} to abstract", n));
    }
    x.run(&entry);
    if OVER.load(std::sync::atomic::Ordering::SeqCst) {
        std::thread::sleep(Duration::from_secs(60));
    }
    report(&x, &entry, load, t0, &out, expr::cx().nodes.len());
    // skip the destructors of a large heap
    std::process::exit(0);
}
static OVER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn report(x: &exec::Exec, entry: &str, load: f64, t0: Instant, out: &str, nodes: usize) {
    let mut o = String::from("{\n");
    o += &format!("\"entry\":{},\n", js(entry));
    o += &format!("\"paths\":{},\"instructions\":{},\"forks\":{},\"concretizations\":{},\n", x.paths, x.instrs, x.forks, x.concr);
    let e: Vec<String> = x.ends.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o += &format!("\"ends\":{{{}}},\n", e.join(","));
    let e: Vec<String> = x.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    o += &format!("\"reach\":{{{}}},\n", e.join(","));
    let e: Vec<String> = x.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect();
    o += &format!("\"checks\":{{{}}},\n", e.join(","));
    let e: Vec<String> = x.unsup.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o += &format!("\"unsupported\":{{{}}},\n", e.join(","));
    let mut u = x.unknowns.clone();
    if OVER.load(std::sync::atomic::Ordering::SeqCst) {
        u.push("a query did not end".to_string());
    }
    u.sort();
    u.dedup();
    u.truncate(20);
    let e: Vec<String> = u.iter().map(|k| js(k)).collect();
    o += &format!("\"unknown\":[{}],\n", e.join(","));
    let e: Vec<String> = x
        .viols
        .iter()
        .map(|v| {
            let t: Vec<String> = v.trace.iter().map(|k| js(k)).collect();
            format!("{{\"id\":{},\"what\":{},\"inputs\":{},\"trace\":[{}]}}", js(&v.id), js(&v.what), inputs_json(&v.inputs), t.join(","))
        })
        .collect();
    o += &format!("\"violations\":[{}],\n", e.join(",\n"));
    let e: Vec<String> = x.samples.iter().map(|v| inputs_json(&v.0)).collect();
    o += &format!("\"samples\":[{}],\n", e.join(",\n"));
    let e: Vec<String> = x.funcs.iter().map(|(k, v)| format!("[{},{}]", js(k), v)).collect();
    o += &format!("\"functions\":[{}],\n", e.join(",\n"));
    o += &format!(
        "\"solver\":{{\"name\":\"z3 {}\",\"queries\":{},\"evaluated\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"seconds\":{:.3},\"max_seconds\":{:.3},\"abstractions\":{},\"sweep_merges\":{},\"equalities_confirmed\":{},\"equalities_by_rewriting_only\":{}}},\n",
        z3::Solver::version(), x.s.queries + x.cs.queries + x.ints.queries, x.s.fast, x.s.cached, x.s.sat + x.cs.sat, x.s.unsat + x.cs.unsat + x.ints.unsat, x.s.unknown, x.s.time + x.cs.time + x.ints.time, x.s.maxq.max(x.cs.maxq), x.s.abs, x.sweep_merged, x.confirmed, x.normalised
    );
    o += &format!(
        "\"nodes\":{},\"peak_heap\":{},\"load_seconds\":{:.3},\"seconds\":{:.3}\n}}\n",
        nodes,
        x.peak_heap,
        load,
        t0.elapsed().as_secs_f64()
    );
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(out, o).unwrap();
    }
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|_| std::process::exit(3));
}
