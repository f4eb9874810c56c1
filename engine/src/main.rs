mod builtin;
mod exec;
mod expr;
mod ir;
mod mem;
mod solve;
mod z3;
use exec::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    // as strings: JSON readers keep them exact either way
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn real_main() {
    let mut a = std::env::args().skip(1);
    let (mut ll, mut entry, mut out) = (String::new(), String::new(), None);
    let mut o = Opts {
        params: vec![],
        max_paths: 1_000_000,
        max_time: 600.0,
        max_viol: 4,
        conc: None,
        nsamples: 8,
        trace: false,
        shard: None,
        cover_leaves: 1500,
        real_hash: false,
    };
    let mut prof = false;
    while let Some(x) = a.next() {
        let mut nx = || a.next().unwrap();
        match x.as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--out" => out = Some(nx()),
            "--params" => o.params = nx().split(',').filter(|x| !x.is_empty() && *x != "-").map(|s| s.parse().unwrap()).collect(),
            "--max-paths" => o.max_paths = nx().parse().unwrap(),
            "--max-time" => o.max_time = nx().parse().unwrap(),
            "--max-viol" => o.max_viol = nx().parse().unwrap(),
            "--samples" => o.nsamples = nx().parse().unwrap(),
            "--cover-leaves" => o.cover_leaves = nx().parse().unwrap(),
            "--conc" => o.conc = Some(nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "--real-hash" => o.real_hash = true,
            "--trace" => o.trace = true,
            "--prof" => prof = true,
            _ => panic!("arg {}", x),
        }
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read(&ll).expect("read ll");
    let md = ir::Module::load(text);
    let t_load = t0.elapsed().as_secs_f64();
    let mut ex = Exec::new(md, o);
    let t1 = std::time::Instant::now();
    ex.run(&entry);
    let wall = t1.elapsed().as_secs_f64();
    let _ = prof;
    let r = &ex.rep;
    let mut funcs: Vec<String> = ex
        .used
        .iter()
        .map(|&f| {
            let f = &ex.md.funcs[f as usize];
            if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() }
        })
        .collect();
    funcs.sort();
    funcs.dedup();
    let map = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut s = String::new();
    s += &format!(
        "{{\"harness\":{},\"paths\":{},\"completed\":{},\"assumed_away\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"assert_queries\":{},",
        js(&entry), r.paths, r.done, r.assumed_away, r.forks, r.instrs, r.asserts, r.assert_queries
    );
    s += &format!(
        "\"queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"cache_hits\":{},\"small_domain\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"max_vars\":{},\"hash_calls\":{},",
        ex.sv.z3.queries, ex.sv.z3.time, ex.sv.z3.max_time, ex.sv.cache_hits, ex.sv.small, t_load, wall, r.max_vars, r.hash_calls
    );
    s += &format!("\"incomplete\":{},", r.incomplete.as_ref().map(|x| js(x)).unwrap_or("null".into()));
    s += &format!("\"cover_query\":{},", match r.cover_query { None => "null".into(), Some(b) => b.to_string() });
    s += &format!("\"unsupported\":{},", strs(&r.unsupported));
    s += &format!("\"covers\":{},\"labels\":{},\"viol_counts\":{},", map(&r.covers), map(&r.labels), map(&r.viol_counts));
    s += &format!(
        "\"violations\":[{}],",
        r.violations
            .iter()
            .map(|v| format!("{{\"label\":{},\"values\":{},\"stack\":{}}}", js(&v.label), nums(&v.values), strs(&v.stack)))
            .collect::<Vec<_>>()
            .join(",")
    );
    s += &format!(
        "\"samples\":[{}],",
        r.samples
            .iter()
            .map(|v| format!("{{\"values\":{},\"obs\":{},\"covers\":{},\"asserts\":{}}}", nums(&v.values), nums(&v.obs), strs(&v.covers), v.asserts))
            .collect::<Vec<_>>()
            .join(",")
    );
    s += &format!("\"functions\":{}}}\n", strs(&funcs));
    match out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => print!("{}", s),
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(5);
    }
}
