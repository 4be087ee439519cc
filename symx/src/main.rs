mod exec;
mod ir;
mod solver;
mod sweep;
mod term;
use std::collections::HashMap;
use std::io::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: symx FILE.ll ENTRY [--param N]... [--redirect PAT=FN]... [--out F] [--time S] [--fixed MODEL] [--trace]");
        std::process::exit(2);
    }
    // deep recursion in term constructors: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(args)).unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}

fn real(args: Vec<String>) -> i32 {
    let t0 = std::time::Instant::now();
    let src = std::fs::read_to_string(&args[1]).expect("read ir");
    let mut ex = exec::Exec::new(src);
    let mut out: Option<String> = None;
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--param" => ex.params.push(v.parse().unwrap()),
            "--redirect" => {
                let (p, t) = v.split_once('=').unwrap();
                ex.redirects.push((p.split('*').map(|x| x.to_string()).collect(), t.to_string()));
            }
            "--out" => out = Some(v),
            "--steps" => ex.path_step_limit = args[i + 1].parse().unwrap(),
            "--time" => ex.deadline = Some(t0 + std::time::Duration::from_secs_f64(v.parse().unwrap())),
            "--hard-ms" => ex.sv.hard_ms = v.parse().unwrap(),
            "--quick-ms" => ex.sv.quick_ms = v.parse().unwrap(),
            "--max-paths" => ex.max_paths = v.parse().unwrap(),
            "--fixed" => {
                let mut m = HashMap::new();
                for l in std::fs::read_to_string(&v).unwrap_or_default().lines() {
                    if let Some((a, b)) = l.rsplit_once(' ') {
                        if let Ok(x) = b.parse::<u128>() {
                            m.insert(a.to_string(), x);
                        }
                    }
                }
                ex.fixed = Some(m);
            }
            "--symcopy" => {
                ex.symcopy = true;
                i += 1;
                continue;
            }
            "--trace" => {
                ex.trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 2;
    }
    ex.run(&args[2]);
    let dt = t0.elapsed().as_secs_f64();
    let mut o = String::from("{\n");
    let st = &ex.sv.st;
    o += &format!(
        "\"entry\":{},\"params\":{:?},\"seconds\":{:.3},\"paths\":{},\"ended\":{},\"killed\":{},\"panicked\":{},\"forks\":{},\"steps\":{},\"terms\":{},\n",
        js(&args[2]), ex.params, dt, ex.paths, ex.ended, ex.killed, ex.panicked, ex.forks, ex.steps, ex.tm.len()
    );
    o += &format!(
        "\"asserts\":{},\"asserts_trivial\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"hard\":{},\"small_domain\":{},\"solver_seconds\":{:.3},\"max_query\":{:.3},\n",
        ex.asserts, ex.asserts_trivial, st.queries, st.sat, st.unsat, st.unknown, st.cached, st.hard, ex.small, st.time, st.max_time
    );
    o += &format!("\"assert_ids\":{{{}}},\n", ex.assert_ids.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"reached\":{{{}}},\n", ex.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"redirects\":{{{}}},\n", ex.redirect_used.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","));
    o += &format!("\"incomplete\":[{}],\n", ex.incomplete.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o += &format!(
        "\"functions\":[{}],\n",
        ex.functions().iter().map(|(n, k)| format!("[{},{}]", js(n), k)).collect::<Vec<_>>().join(",")
    );
    o += &format!(
        "\"witnesses\":[{}],\n",
        ex.witnesses
            .iter()
            .map(|(n, m)| format!("[{},{{{}}}]", js(n), m.iter().filter(|x| x.1 != 0).map(|(n, x, _)| format!("{}:\"{}\"", js(n), x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    o += &format!(
        "\"longest\":{},\"hangs\":[{}],\n",
        ex.longest,
        ex.hangs
            .iter()
            .map(|m| format!("{{{}}}", m.iter().filter(|x| x.1 != 0).map(|(n, x, _)| format!("{}:\"{}\"", js(n), x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    o += &format!("\"alg\":{},\n", ex.claims_json());
    o += "\"violations\":[\n";
    let vs: Vec<String> = ex
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"notes\":[{}],\"other\":{{{}}},\"model\":{{{}}}}}",
                js(&v.kind),
                js(&v.msg),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                v.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                v.other.iter().filter(|x| x.1 != 0).map(|(n, x, _)| format!("{}:\"{}\"", js(n), x)).collect::<Vec<_>>().join(","),
                v.model.iter().filter(|x| x.1 != 0).map(|(n, x, _)| format!("{}:\"{}\"", js(n), x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    o += &vs.join(",\n");
    o += "\n]}\n";
    match out {
        Some(f) => std::fs::write(f, o).expect("write"),
        None => {
            let _ = std::io::stdout().write_all(o.as_bytes());
        }
    }
    if !ex.violations.is_empty() {
        1
    } else if ex.incomplete.iter().any(|x| !x.starts_with("(soft)")) {
        2
    } else {
        0
    }
}
