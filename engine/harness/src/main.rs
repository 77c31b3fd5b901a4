mod eval;
mod gen;
mod indep;
mod joins;
mod knotsp;
mod laws;
mod manip;
mod order;
mod props;
mod util;
use std::collections::HashMap;
use std::fmt::Write as _;
use symrt::*;
use util::Cfg;

fn write_models(path: &str, prop: &str, cfg: &str, items: &[(symrt::api::Model, Vec<(String, f64)>, bool)]) {
    let mut o = String::new();
    for (m, obs, rob) in items {
        writeln!(o, "path {} {} {}", prop, if *rob { 1 } else { 0 }, cfg).unwrap();
        for (n, v) in &m.vals {
            writeln!(o, "v {} {:016x}", n, v.to_bits()).unwrap();
        }
        for (n, v) in obs {
            writeln!(o, "o {:016x} {}", v.to_bits(), n).unwrap();
        }
        writeln!(o, "end").unwrap();
    }
    std::fs::write(path, o).unwrap();
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => {
            for c in props::configs(&a[2], a[3] == "thorough") {
                println!("{}", c);
            }
        }
        "run" => run(&a[2], &a[3], &a[4], &a[5]),
        "replay" => replay(&a[2]),
        _ => std::process::exit(2),
    }
}

fn envf(k: &str, d: f64) -> f64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn run(prop: &str, cfg: &str, out: &str, models: &str) {
    let c = Cfg(cfg.to_string());
    let lim = symrt::api::Limits {
        max_paths: envf("SX_PATHS", 4000.0) as u64,
        max_secs: envf("SX_SECS", 300.0),
        check_s: envf("SX_CHECK_S", 5.0) as u64,
        fallback_s: envf("SX_FALLBACK_S", 20.0) as u64,
        cross_every: envf("SX_CROSS", 0.0) as u64,
    };
    let mode = props::mode(prop, &c);
    let models2 = format!("{}.viol", models);
    {
        // an execution that does not terminate: write the path's model for a native replay with a time limit
        let (p, c, m2, o) = (prop.to_string(), cfg.to_string(), models2.clone(), out.to_string());
        set_on_hang(Box::new(move || {
            let m = symrt::api::current_model();
            write_models(&m2, &p, &c, &[(m, vec![], true)]);
            std::fs::write(&o, format!("{{\"cfg\":{},\"hang\":true}}", jstr(&c))).unwrap();
            std::process::exit(3);
        }));
    }
    let body = || props::body(prop, &c);
    let mut structures = 0;
    let rep = if c.is("sym", "1") {
        // knots and parameters symbolic up to the first matrix factorisation, then one value for each path
        let t0 = std::time::Instant::now();
        let cap = envf("SX_STRUCT", 60.0) as usize;
        let (mut ms, mut complete) = scout(&lim, 10 * cap, &body);
        if ms.len() > cap {
            // spread over all that were found
            ms = (0..cap).map(|i| ms[i * ms.len() / cap].clone()).collect();
            complete = false;
        }
        structures = ms.len();
        let mut all = symrt::api::Report { wall: 0.0, viols: vec![], paths: vec![], complete, samples: vec![], undecided: vec![], hang: false };
        for m in ms {
            let s = symrt::rt::st();
            s.fixed = m.iter().cloned().collect();
            s.stats.concretised += m.len() as u64;
            let left = lim.max_secs - t0.elapsed().as_secs_f64();
            if left < 0.0 || all.viols.len() >= 4 {
                all.complete = false;
                break;
            }
            let l2 = symrt::api::Limits { max_paths: s.stats.paths + s.stats.dead + lim.max_paths, max_secs: left, ..lim };
            let r = explore(mode, &l2, &body);
            symrt::rt::st().clear_log();
            let text = |x: &f64| format!("{}", x);
            for mut v in r.viols {
                for (n, x) in &m {
                    if !v.model.vals.iter().any(|y| y.0 == *n) {
                        v.model.vals.push((n.clone(), *x));
                        v.model.text.push((n.clone(), text(x)));
                    }
                }
                all.viols.push(v);
            }
            for mut v in r.paths {
                for (n, x) in &m {
                    if !v.0.vals.iter().any(|y| y.0 == *n) {
                        v.0.vals.push((n.clone(), *x));
                    }
                }
                all.paths.push(v);
            }
            all.complete &= r.complete;
            all.samples.extend(r.samples);
            all.samples.truncate(4);
            all.undecided.extend(r.undecided);
        }
        symrt::rt::st().fixed.clear();
        all.wall = t0.elapsed().as_secs_f64();
        all
    } else {
        explore(mode, &lim, &body)
    };
    let s = symrt::rt::st();
    let st = &s.stats;
    let mut j = String::new();
    write!(
        j,
        "{{\"cfg\":{},\"mode\":\"{:?}\",\"paths\":{},\"out_of_scope\":{},\"decisions\":{},\"forced\":{},\"ops\":{},\"checks\":{},\"proved\":{},\"check_queries\":{},\"pinned_only\":{},\"undecided\":{},\"subtol\":{},\"crosschecked\":{},\"concretised\":{},\"unknown_dec\":{},\"complete\":{},\"structures\":{},\"wall_s\":{:.3}",
        jstr(cfg), mode, st.paths, st.dead, st.decisions, st.forced, st.ops, st.checks, st.proved, st.check_queries, st.pinned_only, st.undecided, st.subtol, st.crosschecked, st.concretised, st.unknown_dec, rep.complete, structures, rep.wall
    )
    .unwrap();
    let (q, secs, unk, fb) = match &s.solver {
        Some(x) => (x.queries, x.secs, x.unknown, x.fallbacks),
        None => (0, 0.0, 0, 0),
    };
    write!(j, ",\"queries\":{},\"solver_s\":{:.3},\"unknown\":{},\"fallbacks\":{},\"hang\":false", q, secs, unk, fb).unwrap();
    write!(j, ",\"functions\":[{}]", s.funcs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, ",\"samples\":[{}]", rep.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, ",\"undecided_notes\":[{}]", rep.undecided.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")).unwrap();
    let mut vs = vec![];
    for v in &rep.viols {
        let vals = v
            .model
            .text
            .iter()
            .map(|(n, t)| format!("{}:{}", jstr(n), jstr(t)))
            .collect::<Vec<_>>()
            .join(",");
        vs.push(format!(
            "{{\"labels\":[{}],\"robust\":{},\"note\":{},\"model\":{{{}}}}}",
            v.labels.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(","),
            v.robust,
            jstr(&v.note),
            vals
        ));
    }
    write!(j, ",\"violations\":[{}]}}", vs.join(",")).unwrap();
    let vm: Vec<_> = rep.viols.into_iter().map(|v| (v.model, vec![], v.robust)).collect();
    write_models(&models2, prop, cfg, &vm);
    write_models(models, prop, cfg, &rep.paths);
    std::fs::write(out, j).unwrap();
}

/// native replay of a file of models; one JSON line per model
fn replay(path: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut prop = String::new();
    let mut cfg = String::new();
    let mut vals = HashMap::new();
    let mut obs: Vec<(String, f64)> = vec![];
    let mut rob = false;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("path ") {
            let mut it = r.splitn(3, ' ');
            prop = it.next().unwrap().into();
            rob = it.next() == Some("1");
            cfg = it.next().unwrap_or("").into();
            vals.clear();
            obs.clear();
        } else if let Some(r) = l.strip_prefix("v ") {
            let (n, b) = r.rsplit_once(' ').unwrap();
            vals.insert(n.to_string(), f64::from_bits(u64::from_str_radix(b, 16).unwrap()));
        } else if let Some(r) = l.strip_prefix("o ") {
            let (b, n) = r.split_once(' ').unwrap();
            obs.push((n.to_string(), f64::from_bits(u64::from_str_radix(b, 16).unwrap())));
        } else if l == "end" {
            let c = Cfg(cfg.clone());
            let (fails, got, oos) = run_native(vals.clone(), &|| props::body(&prop, &c));
            let mut mism = vec![];
            let mut compared = 0;
            let got: Vec<_> = got.into_iter().collect();
            if got.len() != obs.len() {
                mism.push(format!("{} observations, symbolic run had {}", got.len(), obs.len()));
            } else {
                for (g, e) in got.iter().zip(obs.iter()) {
                    if e.1.to_bits() == symrt::rt::TAG {
                        continue;
                    }
                    compared += 1;
                    let ok = g.1 == e.1
                        || g.1.is_nan() && e.1.is_nan()
                        || (g.1 - e.1).abs() <= 1e-6 * (1.0 + g.1.abs().max(e.1.abs()));
                    if g.0 != e.0 || !ok {
                        mism.push(format!("{}: native {:?} symbolic {:?}", g.0, g.1, e.1));
                    }
                }
            }
            println!(
                "{{\"prop\":{},\"cfg\":{},\"robust\":{},\"fails\":[{}],\"compared\":{},\"mismatch\":[{}],\"out_of_scope\":{}}}",
                jstr(&prop),
                jstr(&cfg),
                rob,
                fails.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
                compared,
                mism.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
                match oos {
                    Some(x) => jstr(&x),
                    None => "null".into(),
                }
            );
        }
    }
}
