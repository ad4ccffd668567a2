mod case; mod check; mod gen; mod jpeg; mod presets; mod rng; mod api;
use case::Case;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        // search PROPERTY SEED SECONDS MAXCASES OUT
        Some("search") => {
            let (prop, seed, secs, max, out) = (a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].parse::<u64>().unwrap(), &a[6]);
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let mut n = 0u64; let mut distinct = std::collections::HashSet::new(); let mut samples = vec![];
            let cur = format!("{}.current", out);
            // fixed API checks first
            for (i, t) in api::tests(prop).into_iter().enumerate() {
                std::fs::write(&cur, format!("api {} {}", prop, i)).ok();
                n += 1;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t.1)())).unwrap_or_else(|p| Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())));
                if let Err(m) = r { report(out, prop, &format!("api {}", t.0), &m, n, distinct.len(), &samples); std::fs::remove_file(&cur).ok(); std::process::exit(1); }
            }
            let mut g = gen::Gen::new(prop, seed);
            while n < max && Instant::now() < end {
                let cs = g.next();
                n += 1;
                let text = cs.iter().map(|c| c.to_text()).collect::<Vec<_>>().join("\n");
                if n % 16 == 1 || text.len() > 2000 || cs[0].w * cs[0].h > 100000 { std::fs::write(&cur, &text).ok(); }
                distinct.insert(text.clone());
                if samples.len() < 3 { samples.push(text.clone()); }
                if let Some(m) = run_group(prop, &cs) { report(out, prop, &text, &m, n, distinct.len(), &samples); std::fs::remove_file(&cur).ok(); std::process::exit(1); }
            }
            std::fs::remove_file(&cur).ok();
            println!("OK evaluations={} distinct={}", n, distinct.len());
            for s in samples { println!("SAMPLE {}", s.replace('\n', " | ")); }
        }
        // replay FILE: re-run a reported failure
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut prop = String::new(); let mut cs = vec![]; let mut api_name = None;
            for l in t.lines() {
                if let Some(p) = l.strip_prefix("property=") { prop = p.to_string(); }
                if let Some(p) = l.strip_prefix("case api ") { api_name = Some(p.to_string()); }
                else if let Some(p) = l.strip_prefix("case ") { cs.push(Case::from_text(p)); }
            }
            if let Some(n) = api_name {
                for t in api::tests(&prop) { if t.0 == n { match (t.1)() { Ok(()) => println!("holds"), Err(m) => { println!("FAILS {}", m); std::process::exit(1); } } } }
                return;
            }
            match run_group(&prop, &cs) { Some(m) => { println!("FAILS {}", m); std::process::exit(1); } None => println!("holds") }
        }
        // digest SEED CASES SECONDS OUT: hash of the output of many cases, one per line
        Some("digest") => {
            let (seed, max, secs, out) = (a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), &a[5]);
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let mut g = gen::Gen::new("C14", seed);
            let mut o = String::new();
            for _ in 0..max {
                if Instant::now() > end { break; }
                for c in g.next() { o.push_str(&digest(&c)); o.push('\n'); }
            }
            std::fs::write(out, o).unwrap();
        }
        Some("digest1") => { let c = Case::from_text(&std::fs::read_to_string(&a[2]).unwrap()); println!("{}", digest(&c)); }
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
}
fn digest(c: &Case) -> String {
    let r = case::run(c);
    let mut h = 0xcbf29ce484222325u64;
    for &b in &r.bytes { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    let e = match &r.res { case::Res::Ok => "ok".to_string(), case::Res::Err(e) if e.contains("sink failed") || e.contains("whole buffer") || e.contains("WriteZero") || e.contains("flush failed") => "err sink".to_string(), case::Res::Err(e) => format!("err {}", e), case::Res::Panic(_) => "panic".into() };
    format!("{:016x} {} {} ; {}", h, r.bytes.len(), e, c.to_text())
}
fn report(out: &str, prop: &str, text: &str, msg: &str, n: u64, d: usize, samples: &[String]) {
    let mut s = format!("property={}\nwhat={}\n", prop, msg.replace('\n', " "));
    for l in text.lines() { s.push_str("case "); s.push_str(l); s.push('\n'); }
    std::fs::write(out, s).unwrap();
    println!("FAIL {}", msg.replace('\n', " "));
    println!("OK evaluations={} distinct={}", n, d);
    for s in samples { println!("SAMPLE {}", s.replace('\n', " | ")); }
}
/// A group is one case, or several encodings of one image that have to agree (C10), or an input with and without surplus data (C12)
fn run_group(prop: &str, cs: &[Case]) -> Option<String> {
    let mut first: Option<jpeg::Jpeg> = None;
    for c in cs {
        match check::verify(c) {
            Err(f) => {
                if f.props.contains(&prop) { return Some(format!("{} [{}]", f.msg, c.to_text())); }
                // the same image without restarts is right: the restarts break it
                if prop == "C09" && c.restart > 0 && check::verify(&Case { restart: 0, ..c.clone() }).is_ok() { return Some(format!("{} (right without restarts) [{}]", f.msg, c.to_text())); }
                return None;
            }
            Ok(Some(j)) => {
                if prop == "C10" {
                    if let Some(a) = &first {
                        for (i, (x, y)) in a.comps.iter().zip(&j.comps).enumerate() {
                            for by in 0..x.sh { for bx in 0..x.sw {
                                if x.coefs[by * x.bw + bx] != y.coefs[by * y.bw + bx] { return Some(format!("component {} block {},{} decodes to other coefficients than in the first encoding [{}] [{}]", i, bx, by, cs[0].to_text(), c.to_text())); }
                            } }
                        }
                    } else { first = Some(j); }
                }
            }
            Ok(None) => {}
        }
    }
    if prop == "C12" && cs.len() == 2 && cs[1].extra > 0 {
        if case::run(&cs[0]).bytes != case::run(&cs[1]).bytes { return Some(format!("bytes beyond the image change the output [{}]", cs[1].to_text())); }
    }
    None
}
