mod book;
mod docs;
mod gen;
mod hist;
mod pkg;
mod props;
mod runner;
mod spell;
mod synth;
mod xml;

use runner::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn usage() -> ! {
    eprintln!("usage: vharness shard ID SEED SHARD CASES DIR OUT | check ID EXE... | replay FILE | gen ID SEED N");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        usage()
    }
    match a[1].as_str() {
        // helper processes of single properties
        "child" => std::process::exit(props::child(&a[2..])),
        "shard" => {
            quiet_panics();
            let p = props::get(&a[2]).unwrap_or_else(|| usage());
            let dir = PathBuf::from(&a[6]);
            std::fs::create_dir_all(dir.join("w")).unwrap();
            let ctx = Ctx { dir: dir.join("w") };
            limit_memory(p.memory());
            let o = p.shard(a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), &ctx, &dir.join("current.json"));
            std::fs::write(&a[7], serde_json::to_vec(&o).unwrap()).unwrap();
        }
        "findings" => {
            quiet_panics();
            let p = props::get(&a[2]).unwrap_or_else(|| usage());
            let root = scratch_root();
            let r = p.findings(&Ctx { dir: root.clone() });
            let _ = std::fs::remove_dir_all(&root);
            for (k, fails) in r {
                println!("{} {}", if fails { "FAILS" } else { "HOLDS" }, k);
            }
        }
        "gen" => {
            let p = props::get(&a[2]).unwrap_or_else(|| usage());
            for s in p.gen(a[3].parse().unwrap(), a[4].parse().unwrap()) {
                println!("{}", s);
            }
        }
        "replay" => {
            quiet_panics();
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("json");
            let id = v["property"].as_str().unwrap_or("").to_string();
            let p = props::get(&id).unwrap_or_else(|| usage());
            let root = scratch_root();
            limit_memory(p.memory());
            let r = p.replay(&v["case"], &Ctx { dir: root.clone() });
            let _ = std::fs::remove_dir_all(&root);
            match r {
                Err(e) => {
                    eprintln!("{}", e);
                    std::process::exit(2)
                }
                Ok(Ok(_)) => println!("holds"),
                Ok(Err(m)) => {
                    println!("fails: {}", m);
                    std::process::exit(1)
                }
            }
        }
        "check" => std::process::exit(check(&a[2], &a[3], &a[4])),
        _ => usage(),
    }
}

/// check ID DEBUG_EXE RELEASE_EXE (cwd /verif)
fn check(id: &str, dbg: &str, rel: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let p = props::get(id).unwrap_or_else(|| usage());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let shards: u64 = 8;
    let mut cases = p.quick();
    if thorough {
        cases *= p.thorough_factor();
    }
    if let Some(n) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
        cases = n;
    }
    let limit = std::time::Duration::from_secs(if thorough { 4 * 3600 } else { 800 });
    let root = scratch_root();
    let mut kids = vec![];
    for s in 0..shards {
        let dir = root.join(format!("s{}", s));
        std::fs::create_dir_all(&dir).unwrap();
        // two of eight shards run the build without debug assertions
        let exe = if s % 4 == 3 { rel } else { dbg };
        let out = root.join(format!("o{}.json", s));
        let k = Command::new(exe)
            .args(["shard", id, &seed.to_string(), &s.to_string(), &cases.to_string()])
            .arg(&dir)
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        kids.push((s, dir, out, exe.to_string(), k));
    }
    let mut total = ShardOut::default();
    let mut nontrivial = std::collections::BTreeSet::new();
    let mut failures: Vec<(serde_json::Value, String, String)> = vec![];
    let mut error = None;
    // wait for all, ending those whose current case takes too long
    let patience = std::time::Duration::from_secs(p.patience());
    let mut ended = vec![];
    while !kids.is_empty() {
        let mut left = vec![];
        for (s, dir, out, exe, mut k) in kids {
            if let Some(st) = k.try_wait().expect("wait") {
                ended.push((s, dir, out, exe, Some(st), false));
                continue;
            }
            let age = std::fs::metadata(dir.join("current.json")).and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok());
            let stuck = age.map_or(false, |a| a > patience);
            if stuck || t0.elapsed() > limit {
                let _ = k.kill();
                let _ = k.wait();
                ended.push((s, dir, out, exe, None, stuck));
            } else {
                left.push((s, dir, out, exe, k));
            }
        }
        kids = left;
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    ended.sort_by_key(|e| e.0);
    let mut hung = false;
    for (s, dir, out, exe, st, stuck) in ended {
        let again = |case: &serde_json::Value| {
            let f = root.join("again.json");
            std::fs::write(&f, serde_json::json!({"property": id, "case": case}).to_string()).unwrap();
            let mut k = Command::new(&exe).arg("replay").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
            let t = std::time::Instant::now();
            loop {
                match k.try_wait().expect("wait") {
                    Some(st) => break Some(st),
                    None if t.elapsed() > patience => {
                        let _ = k.kill();
                        let _ = k.wait();
                        for d in ["/dev/shm", "/tmp"] {
                            let _ = std::fs::remove_dir_all(Path::new(d).join(format!("vh-{}", k.id())));
                        }
                        break None;
                    }
                    None => std::thread::sleep(std::time::Duration::from_millis(20)),
                }
            }
        };
        let case: Option<serde_json::Value> = std::fs::read(dir.join("current.json")).ok().and_then(|b| serde_json::from_slice(&b).ok());
        if stuck {
            match case {
                // one that repeats is enough
                _ if hung => {}
                Some(case) if again(&case).is_none() => {
                    hung = true;
                    failures.push((case, format!("does not end within {} seconds", p.patience()), exe.clone()));
                }
                _ => error = Some(format!("shard {} was stuck and it does not repeat", s)),
            }
            continue;
        }
        match st {
            None => error = Some(format!("shard {} ran out of time", s)),
            Some(st) if st.success() => {
                let o: ShardOut = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                total.evaluations += o.evaluations;
                nontrivial.extend(o.nontrivial);
                for (l, n) in o.labels {
                    *total.labels.entry(l).or_insert(0) += n;
                }
                total.samples.extend(o.samples);
                if let Some((_, m)) = o.failure.as_ref().filter(|f| f.1.contains("HARNESS")) {
                    error = Some(format!("shard {}: {}", s, m));
                } else if let Some((c, m)) = o.failure {
                    failures.push((c, m, exe.clone()));
                }
                if let Some(a) = o.aborted {
                    error = Some(format!("shard {}: {}", s, a));
                }
            }
            Some(st) => {
                // the worker died: does its last case kill a fresh process again?
                use std::os::unix::process::ExitStatusExt;
                match (st.signal(), case) {
                    (Some(sig), Some(case)) if sig == libc::SIGABRT || sig == libc::SIGSEGV || sig == libc::SIGBUS || sig == libc::SIGILL => {
                        match again(&case) {
                            Some(a) if a.signal().is_some() && a.signal() != Some(libc::SIGKILL) => {
                                failures.push((case, format!("the process dies with signal {}", sig), exe.clone()))
                            }
                            _ => error = Some(format!("shard {} died with signal {} and it does not repeat", s, sig)),
                        }
                    }
                    (sig, _) => error = Some(format!("shard {} ended with {:?} (signal {:?})", s, st.code(), sig)),
                }
            }
        }
    }
    // listed known findings
    let mut known = 0;
    let listed = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    let fo = Command::new(dbg).args(["findings", id]).output().expect("findings");
    for l in String::from_utf8_lossy(&fo.stdout).lines() {
        if let Some(k) = l.strip_prefix("FAILS ") {
            let key = k.split(':').next().unwrap().trim();
            if listed.lines().any(|x| x.starts_with(&format!("finding: property={} {}", id, key))) {
                println!("KNOWN-FINDING: property={} {}", id, k);
                known += 1;
            } else {
                failures.push((serde_json::json!({ "probe": key }), format!("probe fails: {}", k), dbg.to_string()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    let mut samples = total.samples;
    samples.truncate(6);
    let mut violations = 0;
    let dir = Path::new("replays");
    let _ = std::fs::create_dir_all(dir);
    // one replay per distinct message head, smallest case first
    failures.sort_by_key(|f| f.0.to_string().len());
    let mut heads = std::collections::BTreeSet::new();
    for (case, msg, exe) in &failures {
        let head: String = msg.chars().filter(|c| c.is_ascii_alphabetic()).take(24).collect();
        if !heads.insert(head) || heads.len() > 4 {
            continue;
        }
        violations += 1;
        let f = dir.join(format!("{}-{}-{}.json", id, seed, violations));
        let js = serde_json::json!({"property": id, "seed": seed, "message": msg, "build": if exe == rel {"release"} else {"debug"}, "case": case});
        std::fs::write(&f, serde_json::to_string_pretty(&js).unwrap()).unwrap();
        println!("VIOLATION property={} replay=/verif/{}", id, f.display());
        let mut m = msg.clone();
        if m.len() > 1500 {
            let mut c = 1500;
            while !m.is_char_boundary(c) {
                c -= 1
            }
            m.truncate(c);
        }
        println!("  {}", m.replace('\n', "\n  "));
    }
    let labels: serde_json::Map<String, serde_json::Value> = total.labels.iter().map(|(k, v)| (k.clone(), serde_json::json!(v))).collect();
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": p.level(),
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": nontrivial.len(),
            "rule": p.rule(),
            "samples": samples,
            "classes": labels,
            "shards": shards,
            "known_findings_still_failing": known,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(format!("evidence/{}.json", id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        id,
        total.evaluations,
        nontrivial.len(),
        violations,
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error: {}", e);
        return 2;
    }
    0
}
