//! agree PROP [options] -- CASES_QUICK CASES_THOROUGH RULE KEY=MIN,… 'NAME<tab>COMMAND<tab>ARGUMENT…'…
//! Runs every command with `seed from to stride` appended and compares what the builds say about each section of
//! each case (`T case section text`); the first one is what the others are compared to.
use oracle::report::{Opts, Report};
use oracle::rng::hash_str;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

type Said = BTreeMap<(u64, String), u64>;

fn run(cmd: &[String], seed: u64, from: usize, to: usize, stride: usize, mut f: impl FnMut(&str)) -> Result<(), String> {
    let mut c = Command::new(&cmd[0])
        .args(&cmd[1..])
        .args([seed.to_string(), from.to_string(), to.to_string(), stride.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut last = String::new();
    for l in BufReader::new(c.stdout.take().unwrap()).split(b'\n') {
        let l = l.map_err(|e| e.to_string())?;
        last = String::from_utf8_lossy(&l).into_owned();
        oracle::report::alive();
        f(&last);
    }
    let st = c.wait().map_err(|e| e.to_string())?;
    if !st.success() || last != "E" {
        return Err(format!("ended early ({st}), after {:.200}", last));
    }
    Ok(())
}

fn parts(l: &str) -> Option<((u64, String), &str)> {
    let mut p = l.strip_prefix("T ")?.splitn(3, ' ');
    let i = p.next()?.parse().ok()?;
    let name = p.next()?.to_string();
    Some(((i, name), p.next().unwrap_or("")))
}

fn plain(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\\\", "\\")
}

fn main() {
    let o = Opts::parse();
    let mut rest = o.rest.clone();
    rest.retain(|m| m != "--");
    let n = o.n(rest[0].parse().unwrap(), rest[1].parse().unwrap());
    let seed = o.seed;
    let builds: Vec<(String, Vec<String>)> = rest[4..].iter().map(|m| m.split('\t').map(String::from).collect::<Vec<_>>()).map(|v| (v[0].clone(), v[1..].to_vec())).collect();
    let mut rep = Report::new(o, &rest[2]);
    for m in rest[3].split(',').filter(|m| !m.is_empty()) {
        let (k, v) = m.split_once('=').unwrap();
        rep.require(k, v.parse().unwrap());
    }
    let par = 4;
    let said: Vec<(Said, Vec<String>, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = builds
            .iter()
            .map(|(_, cmd)| {
                s.spawn(move || {
                    let hs: Vec<_> = (0..par)
                        .map(|t| {
                            s.spawn(move || {
                                let (mut m, mut said, mut ended) = (Said::new(), vec![], vec![]);
                                let r = run(cmd, seed, t, n, par, |l| match parts(l) {
                                    Some((k, text)) => drop(m.insert(k, hash_str(text))),
                                    None if l.starts_with("V ") => said.push(plain(&l[2..])),
                                    None if l.starts_with("I ") => ended.push(plain(&l[2..])),
                                    _ => {}
                                });
                                if let Err(e) = r {
                                    said.push(e);
                                }
                                (m, said, ended)
                            })
                        })
                        .collect();
                    let mut all = (Said::new(), vec![], vec![]);
                    for h in hs {
                        let (m, s, e) = h.join().unwrap();
                        all.0.extend(m);
                        all.1.extend(s);
                        all.2.extend(e);
                    }
                    all
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for ((name, _), (_, v, i)) in builds.iter().zip(&said) {
        for v in v {
            rep.violation(&format!("build:{name}"), format!("the build {name}: {v}"));
        }
        for i in i {
            rep.inconclusive.push(format!("the build {name}: {i}"));
        }
    }
    let main = &said[0].0;
    for ((i, section), h) in main {
        rep.case(&format!("{section} {h}"), true);
        for ((name, cmd), (other, _, _)) in builds.iter().zip(&said).skip(1) {
            let Some(x) = other.get(&(*i, section.clone())) else { continue };
            rep.count(&format!("compared_{name}"), 1);
            rep.count(&format!("compared_{section}"), 1);
            if x == h || rep.too_many() {
                continue;
            }
            let text = |cmd: &[String]| {
                let mut t = String::new();
                let _ = run(cmd, seed, *i as usize, *i as usize + 1, 1, |l| {
                    if let Some((k, text)) = parts(l) {
                        if k.1 == *section {
                            t = plain(text);
                        }
                    }
                });
                t
            };
            let (a, b) = (text(&builds[0].1), text(cmd));
            let at = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(0);
            let show = |t: &str| t.lines().skip(at.saturating_sub(2)).take(12).collect::<Vec<_>>().join("\n");
            rep.violation(
                &format!("case:{i}:{section}:{name}"),
                format!("case {i}, {section}: the builds {} and {name} differ in line {at}\n--- {}\n{}\n--- {name}\n{}", builds[0].0, builds[0].0, show(&a), show(&b)),
            );
        }
    }
    let mut shown = vec![];
    let _ = run(&builds[0].1, seed, 0, 1, 1, |l| {
        if let Some((k, t)) = parts(l) {
            shown.push(format!("{}: {}", k.1, plain(t).chars().take(150).collect::<String>()));
        }
    });
    shown.into_iter().for_each(|s| rep.sample(s));
    std::process::exit(rep.finish());
}
