//! tally PROP [options] -- CASES_QUICK CASES_THOROUGH RULE KEY=MIN,… COMMAND…
//! Runs COMMAND with `from to stride` appended, several times at once, and judges what it prints.
use oracle::report::{Opts, Report};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            },
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let o = Opts::parse();
    let mut rest = o.rest.clone();
    rest.retain(|m| m != "--");
    let (quick, thorough): (usize, usize) = (rest[0].parse().unwrap(), rest[1].parse().unwrap());
    let rule = rest[2].clone();
    let mins: Vec<(String, u64)> = rest[3].split(',').filter(|m| !m.is_empty()).map(|m| m.split_once('=').unwrap()).map(|(k, v)| (k.to_string(), v.parse().unwrap())).collect();
    let cmd = rest[4..].to_vec();
    let n = o.n(quick, thorough);
    let mut rep = Report::new(o, &rule);
    for (k, v) in &mins {
        rep.require(k, *v);
    }
    let par = 6;
    let hs: Vec<_> = (0..par)
        .map(|t| {
            let cmd = cmd.clone();
            std::thread::spawn(move || {
                let mut c = Command::new(&cmd[0]).args(&cmd[1..]).args([t.to_string(), n.to_string(), par.to_string()]).stdout(Stdio::piped()).spawn().unwrap();
                let lines: Vec<String> = BufReader::new(c.stdout.take().unwrap()).lines().map(|m| m.unwrap()).inspect(|_| oracle::report::alive()).collect();
                let ok = c.wait().unwrap();
                (lines, ok.success())
            })
        })
        .collect();
    for h in hs {
        let (lines, ok) = h.join().unwrap();
        if !ok || lines.last().map(|m| m.as_str()) != Some("E") {
            rep.inconclusive.push(format!("a worker ended early, after {:?}", lines.last()));
        }
        for l in lines {
            let (k, r) = l.split_once(' ').unwrap_or((&l, ""));
            match k {
                "C" => {
                    let (nt, shape) = r.split_once(' ').unwrap_or((r, ""));
                    rep.case(shape, nt == "1");
                    rep.sample(shape.chars().take(300).collect::<String>());
                }
                "N" => {
                    if let Some((k, n)) = r.split_once(' ') {
                        rep.count(k, n.parse().unwrap_or(0));
                    }
                }
                "V" => {
                    let (sig, text) = r.split_once(' ').unwrap_or((r, ""));
                    if !rep.too_many() {
                        rep.violation(sig, plain(text));
                    }
                }
                "I" => rep.inconclusive.push(plain(r)),
                _ => {}
            }
        }
    }
    std::process::exit(rep.finish());
}
