// Line server around the Rust library of latkerlo-jvotci (see ../../js/server.js for the protocol).
use latkerlo_jvotci::{exceptions::Jvonunfli as J, *};
use std::{
    io::{self, BufRead, Write},
    panic,
};

fn name(e: &J) -> &'static str {
    match e {
        J::DecompositionError(_) => "DecompositionError",
        J::InvalidClusterError(_) => "InvalidClusterError",
        J::NoLujvoFoundError(_) => "NoLujvoFoundError",
        J::NonLojbanCharacterError(_) => "NonLojbanCharacterError",
        J::NotBrivlaError(_) => "NotBrivlaError",
        J::NotZihevlaError(_) => "NotZihevlaError",
        _ => "TypeError",
    }
}
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 || c as u32 == 127 || c == '\u{2028}' || c == '\u{2029}' || c == '\u{85}' => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn ql(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(",")) }
fn err(e: &J) -> String { format!("[\"E\",\"{}\",{}]", name(e), q(&e.to_string())) }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            o.push(match it.next().unwrap() { 'n' => '\n', 't' => '\t', 'r' => '\r', c => c });
        } else {
            o.push(c);
        }
    }
    o
}
fn btype(s: &str) -> &str {
    match s {
        "Gismu" => "GISMU",
        "Zihevla" => "ZIhEVLA",
        "Lujvo" => "LUJVO",
        "ExtendedLujvo" => "EXTENDED_LUJVO",
        "Cmevla" => "CMEVLA",
        x => x,
    }
}
fn run(op: &str, flags: &str, arg: &str) -> String {
    // options by position or only those that differ from the default, vandalised results: nothing of the kind here
    let up = op[..1].to_uppercase();
    let op = if op.len() == 2 || "avmi".contains(op) { up.as_str() } else { op };
    // settings strings themselves
    match op {
        "P" => return match arg.parse::<Settings>() { Ok(s) => format!("[\"O\",{},{}]", q(&s.to_string()), q(&format!("{s:?}"))), Err(_) => "[\"E\",\"SettingsError\",\"\"]".into() },
        "F" => {
            let mut s: Settings = flags.parse().unwrap();
            return match s.apply_flags(arg) { Some(()) => format!("[\"O\",{},{}]", q(&s.to_string()), q(&format!("{s:?}"))), None => "[\"E\",\"None\",\"\"]".into() };
        }
        "Z" => return format!("[\"O\",{}]", ql(&SETTINGS_ITERATOR.iter().map(|s| s.to_string()).collect::<Vec<_>>())),
        _ => (),
    }
    let s: Settings = if flags == "d" { Settings::default() } else { flags.parse().unwrap() };
    let joined = arg.replace('\u{1f}', " ");
    match op {
        "A" => match analyze_brivla(arg, &s) {
            Ok((t, l)) => format!("[\"O\",{},{}]", q(btype(&t.to_string())), ql(&l)),
            Err(e) => err(&e),
        },
        "V" => match get_veljvo(arg, &s) { Ok(l) => format!("[\"O\",{}]", ql(&l)), Err(e) => err(&e) },
        "S" => match score_lujvo(arg, &s) { Ok(l) => format!("[\"O\",{l}]"), Err(e) => err(&e) },
        "B" => format!("[\"O\",{}]", is_brivla(arg, &s)),
        "L" | "M" => match get_lujvo_with_analytics(&joined, &s) {
            Ok((w, sc, ix)) => format!("[\"O\",{},{},[{}]]", q(&w), sc, ix.iter().map(|p| format!("[{},{}]", p[0], p[1])).collect::<Vec<_>>().join(",")),
            Err(e) => err(&e),
        },
        "G" | "H" => match get_lujvo(&joined, &s) { Ok(w) => format!("[\"O\",{}]", q(&w)), Err(e) => err(&e) },
        "I" => {
            let l: Vec<&str> = if arg.is_empty() { vec![] } else { arg.split('\u{1f}').collect() };
            format!("[\"O\",[{}]]", tools::get_rafsi_indices(&l).iter().map(|p| format!("[{},{}]", p[0], p[1])).collect::<Vec<_>>().join(","))
        }
        "T" => {
            let mut v: Vec<String> = RAFSI.iter().map(|(k, v)| format!("[{},[{}]]", q(k), v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))).collect();
            v.sort();
            format!("[\"O\",[{}]]", v.join(","))
        }
        _ => panic!("op"),
    }
}
fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin();
    let mut inp = stdin.lock();
    let mut out = io::BufWriter::new(io::stdout().lock());
    let mut line = String::new();
    let mut held: Vec<std::thread::JoinHandle<String>> = vec![];
    let gate = std::sync::Arc::new(std::sync::RwLock::new(()));
    let mut shut = Some(Box::leak(Box::new(gate.clone())).write().unwrap());
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap() == 0 { break; }
        let l = line.trim_end_matches('\n');
        let mut it = l.splitn(3, '\t');
        let (a, b, c) = (it.next().unwrap().to_string(), it.next().unwrap().to_string(), unesc(it.next().unwrap()));
        if a == "&" {
            // every held request at once
            shut.take();
            let v: Vec<String> = held.drain(..).map(|h| h.join().unwrap_or_else(|_| "[\"E\",\"PANIC\",\"\"]".into())).collect();
            writeln!(out, "[{}]", v.join(",")).unwrap();
            out.flush().unwrap();
            continue;
        }
        if let Some(o) = a.strip_prefix('&') {
            let (o, g) = (o.to_string(), gate.clone());
            held.push(std::thread::spawn(move || {
                drop(g.read());
                run(&o, &b, &c)
            }));
            continue;
        }
        let r = panic::catch_unwind(|| run(&a, &b, &c)).unwrap_or_else(|_| "[\"E\",\"PANIC\",\"\"]".into());
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}
