//! A stand-in for the compilers.  It lies beside a policy file (its own name + .json), a log (its
//! own name + .log) and copies of the files it was given (its own name + .seen.N).  It answers to
//! solc's, vyper's and docker's way of calling, as the policy says.  Every call is logged: the
//! arguments, the working directory, what was asked for, which content, and the verdict.

use serde_json::{json, Value};
use std::fs;
use std::io::{Read, Seek, Write};
use std::path::Path;

fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 32)
}

fn option(kind: &str, a: &str) -> Option<&'static str> {
    match (kind, a) {
        ("solc", "--base-path") => Some("base"),
        ("solc", "--include-path") => Some("include"),
        ("solc", "--allow-paths") => Some("allow"),
        ("solc", "--stop-after") => Some("stop"),
        ("solc", "-o") => Some("out"),
        ("vyper", "-p") => Some("root"),
        ("vyper", "-f") => Some("format"),
        ("vyper", "-o") => Some("out"),
        _ => None,
    }
}

fn push(e: &mut Value, key: &str, v: &str) {
    e[key].as_array_mut().unwrap().push(json!(v));
}

fn list(e: &Value, key: &str) -> Vec<String> {
    e[key]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

fn main() {
    let exe = std::env::current_exe().unwrap();
    let me = exe.to_str().unwrap().to_string();
    let pol: Value = serde_json::from_str(&fs::read_to_string(me.clone() + ".json").unwrap()).unwrap();
    let mut argv: Vec<String> = std::env::args_os()
        .skip(1)
        .map(|a| a.to_string_lossy().into_owned())
        .collect();
    let kind = pol["kind"].as_str().unwrap().to_string();
    let mut e = json!({"exe": pol["name"], "kind": kind, "cwd": std::env::current_dir().map(|d| d.to_string_lossy().into_owned()).unwrap_or_default()});
    if kind == "docker" {
        let n = argv.len().min(4);
        e["docker"] = json!(argv[..n].to_vec());
        argv = argv[n..].to_vec();
    }
    e["argv"] = json!(argv);
    let style = if kind == "solc" { "solc" } else { "vyper" };
    for k in ["base", "include", "allow", "stop", "out", "root", "format", "flags", "remap", "files"] {
        e[k] = json!([]);
    }
    let mut i = 0;
    while i < argv.len() {
        if let Some(k) = option(style, &argv[i]) {
            if i + 1 < argv.len() {
                push(&mut e, k, &argv[i + 1]);
                i += 2;
                continue;
            }
        }
        let k = if argv[i].starts_with('-') {
            "flags"
        } else if style == "solc" && argv[i].contains('=') && !Path::new(&argv[i]).exists() {
            "remap"
        } else {
            "files"
        };
        push(&mut e, k, &argv[i]);
        i += 1;
    }
    let mut log = fs::OpenOptions::new()
        .create(true)
        .read(true)
        .append(true)
        .open(me.clone() + ".log")
        .unwrap();
    log.lock().unwrap();
    let mut text = String::new();
    log.rewind().unwrap();
    log.read_to_string(&mut text).unwrap();
    let past: Vec<Value> = text.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let (out, ok) = answer(&kind, &pol, &mut e, &past, &me);
    e["ok"] = json!(ok);
    writeln!(log, "{e}").unwrap();
    let _ = std::io::stdout().write_all(out.as_bytes());
    if !ok {
        // compilers do not always write clean text
        let _ = std::io::stderr().write_all(b"Error: \xe2\x9c\x96 \xff\xfe the stub says no\n");
        std::process::exit(1);
    }
}

fn answer(kind: &str, pol: &Value, e: &mut Value, past: &[Value], me: &str) -> (String, bool) {
    if list(e, "flags").iter().any(|f| f == "--version") {
        e["task"] = json!("version");
        let v = pol["version"].as_str().unwrap_or("0.3.7+commit.6020b8b");
        return (format!("{v}\n"), !v.is_empty());
    }
    let name = list(e, "files").last().cloned().unwrap_or_default();
    let mut real = name.clone();
    if kind == "docker" {
        if let Some((d, c)) = list(e, "docker").get(2).and_then(|m| m.rsplit_once(':').map(|(a, b)| (a.to_string(), b.to_string()))) {
            let rest = name.strip_prefix(&c).unwrap_or(&name).trim_start_matches('/').to_string();
            let inside = Path::new(if d.is_empty() { "." } else { &d }).join(rest);
            // be lenient about names that are not those inside the container
            if inside.exists() {
                real = inside.to_string_lossy().into_owned();
            }
        }
    }
    let data = match fs::read(&real) {
        Ok(d) => d,
        Err(_) => {
            e["task"] = json!("nofile");
            return (String::new(), false);
        }
    };
    let h = fnv(&data);
    e["hash"] = json!(h.to_string());
    let want_ast = list(e, "flags").iter().any(|f| f == "--ast-compact-json") || list(e, "format").iter().any(|f| f == "ast");
    if want_ast {
        e["task"] = json!("ast");
        for pair in pol["asts"].as_array().unwrap_or(&vec![]) {
            let (src, ast) = (pair[0].as_str().unwrap(), pair[1].as_str().unwrap());
            if fs::read(src).map(|d| d == data).unwrap_or(false) {
                let text = fs::read_to_string(ast).unwrap();
                if pol["silent"] == json!(true) {
                    return (String::new(), true);
                }
                let out = list(e, "out");
                if kind == "solc" {
                    let base = Path::new(&name).file_name().unwrap().to_string_lossy().into_owned();
                    return match out.first() {
                        Some(d) if fs::write(Path::new(d).join(base + "_json.ast"), text).is_ok() => ("Compiler run successful.\n".to_string(), true),
                        _ => (String::new(), false),
                    };
                }
                return match out.first() {
                    Some(f) => (String::new(), fs::write(f, text).is_ok()),
                    None => (text, true),
                };
            }
        }
        return (String::new(), false);
    }
    // a verdict on a mutant
    e["task"] = json!("compile");
    let seen = format!("{me}.seen.{}", past.len());
    fs::write(&seen, &data).unwrap();
    e["seen"] = json!(seen);
    let full: Vec<&Value> = past
        .iter()
        .filter(|p| p["task"] == "compile" && p["retry"] != json!(true))
        .collect();
    let retry = match past.last() {
        Some(l) => {
            kind == "solc"
                && l["task"] == "compile"
                && l["ok"] == json!(false)
                && l["retry"] != json!(true)
                && l["hash"] == e["hash"]
                && list(e, "stop").len() == list(l, "stop").len() + 1
        }
        None => false,
    };
    e["retry"] = json!(retry);
    let c = &pol["compile"];
    let k = c["k"].as_u64().unwrap_or(0);
    let n = c["n"].as_u64().unwrap_or(1);
    let before = full.len() as u64 - if retry { 1 } else { 0 };
    let v = match c["mode"].as_str().unwrap_or("accept") {
        "reject" => false,
        "first" => before >= k,
        "hash" => h % n == k,
        "alternate" => before % n == k,
        "distinct" => {
            let mut first: Vec<&Value> = Vec::new();
            for p in full.iter().map(|p| &p["hash"]).chain([&e["hash"]]) {
                if !first.contains(&p) {
                    first.push(p);
                }
            }
            !first.iter().take(k as usize).any(|x| **x == e["hash"])
        }
        "parse" => retry,
        _ => true,
    };
    (String::new(), v)
}
