//! Line protocol driver for mutagenyx_lib: one JSON request per line on stdin, one JSON reply per
//! line on stdout.  Only the library's public API is used, in the order in which the generator
//! uses it.  A panic is reported as data; hangs and aborts are handled by the caller, which runs
//! this program as a child process with a time limit per request.

use mutagenyx_lib::language_interface::*;
use mutagenyx_lib::mutation::MutationType;
use mutagenyx_lib::permissions::*;
use mutagenyx_lib::preferences::Preferences;
use mutagenyx_lib::pretty_printer::PrettyPrinter;
use mutagenyx_lib::recognizer::FileType;
use mutagenyx_lib::{Language, SuperAST};
use rand::SeedableRng;
use rand_pcg::Pcg64;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn permissions(names: &[String]) -> Permissions {
    // The same permissions that the generator derives from the function names.
    let mut p = Permissions::new();
    if names.is_empty() {
        p.add_permission(PermissionAction::Mutate(PermissionScope::Any(
            Permission::Allow,
        )));
    } else {
        for n in names {
            p.add_permission(PermissionAction::Mutate(PermissionScope::Name(
                PermissionObject::Value(n.clone(), Permission::Allow),
            )));
            p.add_permission(PermissionAction::Mutate(PermissionScope::Children(
                PermissionObject::Value(n.clone(), Permission::Allow),
            )));
        }
    }
    p.add_permission(PermissionAction::Visit(PermissionScope::Any(
        Permission::Allow,
    )));
    p
}

fn language(req: &Value) -> Language {
    Language::from_str(req["lang"].as_str().unwrap()).unwrap()
}

fn load(req: &Value, lang: &Language) -> Result<(Box<dyn MutableLanguage>, SuperAST), String> {
    let mut lo =
        LanguageInterface::get_language_object_for_language(lang).map_err(|e| e.to_string())?;
    let ast = if let Some(text) = req["text"].as_str() {
        // the loader reads files only
        let f = std::env::temp_dir().join(format!("mgx_harness_{}.json", std::process::id()));
        std::fs::write(&f, text).map_err(|e| e.to_string())?;
        let r = lo.load_ast_from_file(f.to_str().unwrap(), &FileType::AST, &Preferences::new());
        let _ = std::fs::remove_file(&f);
        r.map_err(|e| e.to_string())?
    } else if let Some(f) = req["file"].as_str() {
        lo.load_ast_from_file(f, &FileType::AST, &Preferences::new())
            .map_err(|e| e.to_string())?
    } else {
        match lang {
            Language::Solidity => SuperAST::Solidity(req["ast"].clone()),
            Language::Vyper => SuperAST::Vyper(req["ast"].clone()),
        }
    };
    Ok((lo, ast))
}

fn print(lo: &mut Box<dyn MutableLanguage>, ast: &SuperAST) -> Result<String, String> {
    let mut buf: Vec<u8> = Vec::new();
    let mut pp = PrettyPrinter::new(4, 150);
    lo.pretty_print_ast_to_stream(ast, &mut buf, &mut pp)
        .map_err(|e| e.to_string())?;
    Ok(String::from_utf8_lossy(&buf).into_owned())
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

/// Count the sites of the given algorithms; then, for every algorithm, every index and a number of
/// seeds, produce the mutant and print it.  Returns the distinct texts per index.
fn sweep(req: &Value) -> Result<Value, String> {
    let lang = language(req);
    let (mut lo, ast) = load(req, &lang)?;
    let perms = permissions(&strings(&req["functions"]));
    let algs: Vec<MutationType> = strings(&req["algs"])
        .iter()
        .filter_map(|s| MutationType::from_str(s).ok())
        .collect();
    let seeds = req["seeds"].as_u64().unwrap_or(8);
    let base = req["seed"].as_u64().unwrap_or(1);
    let cap = req["cap"].as_u64().unwrap_or(64) as usize;
    let original = print(&mut lo, &ast)?;
    lo.select_mutators_for_mutation_types(&algs)
        .map_err(|e| e.to_string())?;
    let mut rng = Pcg64::seed_from_u64(base);
    let counts = lo
        .count_mutable_nodes(&ast, &mut rng, &perms)
        .map_err(|e| e.to_string())?;
    let paths = lo
        .calculate_node_paths(&ast, &perms)
        .map_err(|e| e.to_string())?;
    let mut out_algs = serde_json::Map::new();
    let mut ctab: BTreeMap<String, usize> = BTreeMap::new();
    for (k, v) in &counts {
        ctab.insert(k.to_string(), *v);
    }
    let only_count = req["count_only"].as_bool().unwrap_or(false);
    for a in &algs {
        if only_count {
            break;
        }
        let n = match counts.get(a) {
            Some(n) => *n,
            None => continue,
        };
        if out_algs.contains_key(&a.to_string()) {
            continue;
        }
        let mut per_index: Vec<Value> = Vec::new();
        for index in 0..n {
            let mut texts: Vec<String> = Vec::new();
            let mut problems: Vec<Value> = Vec::new();
            for s in 0..seeds {
                let seed = base.wrapping_mul(1_000_003) + (index as u64) * 131 + s;
                let mut rng = Pcg64::seed_from_u64(seed);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let res = lo
                        .mutate_ast(&ast, a, index, &mut rng, &perms, &paths)
                        .map_err(|e| e.to_string())?;
                    let m = res.ast.ok_or("no ast".to_string())?;
                    print(&mut lo, &m)
                }));
                match r {
                    Ok(Ok(t)) => {
                        if !texts.contains(&t) && texts.len() < cap {
                            texts.push(t)
                        }
                    }
                    Ok(Err(e)) => {
                        if problems.len() < 2 {
                            problems.push(json!({"kind":"error","what":e,"seed":seed}))
                        }
                    }
                    Err(p) => {
                        if problems.len() < 2 {
                            problems.push(
                                json!({"kind":"panic","what":panic_text(p.as_ref()),"seed":seed}),
                            )
                        }
                    }
                }
            }
            per_index.push(json!({"texts":texts,"problems":problems}));
        }
        out_algs.insert(a.to_string(), Value::Array(per_index));
    }
    Ok(json!({"original":original,"counts":ctab,"algs":out_algs}))
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn layout(req: &Value) -> Result<Value, String> {
    let mut pp = PrettyPrinter::new(
        req["tab"].as_u64().unwrap() as usize,
        req["page"].as_u64().unwrap() as usize,
    );
    let mut buf: Vec<u8> = Vec::new();
    for op in req["ops"].as_array().unwrap() {
        let s = op["s"].as_str().unwrap_or("");
        let n = op["n"].as_u64().unwrap_or(1) as usize;
        match op["op"].as_str().unwrap() {
            "token" => pp.write_token(&mut buf, s),
            "tokens" => pp.write_tokens(&mut buf, s, n),
            "string" => pp.write_string(&mut buf, s),
            "triple" => pp.write_triple_string(&mut buf, s),
            "space" => pp.write_space(&mut buf),
            "spaces" => pp.write_spaces(&mut buf, n),
            "newline" => pp.write_newline(&mut buf),
            "indent" => pp.write_indent(&mut buf),
            "flow" => pp.write_flowable_text(&mut buf, s, op["next"].as_str().unwrap_or("")),
            "inc" => {
                pp.increase_indent();
                Ok(())
            }
            "dec" => {
                pp.decrease_indent();
                Ok(())
            }
            "incby" => {
                pp.increase_indent_by(n);
                Ok(())
            }
            "decby" => {
                pp.decrease_indent_by(n);
                Ok(())
            }
            o => return Err(format!("unknown op {o}")),
        }
        .map_err(|e| e.to_string())?;
    }
    Ok(json!({"text":String::from_utf8_lossy(&buf)}))
}

fn handle(req: &Value) -> Result<Value, String> {
    match req["op"].as_str().unwrap_or("") {
        "sweep" => sweep(req),
        "print" => {
            let lang = language(req);
            let (mut lo, ast) = load(req, &lang)?;
            Ok(json!({"text":print(&mut lo,&ast)?}))
        }
        "layout" => layout(req),
        o => Err(format!("unknown op {o}")),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let req: Value = serde_json::from_str(&line).unwrap();
        let rep = match catch_unwind(AssertUnwindSafe(|| handle(&req))) {
            Ok(Ok(v)) => json!({"ok":v}),
            Ok(Err(e)) => json!({"error":e}),
            Err(p) => json!({"panic":panic_text(p.as_ref())}),
        };
        let mut o = stdout.lock();
        writeln!(o, "{}", rep).unwrap();
        o.flush().unwrap();
    }
}
