mod cells;
mod inline;
mod print;
mod rewrite;
mod source;
mod template;

use std::collections::BTreeMap;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut crate_dirs: Vec<String> = vec![];
    let mut tpl = None;
    let mut out = None;
    let mut report = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--src" => {
                crate_dirs.push(args[i + 1].clone());
                i += 2;
            }
            "--template" => {
                tpl = Some(args[i + 1].clone());
                i += 2;
            }
            "--out" => {
                out = Some(args[i + 1].clone());
                i += 2;
            }
            "--report" => {
                report = Some(args[i + 1].clone());
                i += 2;
            }
            x => panic!("unknown argument {x}"),
        }
    }
    let res = run(&crate_dirs, &tpl.expect("--template"));
    match res {
        Ok((text, rep)) => {
            std::fs::write(out.expect("--out"), text).unwrap();
            std::fs::write(report.expect("--report"), rep).unwrap();
        }
        Err(e) => {
            eprintln!("EXTRACT-UNSUPPORTED: {e}");
            std::process::exit(3);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run(dirs: &[String], tpl: &str) -> Result<(String, String), String> {
    let mut src = source::Source::load(dirs)?;
    let text = std::fs::read_to_string(tpl).map_err(|e| format!("{tpl}: {e}"))?;
    let dir = std::path::Path::new(tpl).parent().unwrap_or(std::path::Path::new(".")).to_path_buf();
    template::contracts(&dir, &text, &mut src.contracts)?;
    let mut used: BTreeMap<String, String> = BTreeMap::new();
    let mut dropped: BTreeMap<String, usize> = BTreeMap::new();
    let out = template::expand(&dir, &text, &src, &mut used, &mut dropped)?;
    let mut rep = String::from("{\n \"functions\": [\n");
    let mut first = true;
    for v in used.values() {
        if !first {
            rep.push_str(",\n");
        }
        first = false;
        rep.push_str("  ");
        rep.push_str(v);
    }
    rep.push_str("\n ],\n \"not_under_contract\": [\n");
    let mut first = true;
    for (k, f) in &src.fns {
        if !used.contains_key(k) && !k.contains('@') && !used.keys().any(|u| u.split('@').next() == Some(k.as_str())) {
            if !first {
                rep.push_str(",\n");
            }
            first = false;
            rep.push_str(&format!(
                "  {}",
                json_str(&format!("{} ({}:{})", k, f.file, f.line))
            ));
        }
    }
    rep.push_str("\n ],\n \"rewrites\": {");
    let mut first = true;
    for (k, n) in &dropped {
        if !first {
            rep.push_str(", ");
        }
        first = false;
        rep.push_str(&format!("{}: {}", json_str(k), n));
    }
    rep.push_str("}\n}\n");
    Ok((out, rep))
}
