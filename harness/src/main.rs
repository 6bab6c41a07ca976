#[macro_use]
mod engine;
mod gen;
mod p_onset;
mod p_chroma;
mod p_beat;
mod p_key;
mod p_period;
mod cfg;
mod p_comp;
mod p_meta;
mod p_acc;
mod p_pipe;
mod p_pre;
use engine::*;

fn props() -> Vec<Property> {
    let mut v = vec![];
    p_pre::props(&mut v);
    p_onset::props(&mut v);
    p_chroma::props(&mut v);
    p_key::props(&mut v);
    p_period::props(&mut v);
    p_beat::props(&mut v);
    p_pipe::props(&mut v);
    p_acc::props(&mut v);
    p_meta::props(&mut v);
    p_comp::props(&mut v);
    v
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let verif_dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut scale = 1.0;
    let mut only_part = None;
    let mut id = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                thorough = args[i] == "thorough";
            }
            "--scale" => {
                i += 1;
                scale = args[i].parse().unwrap();
            }
            "--part" => {
                i += 1;
                only_part = Some(args[i].clone());
            }
            "--replay" => {
                i += 1;
                std::process::exit(replay_file(&props(), &args[i]));
            }
            "--fresh-child" => {
                p_meta::fresh_child();
                return;
            }
            "--list" => {
                for p in props() {
                    println!("{} {:?}", p.id, p.parts.iter().map(|x| x.name).collect::<Vec<_>>());
                }
                return;
            }
            x => id = Some(x.to_string()),
        }
        i += 1;
    }
    let known: Vec<Known> = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir))
        .ok()
        .map(|s| {
            let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
            serde_json::from_value(v["findings"].clone()).expect("findings")
        })
        .unwrap_or_default();
    let st = Settings { seed, thorough, verif_dir, scale, only_part };
    let id = id.expect("usage: vharness <PROPERTY> [--tier quick|thorough] [--replay FILE]");
    let ps = props();
    if id == "all" {
        let mut rc = 0;
        for p in &ps {
            rc |= run_property(p, &st, &known);
        }
        std::process::exit(rc);
    }
    let p = ps.iter().find(|p| p.id == id).expect("unknown property id");
    std::process::exit(run_property(p, &st, &known));
}
