mod cal;
mod core;
mod gen;
mod p_base;
mod model;
mod p_fixed;
mod p_stmt;

use crate::core::*;

fn all() -> Vec<&'static Prop> {
    p_base::PROPS.iter().chain(p_fixed::PROPS).chain(Box::leak(p_stmt::props().into_boxed_slice()).iter()).collect()
}
fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let find = |id: &str| all().into_iter().find(|p| p.id == id);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => match find(&a[2]) {
            Some(p) => run(p, seed, thorough),
            None => {
                eprintln!("no property {}", a[2]);
                4
            }
        },
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("replay file");
            let p = find(v["property"].as_str().unwrap()).expect("property");
            replay(p, v["seed"].as_u64().unwrap(), v["tier"] == "thorough", v["case"].as_u64().unwrap())
        }
        _ => {
            eprintln!("usage: monitor run ID | replay FILE");
            4
        }
    };
    std::process::exit(code);
}
