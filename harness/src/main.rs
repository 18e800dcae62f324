mod engine;
mod exact;
mod geom;
mod lp;
mod img;
mod p_big;
mod p_c;
mod p_cli;
mod p_geom;
mod p_image;
mod p_model;
mod p_web;

use engine::Prop;

fn props() -> Vec<&'static Prop> {
    p_geom::PROPS.iter().chain(p_image::PROPS).chain(p_c::PROPS).chain(p_cli::PROPS).chain(p_web::PROPS).chain(p_model::PROPS).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        for p in props() {
            println!("{} {}", p.id, p.needs.join(" "));
        }
        return;
    }
    let id = args.get(2).cloned().unwrap_or_default();
    let id = if cmd == "replay" {
        let doc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&id).expect("replay file")).expect("json");
        doc["property"].as_str().unwrap().to_string()
    } else {
        id
    };
    let Some(p) = props().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2);
    };
    match cmd {
        "static-violation" => engine::static_violation(p, &args[3]),
        "check" => std::process::exit(engine::check(p)),
        "pipeline" => p_image::pipeline_process(),
        "huge" => p_c::huge_process(),
        "worker" => engine::worker(p),
        "choices" => engine::print_choices(p, args[3].parse().unwrap(), args[4].parse().unwrap()),
        "replay" => std::process::exit(engine::replay(p, &args[2])),
        _ => std::process::exit(2),
    }
}
