mod engine;
#[macro_use]
mod glue;
mod entry;
mod alloc;
mod damage;
mod multi;
mod cli;
mod crash;
mod files;
mod geo;
mod hist;
mod raw;
mod roots;
mod text;
mod world;

use engine::*;

#[global_allocator]
static A: Capped = Capped;

fn props() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(hist::PROPS);
    v.extend(geo::PROPS);
    v.extend(text::PROPS);
    v.extend(entry::PROPS);
    v.extend(files::PROPS);
    v.extend(damage::PROPS);
    v.extend(multi::PROPS);
    v.extend(cli::PROPS);
    v.extend(crash::PROPS);
    v.extend(alloc::PROPS);
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ps = props();
    let find = |id: &str| -> &'static Prop {
        ps.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(64)
        })
    };
    let tier = |t: &str| match t {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {}", t);
            std::process::exit(64)
        }
    };
    if a.len() == 2 && a[1] == "list" {
        for p in &ps {
            println!("{}", p.id);
        }
        return;
    }
    if a.len() == 3 && a[1] == "replay" {
        let text = std::fs::read_to_string(&a[2]).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).expect("replay file field").to_string();
        std::process::exit(replay(find(&get("property=")), tier(&get("tier=")), &get("case=")));
    }
    if a.len() < 3 {
        eprintln!("usage: mc <property> quick|thorough  |  mc replay <file>  |  mc list");
        std::process::exit(64);
    }
    if a.len() == 4 {
        std::process::exit(replay(find(&a[1]), tier(&a[2]), &a[3]));
    }
    std::process::exit(run(find(&a[1]), tier(&a[2])));
}
