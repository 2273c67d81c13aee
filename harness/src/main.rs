#![allow(clippy::all, dead_code, unused)]
mod env;
#[macro_use]
mod fw;
mod props;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = args
                .get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let mut s = fw::Session::new(&args[1], &tier, None);
            props::dispatch(&args[1].clone(), &mut s);
            s.finish()
        }
        Some("replay") => {
            let r: fw::Replay =
                serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file"))
                    .expect("replay file");
            let p = r.property.clone();
            let mut s = fw::Session::new(&p, "quick", Some(r));
            props::dispatch(&p, &mut s);
            s.finish()
        }
        _ => {
            eprintln!("usage: dvh check <property> [quick|thorough] | dvh replay <file>");
            2
        }
    };
    std::process::exit(code);
}
