mod backends;
mod bulk;
mod cli;
mod clock;
mod crash;
mod crashpt;
mod disk;
mod front;
mod fw;
mod gen;
mod hist;
mod http;
mod props;
mod pure;
mod sched;
mod store;
mod timer;
mod whole;
mod wire;
mod world;

use fw::*;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            match props::property(&args[2]) {
                Some(p) => run_check(&p, tier, seed),
                None => {
                    eprintln!("no property {}", args[2]);
                    2
                }
            }
        }
        Some("work") => {
            // work <id> <part> <shard> <cases> <tier> <seed> <out> <cur>
            let p = props::property(&args[2]).unwrap();
            let tier = if args[6] == "thorough" { Tier::Thorough } else { Tier::Quick };
            start_watchdog(std::time::Duration::from_secs(100));
            let part = &p.parts[args[3].parse::<usize>().unwrap()];
            let r = part.work(p.id, tier, args[7].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), args[9].as_ref());
            std::fs::write(&args[8], serde_json::to_vec(&r).unwrap()).unwrap();
            // threads of databases are still running: leave without waiting for anything
            unsafe { libc::_exit(0) }
        }
        Some("replay") => {
            let body: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            let id = body["property"].as_str().unwrap();
            let p = props::property(id).unwrap();
            let part = p.parts.iter().find(|x| x.name() == body["part"].as_str().unwrap()).unwrap();
            start_watchdog(std::time::Duration::from_secs(150));
            let own = std::env::var("VH_SCRATCH").is_err();
            let dir = scratch_root();
            let r = part.replay(id, &body["case"]);
            if own {
                let _ = std::fs::remove_dir_all(&dir);
            }
            match r {
                Ok(()) => {
                    println!("the case passes");
                    0
                }
                Err(f) => {
                    println!("{}: {}", f.sig, f.msg);
                    println!("VIOLATION property={} replay={}", id, args[2]);
                    1
                }
            }
        }
        Some("crash-child") => crash::child(args[2].as_ref()),
        Some("list") => {
            for id in props::IDS {
                println!("{}", id);
            }
            0
        }
        _ => {
            eprintln!("usage: vharness check ID | replay FILE | list");
            2
        }
    };
    unsafe {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        libc::_exit(code)
    }
}
