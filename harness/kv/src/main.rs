#[macro_use]
mod p11;
#[macro_use]
mod run;
mod tok;
mod vfs;
mod noise;
mod crypt;
mod msgapi;
mod ops;
mod objmodel;
mod rsakeys;
mod rsasmall;
mod props;

#[global_allocator]
static ALLOC: noise::Noisy = noise::Noisy;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| props::get(id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    let code = match arg(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            run::check(&find(arg(2)), thorough, seed)
        }
        "worker" => run::worker(&find(arg(2)), arg(3) == "thorough", arg(4).parse().unwrap(), arg(5).parse().unwrap(), arg(6).parse().unwrap(), arg(7).as_ref(), arg(8).as_ref()),
        "replay-sub" => run::replay(&find(arg(2)), arg(3).as_ref(), arg(4).as_ref(), true),
        "replay" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).expect("file")).expect("json");
            let sd = std::path::PathBuf::from(format!("/dev/shm/kv.replay.{}", std::process::id()));
            std::fs::create_dir_all(&sd).unwrap();
            let c = run::replay(&find(j["property"].as_str().unwrap()), arg(2).as_ref(), &sd, false);
            let _ = std::fs::remove_dir_all(&sd);
            c
        }
        "mechs" => {
            let mut c = tok::Cache::new("/dev/shm/kv.mechs".into());
            let (p, slot) = c.shared();
            for m in p.mech_list(slot).1 { let i = p.mech_info(slot, m).1; println!("0x{m:x} {} {} {:x}", i.ulMinKeySize, i.ulMaxKeySize, i.flags); }
            c.reset();
            let _ = std::fs::remove_dir_all("/dev/shm/kv.mechs");
            0
        }
        _ => { eprintln!("usage: kv check|replay ..."); 2 }
    };
    std::process::exit(code);
}
