use harness::engine::{self, Options, run_case};
use harness::src::Src;
use harness::{props, world};
use std::path::PathBuf;
use std::process::Command;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match args.first().map(String::as_str) {
        Some("replay") => replay(&args[1]),
        Some("race") => {
            props::robust::race();
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some(id) if args.iter().any(|a| a == "--child" || a == "--journal") => {
            let journal = args.iter().any(|a| a == "--journal");
            child(id, root, journal)
        }
        Some(id) => parent(id, root),
        None => {
            eprintln!("usage: harness ID | list | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn options(root: PathBuf, journal: bool) -> Options {
    let env = |k: &str| std::env::var(k).ok();
    let tier = env("VERIF_TIER")
        .filter(|t| t == "thorough")
        .unwrap_or_else(|| "quick".into());
    let scale = env("VERIF_SCALE")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 20.0 } else { 1.0 });
    Options {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        threads: env("VERIF_THREADS")
            .and_then(|s| s.parse().ok())
            .unwrap_or(8),
        tier,
        root,
        scale,
        journal,
    }
}

fn child(id: &str, root: PathBuf, journal: bool) -> i32 {
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    engine::install_hook();
    world::warm_up();
    engine::run(&p, &options(root, journal))
}

/// The cases run in a process of their own, since the code under test may
/// abort (a stack overflow, for one). Then it runs again, keeping track of
/// the case each thread is at, to tell which one it was.
fn parent(id: &str, root: PathBuf) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let run = |flag: &str| Command::new(&exe).args([id, flag]).status().unwrap();
    let found = engine::found_file(&root, id);
    std::fs::remove_file(&found).ok();
    let mut child = Command::new(&exe).args([id, "--child"]).spawn().unwrap();
    let mut since = None;
    let status = loop {
        if let Some(status) = child.try_wait().unwrap() {
            break status;
        }
        if since.is_none() && found.exists() {
            since = Some(Instant::now());
        }
        if since.is_some_and(|s: Instant| s.elapsed().as_secs() > 150) {
            // A hang on the way to a smaller case.
            child.kill().ok();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let note = std::fs::read_to_string(&found).ok();
    std::fs::remove_file(&found).ok();
    if let Some(note) = note
        && status.code() != Some(1)
    {
        print!("{note}");
        return 1;
    }
    if let Some(code) = status.code() {
        // 101: the library panicked before any case could run.
        return code;
    }
    use std::os::unix::process::ExitStatusExt;
    let signal = status.signal();
    if signal == Some(9) {
        eprintln!("killed");
        return 4;
    }
    let dir = engine::journal_dir(&root, id);
    if run("--journal").code().is_some() {
        eprintln!("the run ended with signal {signal:?}, but not again");
        return 4;
    }
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    let o = options(root.clone(), false);
    let seed = engine::seed_for(&p, o.seed);
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let Some(index) = std::fs::read_to_string(e.path())
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
        else {
            continue;
        };
        let path = root
            .join("evidence")
            .join("replay")
            .join(format!("{id}-{}-{index}.json", o.seed));
        std::fs::create_dir_all(path.parent().unwrap()).ok();
        let v = serde_json::json!({
            "property": id, "rng_seed": seed, "index": index,
            "message": format!("the process died with signal {signal:?}"),
        });
        std::fs::write(&path, v.to_string()).unwrap();
        let died = Command::new(&exe)
            .args(["replay", path.to_str().unwrap()])
            .output()
            .unwrap()
            .status
            .code()
            .is_none();
        if died {
            println!("the process died with signal {signal:?}");
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
    }
    4
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
    let id = v["property"].as_str().unwrap();
    let p = props::all()
        .into_iter()
        .find(|p| p.id == id)
        .expect("property");
    engine::install_hook();
    world::warm_up();
    let mut src = match v["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Src::random(
            v["rng_seed"].as_u64().unwrap(),
            v["index"].as_u64().unwrap(),
        ),
    };
    let (cx, out) = run_case(&p, &mut src);
    println!("input: {}", cx.input);
    match out {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(f) if f.fault => {
            eprintln!("{}", f.message);
            3
        }
        Err(f) => {
            println!("message: {}", f.message);
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}
