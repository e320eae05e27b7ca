//! Generates template programs, and the structs they are derived for.

use std::path::Path;
use std::{env, fs};

use vsim::gen::{generate, Profile};
use vsim::rng::{mix, mix_str};

fn main() {
    for var in ["VERIF_SEED", "VERIF_PROPERTY", "VERIF_PROGRAMS", "VERIF_ONLY", "VERIF_SKIP"] {
        println!("cargo:rerun-if-env-changed={var}");
    }
    let property = env::var("VERIF_PROPERTY").unwrap_or_else(|_| "C01".into());
    let seed: u64 = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let programs: usize = env::var("VERIF_PROGRAMS").ok().and_then(|s| s.parse().ok()).unwrap_or(10);
    let out = env::var("OUT_DIR").unwrap();
    let profile = Profile::named(&property);
    // The seeds of the programs to build instead, and of those that cannot be compiled
    let list = |var: &str| -> Option<Vec<u64>> {
        let list = env::var(var).ok().filter(|s| !s.is_empty())?;
        Some(list.split(',').map(|s| s.parse().unwrap()).collect())
    };
    let only = list("VERIF_ONLY");
    let skip = list("VERIF_SKIP").unwrap_or_default();
    let tpl = Path::new(&out).join("tpl");
    let _ = fs::remove_dir_all(&tpl);

    for shard in 0..8u64 {
        let mut code = String::new();
        let mut table = String::new();
        let seeds = match &only {
            Some(only) if shard == 0 => only.clone(),
            Some(_) => Vec::new(),
            None => (0..programs)
                .map(|i| mix(mix(mix_str(seed, &property), shard), i as u64))
                .filter(|seed| !skip.contains(seed))
                .collect(),
        };
        for (i, seed) in seeds.into_iter().enumerate() {
            // Found in the messages of the compiler
            code.push_str(&format!("// program {seed}\n"));
            let program = generate(seed, &profile);
            let dir = tpl.join(format!("s{shard}/p{i}"));
            for file in &program.files {
                let path = dir.join(&file.path);
                fs::create_dir_all(path.parent().unwrap()).unwrap();
                fs::write(path, file.source(program.style)).unwrap();
            }
            code.push_str(&program.rust(dir.to_str().unwrap(), i));
            table.push_str(&format!("vrt::Compiled {{ seed: {seed}, with: p{i}::with }},\n"));
        }
        code.push_str(&format!(
            "static PROGS: &[vrt::Compiled] = &[\n{table}];\nfn main() {{ vrt::main({shard}, PROGS) }}\n"
        ));
        fs::write(Path::new(&out).join(format!("shard{shard}.rs")), code).unwrap();
    }
}
