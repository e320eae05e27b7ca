//! source PROPERTY SEED…: prints generated programs

use vsim::gen::{expanded, generate, Profile};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    for seed in &args[1..] {
        let program = generate(seed.parse().unwrap(), &Profile::named(&args[0]));
        for (i, file) in program.files.iter().enumerate() {
            let main = if i == program.main { " (main)" } else { "" };
            println!("--- {}{main}\n{}", file.path, file.source(program.style));
        }
        println!("{:?} {:?} {}", program.attr, program.block, expanded(&program));
    }
}
