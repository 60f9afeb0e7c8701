mod alloc;
mod damage;
mod disk;
mod gen;
mod linked;
mod model;
mod pix;
mod props;
mod run;
mod snow2;
mod world;

#[global_allocator]
static A: alloc::Cap = alloc::Cap;

fn usage() -> ! {
    eprintln!("wzsim check <property> <quick|thorough> <verif dir>\nwzsim replay <file> [log]\nwzsim seed <property> <seed> [log]\nwzsim selftest <property> <count>");
    std::process::exit(2)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    if !world::ORDERED && (s(2) == "C19" || s(1) == "replay" && run::plan_prop(s(2)) == "C19") {
        // that property is about the other build, which lies beside this one
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(std::env::current_exe().unwrap().with_file_name("wzsim-alt")).args(&a[1..]).exec();
        eprintln!("wzsim-alt: {e}");
        std::process::exit(3)
    }
    let code = match s(1) {
        "check" => run::check(s(2), s(3), s(4)),
        "replay" => run::replay(s(2), s(3) == "log"),
        "seed" => run::one_seed(s(2), s(3).parse().unwrap_or_else(|_| usage()), s(4) == "log"),
        "selftest" => run::selftest(s(2), s(3).parse().unwrap_or(200)),
        "bench" => run::bench(s(2), s(3).parse().unwrap_or(500)),
        _ => usage(),
    };
    std::process::exit(code);
}
