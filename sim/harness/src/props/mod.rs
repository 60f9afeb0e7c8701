//! One module per property: how plans are drawn, how they are executed and judged.
use crate::run::*;
use simstd::sim::Rng;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c13;
pub mod c18;
pub mod c19;

/// compare every listing with the order of the file (in the build that keeps it)
static ORDER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn ordered() -> bool {
    ORDER.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn run(p: &Plan) {
    start(&p.prop, p)
}
fn start(prop: &str, p: &Plan) {
    match prop {
        "C01" => c01::run(p),
        "C02" => c02::run(p),
        "C03" => c03::run(p),
        "C04" => c04::run(p),
        "C05" => c05::run(p),
        "C06" => c06::run(p),
        "C07" => c07::run(p),
        "C08" => c08::run(p),
        "C09" => c09::run(p),
        "C10" => c10::run(p),
        "C11" => c11::run(p),
        "C12" => c12::run(p),
        "C14" => c14::run(p),
        "C15" => c15::run(p),
        "C16" => c16::run(p),
        "C13" => c13::run(p),
        "C18" => c18::run(p),
        "C19" => c19::run(p),
        _ => harness_error("no such property"),
    }
}
pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut rng = Rng::new(seed);
    let mut p = Plan::new(prop, seed, &mut rng);
    draw(prop, &mut p, &mut rng);
    p
}
fn draw(prop: &str, p: &mut Plan, rng: &mut Rng) {
    match prop {
        "C01" => c01::plan(p, rng),
        "C02" => c02::plan(p, rng),
        "C03" => c03::plan(p, rng),
        "C04" => c04::plan(p, rng),
        "C05" => c05::plan(p, rng),
        "C06" => c06::plan(p, rng),
        "C07" => c07::plan(p, rng),
        "C08" => c08::plan(p, rng),
        "C09" => c09::plan(p, rng),
        "C10" => c10::plan(p, rng),
        "C11" => c11::plan(p, rng),
        "C12" => c12::plan(p, rng),
        "C14" => c14::plan(p, rng),
        "C15" => c15::plan(p, rng),
        "C16" => c16::plan(p, rng),
        "C13" => c13::plan(p, rng),
        "C18" => c18::plan(p, rng),
        "C19" => c19::plan(p, rng),
        _ => {
            eprintln!("no such property: {prop}");
            std::process::exit(2)
        }
    }
}
pub fn nontrivial(prop: &str, o: &Outcome) -> bool {
    match prop {
        "C01" => o.switches >= 2 && o.counters[C_OKCHECK] >= 2,
        "C02" => o.switches >= 2 && o.counters[C_PARSE] >= 2 && o.counters[C_OKCHECK] >= 2,
        "C03" => o.switches >= 2 && o.blocks >= 1,
        "C04" => o.counters[C_LINK] >= 2 && o.counters[C_OKCHECK] >= 2,
        "C05" => o.counters[C_LOOKUP] >= 2 && o.counters[C_OKCHECK] >= 2,
        "C06" => o.counters[C_DAMAGE] + o.counters[C_TRUNC] >= 1,
        "C07" => o.counters[C_ERR] >= 1 && o.counters[C_RETRY] >= 1,
        "C08" => o.counters[C_DAMAGE] >= 1 && o.counters[C_OKCHECK] >= 1,
        "C09" => o.counters[C_OKCHECK] >= 1 && o.counters[C_LISTING] >= 1,
        "C10" => o.counters[C_OKCHECK] >= 2 && o.counters[C_SHORT] + o.counters[C_EINTR] + o.counters[C_WERR] >= 1,
        "C11" => o.counters[C_OKCHECK] >= 1 && (o.probes[9] + o.probes[10] >= 1 || o.switches >= 2),
        "C12" => o.counters[C_OKCHECK] >= 2 && o.counters[C_OPEN] >= 3,
        "C14" => o.counters[C_MERGE] >= 1 && o.counters[C_OKCHECK] >= 2,
        "C15" => o.counters[C_DROP] >= 1 && o.counters[C_OKCHECK] >= 2,
        "C16" => o.counters[C_PANIC] + o.counters[C_WERR] >= 1 && o.counters[C_OKCHECK] >= 2,
        "C18" => o.counters[C_LOOKUP] + o.counters[C_JSON] >= 2 && o.counters[C_OKCHECK] >= 2,
        "C19" => o.counters[C_OKCHECK] >= 2 && o.counters[C_ORDER] >= 1,
        "C13" => o.counters[C_UNPARSE] + o.counters[C_WALK] >= 1 && o.counters[C_PARSE] >= 2,
        _ => true,
    }
}
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "a run generates files, opens them and lets 2-4 simulated threads decode, parse and open under one seeded schedule; non-trivial: at least two task switches and two decoded values compared with the model",
        "C02" => "a run opens generated files and lets 2-4 simulated threads parse, list, look up and read shared nodes, a few nodes drawing most of the traffic; non-trivial: at least two task switches, two parses and two compared states",
        "C03" => "a run lets 2-4 simulated threads use one tree with links in every documented way, each seeing to its own locks; non-trivial: at least two task switches and one thread that had to wait for a lock",
        "C04" => "a run builds an archive whose canvases and properties refer to one another and lets 1-4 simulated threads resolve, extract, parse, walk and unload; non-trivial: at least two links followed and compared with the model",
        "C05" => "a run looks paths, existing and not, up directly in the images of a generated file while 1-4 simulated threads parse and unload them; non-trivial: at least two lookups compared with the model",
        "C06" => "a run damages the bytes of a generated file, before it is opened or while it is in use, and opens, parses, extracts, looks up, links and prints everything; non-trivial: at least one damage was applied",
        "C07" => "a run damages stored bytes, in place or before opening, or lets calls fail while opening, loads nodes meanwhile by 1-3 simulated threads, heals the storage and loads them again; non-trivial: at least one load failed and one was repeated on healed storage",
        "C08" => "a run damages bytes inside some images, or payload bytes, of a generated archive before or while it is open, damages or removes another archive, and lets 1-3 simulated threads use damaged and intact parts in any order; non-trivial: damage was applied and intact values were compared with the model",
        "C09" => "a run lays out a data directory of generated files, numbered parts and folders, with stray entries, and loads it under permuted listing orders, failing calls and broken files, by 1-3 simulated threads; non-trivial: at least one load in a permuted order or under a fault was judged",
        "C10" => "a run exports generated sounds of 0 to 300 000 bytes to files and to writers by 1-3 simulated threads while writes come back short, interrupted, empty or failed; non-trivial: at least one write was disturbed and two exports were judged",
        "C11" => "a run extracts generated canvases of 1 to 300 000 pixels in every format by 1-3 simulated threads over a simulated pool of 1-64 workers that steals, reorders and interleaves halves of the work; non-trivial: an image was compared with the model and work was stolen or threads were interleaved",
        "C12" => "a run opens 1-4 generated files of different regions, formats and versions, and damaged copies of them, in random order and in different ways by 1-3 simulated threads, keeping, re-reading and dropping some; each result is compared with the one the file gives in a fresh copy of the process; non-trivial: at least two results compared and three files opened",
        "C14" => "a run loads 2-3 trees with much or little in common (archives, folders of one archive, images, nodes made by hand), merges one or two of them into the first while 1-3 simulated threads read, walk, look up and parse in them, and compares every state seen and the result, node by node and handle by handle, with the merge of the models; non-trivial: at least one merge and two compared states",
        "C15" => "a run opens generated files, takes handles to random nodes and drops, unloads, replaces and reopens the trees they come from by 1-3 simulated threads, with failing and damaged opens and images whose links form circles; every handle is read through and compared with the model, and at the end every node, reader, mapping and descriptor must be gone; non-trivial: at least one drop and two comparisons",
        "C16" => "a run lets 1-3 simulated threads use generated files while clients panic in walk callbacks, ancestor filters, sound writers and JSON writers at random points, or return errors from writers; afterwards everything is read, unloaded and loaded anew; non-trivial: at least one client failed and two values were compared afterwards",
        "C13" => "a run opens generated files and executes a random history of parse, unparse, walks and lookups by 1-3 simulated threads; with one thread every step is compared with the model; non-trivial: at least one unload or walk and two parses",
        "C18" => "a run loads 1-2 generated files and lets 1-4 simulated threads ask nodes for their paths, ancestors, relatives and JSON, and read full JSON back, while others parse, unload and walk them; every answer is compared with the model; non-trivial: at least two questions and two compared answers",
        "C19" => "a run takes a plan of one of the other properties (decoding, shared parsing, links, lookups, damage, faults, independence, assembling, pixels, unparse, merging, memory, relations) and executes and judges it on the crate built without rayon and with indexmap, comparing every listing with the order of the file too; non-trivial: at least two values and one listing order compared",
        _ => "",
    }
}
pub fn level(_prop: &str) -> &'static str {
    "exploration"
}
/// what known findings may require of a plan
pub fn plan_is(p: &Plan, what: &str) -> bool {
    match what {
        // callers holding a node ask for its ancestors, others look below the node they hold
        "callers mix directions" => p.prop == "C03" && c03::mixed(p),
        _ => false,
    }
}
