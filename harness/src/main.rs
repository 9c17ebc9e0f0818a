mod atrest;
mod clock;
mod commit;
mod conc;
mod db;
mod fsx;
mod lin;
mod mconc;
mod mem;
mod lz4;
mod forged;
mod keys;
mod names;
mod pool;
mod replay;
mod rlu;
mod sched;
mod shim;
mod snapfile;
mod snapsync;
mod stm;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => pool::parent(&args[2..], "replay-worker"),
        Some("replay-worker") => pool::replay_worker(&args[2..]),
        Some("commit-child") => commit::child(&args[2..]),
        Some("names-child") => names::child(),
        Some("one") => pool::one(&args[2..]),
        _ => {
            eprintln!("usage: vh replay PARAMS BEHAVIOURS RESULT REPLAYDIR PROP");
            2
        }
    };
    std::process::exit(code);
}
