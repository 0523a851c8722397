//! Bounded replay of the properties on the real crates (see DESIGN.md). Never counted as proof.
#[path = "../../lift/common.rs"]
mod common;
pub use common::vx;

mod conn;
mod dapsess;
mod files;
mod frames;
mod hashes;
mod l10n;
mod lspsess;
mod mirror;
mod paths;
mod query;
mod wire;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // a runaway allocation ends this process only
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    if a[1] == "mirror-child" {
        mirror::child(&a[2], &a[3]);
    }
    if a[1] == "stdio-child" {
        wire::child(&a[2..]);
    }
    if a[1] == "files-child" {
        files::child(&a[2..]);
    }
    if a[1] == "lock-child" {
        files::lock_child(&a[2..]);
    }
    let mut cx = vx::Ctx::new();
    // a panic outside a guard counts when the code that panicked is not the harness
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("main") {
            *AT.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        }
    }));
    let all = std::panic::AssertUnwindSafe(|| run(&mut cx, &a));
    if let Err(e) = std::panic::catch_unwind(all) {
        let at = AT.lock().unwrap().clone();
        if !at.starts_with('/') || at.starts_with("/rustc/") {
            eprintln!("the harness panicked at {at}");
            std::panic::resume_unwind(e);
        }
        let case = vx::current();
        cx.fail("panicked", &case, "no panic", &at);
    }
    cx.finish()
}

static AT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn run(cx: &mut vx::Ctx, a: &[String]) {
    match a[1].as_str() {
        p @ ("C03" | "C04" | "C05" | "C16") => {
            lspsess::run(cx);
            if p == "C04" {
                wire::run(cx);
            }
        }
        "C01" | "C02" => {
            frames::run(cx);
            wire::run(cx)
        }
        "C40" => wire::threads(cx),
        "C08" => hashes::codecs(cx),
        "C09" => hashes::map(cx),
        "C12" => files::replacement(cx),
        "C13" => files::locks(cx),
        "C14" => l10n::substitution(cx),
        "C15" => l10n::catalogues(cx),
        "C10" => paths::text_paths(cx),
        "C11" => paths::diffs(cx),
        "C07" => mirror::run(cx),
        "C17" => query::run(cx),
        "C06" => dapsess::run(cx),
        p => {
            eprintln!("no replay for {p}");
            std::process::exit(2);
        }
    }
}
