//! Deterministic simulation of corosensei: one seed, one execution.
#![allow(static_mut_refs)]
mod bt;
mod chooser;
mod combos;
mod coro;
mod interp;
mod profiles;
mod regs;
mod shm;
mod simvm;
mod stacks;
mod threads;
mod trap;
mod vals;
mod vg;
mod w_closure;
#[cfg(feature = "default-stack")]
mod w_overflow;
#[cfg(feature = "default-stack")]
mod w_stack;
mod w_live;
mod w_long;
mod w_trap;
mod w_values;
mod world;

use chooser::mix;
use profiles::Profile;
use shm::*;
use std::io::Write;
use std::sync::atomic::Ordering::*;
use std::time::Instant;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map_or(d, |s| s.parse().unwrap())
}

pub fn config() -> String {
    format!(
        "{}-{}-{}{}{}",
        if cfg!(target_arch = "x86_64") { "x64" } else { "x86" },
        if cfg!(debug_assertions) { "debug" } else { "release" },
        if cfg!(feature = "asm-unwind") { "asm" } else if cfg!(feature = "unwind") { "unwind" } else { "nounwind" },
        if cfg!(feature = "default-stack") { "" } else { "-nostd" },
        if cfg!(feature = "fp") { "-fp" } else if cfg!(target_feature = "avx2") { "-v3" } else { "" },
    )
}

fn run_seed(p: &Profile, seed: u64, idx: u64) -> u64 {
    let mut h = mix(seed);
    for b in p.prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx)
}

fn page_for(p: &Profile, idx: u64) -> usize {
    match p.prop {
        "C11" | "C12" | "C18" | "C19" => [4096, 8192, 16384, 65536][(idx / 64 % 4) as usize],
        _ => 4096,
    }
}

fn one_run(p: &Profile, seed: u64, replay: Option<Vec<u32>>, verbose: bool, page: usize) {
    let s = shm();
    s.expect_abort.store(0, SeqCst);
    s.vio.store(0, SeqCst);
    chooser::init(seed, replay, verbose);
    world::reset();
    stacks::reset();
    simvm::reset(page);
    let before: Vec<u64> = p.rel.iter().map(|k| cnt_get(*k)).collect();
    (p.work)(p);
    let nontrivial = p.rel.iter().zip(before).any(|(k, b)| cnt_get(*k) > b);
    let h = mix(world::w().hash ^ s.n_choices.load(Relaxed) as u64);
    s.trace_hash.store(mix(s.trace_hash.load(Relaxed) ^ h), Relaxed);
    note_run(h, nontrivial);
}

fn child_init() {
    trap::install();
    trap::resolve_unwinder();
    std::panic::set_hook(Box::new(|_| {}));
    simvm::init();
    stacks::init();
    world::reset();
    for _ in 0..threads::MAXT {
        world::w().th.push(world::Th { cur: 0, finished: true, lo: 0, hi: 0 });
    }
    threads::start(interp::thread_job);
}

fn quiet_stderr() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(fd, 2);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Ok,
    Aborted,
    Violation { tags: String, class: String, msg: String },
    Crash { msg: String, sig: u32 },
    Hang,
    /// No progress while another thread is stopped inside a library call: that
    /// may be what the running one waits for.
    Stuck,
    Harness(String),
}

/// Forks, runs `f` in the child, and waits; a child without progress for
/// `patience` seconds is killed.
fn in_child(patience: u64, f: impl FnOnce()) -> Outcome {
    let s = shm();
    s.vio.store(0, SeqCst);
    s.crash_sig.store(0, SeqCst);
    s.struck.store(0, SeqCst);
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            quiet_stderr();
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            f();
            libc::_exit(0);
        }
        let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        let mut last = s.progress.load(Relaxed);
        let mut idle = 0;
        let mut st = 0;
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            libc::poll(&mut p, 1, 500);
            if libc::waitpid(pid, &mut st, libc::WNOHANG) == pid {
                break;
            }
            let now = s.progress.load(Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            let stuck = s.struck.load(SeqCst) > 0;
            if idle > if stuck { 16 } else { patience * 2 } {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                libc::close(fd);
                return if stuck { Outcome::Stuck } else { Outcome::Hang };
            }
        }
        libc::close(fd);
        if libc::WIFEXITED(st) {
            return match libc::WEXITSTATUS(st) {
                0 => Outcome::Ok,
                trap::EXIT_ABORTED => Outcome::Aborted,
                EXIT_VIOLATION => {
                    let (tags, class, msg) = (get(&s.tags), get(&s.class), get(&s.msg));
                    if class == "harness" {
                        Outcome::Harness(msg)
                    } else {
                        Outcome::Violation { tags, class, msg }
                    }
                }
                EXIT_CRASH => {
                    let sig = s.crash_sig.load(SeqCst);
                    Outcome::Crash {
                        sig,
                        msg: format!("the process died of signal {sig} (at program+{:#x}, address {:#x})", s.crash_ip.load(SeqCst), s.crash_addr.load(SeqCst)),
                    }
                }
                c => Outcome::Harness(format!("child exited with {c}")),
            };
        }
        let sig = libc::WTERMSIG(st) as u32;
        if sig == libc::SIGKILL as u32 {
            return Outcome::Harness("child was killed".into());
        }
        if s.expect_abort.load(SeqCst) != 0 && sig == libc::SIGABRT as u32 {
            return Outcome::Aborted;
        }
        Outcome::Crash { sig, msg: format!("the process died of signal {sig}") }
    }
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Outcome::Violation { tags: t, class: c, .. }, Outcome::Violation { tags: t2, class: c2, .. }) => t == t2 && c == c2,
        (Outcome::Crash { .. }, Outcome::Crash { .. }) => true,
        (Outcome::Hang, Outcome::Hang) => true,
        _ => false,
    }
}

fn counts_for(p: &Profile, prop: &str, o: &Outcome) -> bool {
    match o {
        Outcome::Ok | Outcome::Aborted | Outcome::Stuck | Outcome::Harness(_) => false,
        Outcome::Violation { tags, .. } => p.any || tags.split(' ').any(|t| t == prop),
        _ => true,
    }
}

fn try_choices(p: &Profile, page: usize, c: &[u32], patience: u64) -> Outcome {
    in_child(patience, || {
        child_init();
        one_run(p, 0, Some(c.to_vec()), false, page);
    })
}

fn minimise(p: &Profile, page: usize, mut c: Vec<u32>, want: &Outcome, limit: f64) -> (Vec<u32>, u32) {
    let t0 = Instant::now();
    let mut tries = 0;
    let patience = 4;
    let limit = if matches!(want, Outcome::Hang) { 12.0 } else { limit };
    let mut attempt = |c: &mut Vec<u32>, d: Vec<u32>| -> bool {
        if d == *c || t0.elapsed().as_secs_f64() > limit {
            return false;
        }
        tries += 1;
        if same(&try_choices(p, page, &d, patience), want) {
            // Keep only what was used.
            let n = shm().n_choices.load(SeqCst) as usize;
            let mut d = d;
            d.truncate(n);
            while d.last() == Some(&0) {
                d.pop();
            }
            *c = d;
            return true;
        }
        false
    };
    let mut progress = true;
    while progress && t0.elapsed().as_secs_f64() < limit {
        progress = false;
        let mut size = c.len() / 2;
        while size >= 1 {
            let mut at = 0;
            while at < c.len() {
                let mut d = c.clone();
                d.drain(at..(at + size).min(c.len()));
                if attempt(&mut c, d) {
                    progress = true;
                } else {
                    let mut d = c.clone();
                    let end = (at + size).min(c.len());
                    d[at..end].fill(0);
                    if size > 1 && attempt(&mut c, d) {
                        progress = true;
                    }
                    at += size;
                }
            }
            size /= 2;
        }
        for i in 0..c.len() {
            for v in [0, 1] {
                if i < c.len() && c[i] > v {
                    let mut d = c.clone();
                    d[i] = v;
                    if attempt(&mut c, d) {
                        progress = true;
                    }
                }
            }
        }
    }
    (c, tries)
}

/// Whether a violation that is not tagged with this property belongs to it all
/// the same: the smallest history that shows it still needs one of the
/// operations the property is about.
fn attributed(p: &Profile, page: usize, choices: &[u32], o: &Outcome) -> bool {
    if p.needs.is_empty() {
        return false;
    }
    let s = shm();
    let get = |k: &K| s.counters[*k as usize].load(SeqCst);
    let saved: Vec<u64> = s.counters.iter().map(|c| c.load(SeqCst)).collect();
    let mut yes = false;
    if same(&try_choices(p, page, choices, 10), o) {
        let (small, _) = minimise(p, page, choices.to_vec(), o, 12.0);
        let before: Vec<u64> = p.needs.iter().map(get).collect();
        if same(&try_choices(p, page, &small, 10), o) {
            yes = p.needs.iter().zip(before).any(|(k, b)| get(k) > b);
        }
    }
    for (c, v) in s.counters.iter().zip(saved) {
        c.store(v, SeqCst);
    }
    yes
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn describe(o: &Outcome) -> (String, String, String) {
    match o {
        Outcome::Violation { tags, class, msg } => (tags.clone(), class.clone(), msg.clone()),
        Outcome::Crash { msg, .. } => ("".into(), "crash".into(), msg.clone()),
        Outcome::Hang => ("".into(), "hang".into(), "the simulation made no progress any more".into()),
        o => ("".into(), "none".into(), format!("{o:?}")),
    }
}

/// The event log of one run, as the child prints it.
fn log_of(p: &Profile, seed: u64, replay: Option<Vec<u32>>, page: usize) -> Vec<String> {
    unsafe {
        let mut fds = [0; 2];
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::dup2(fds[1], 1);
            libc::close(fds[0]);
            libc::close(fds[1]);
            quiet_stderr();
            libc::alarm(20);
            child_init();
            one_run(p, seed, replay, true, page);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut text = vec![];
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let _ = std::io::Read::read_to_end(&mut f, &mut text);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        String::from_utf8_lossy(&text).lines().map(|l| l.to_string()).collect()
    }
}

fn batch() -> i32 {
    let prop = arg("--prop").unwrap();
    let p = profiles::find(&prop).expect("unknown property");
    let (seed, from, count) = (num("--seed", 1), num("--from", 0), num("--count", 100));
    let cap = num("--cap", 3600) as f64;
    let out = arg("--out");
    let replay_dir = arg("--replays").unwrap_or_else(|| "/verif/out".into());
    let t0 = Instant::now();
    let s = shm();
    let mut cur = from;
    let end = from + count;
    let (mut aborted, mut foreign) = (0u64, 0u64);
    let mut foreign_msgs: Vec<String> = vec![];
    let mut examined: Vec<(String, String)> = vec![];
    let mut status = 0;
    let mut found = String::new();
    while cur < end && t0.elapsed().as_secs_f64() < cap {
        let page = page_for(p, cur);
        let mut stop = cur + 1;
        while stop < end && stop < cur + 4096 && page_for(p, stop) == page {
            stop += 1;
        }
        s.done.store(cur, SeqCst);
        let o = in_child(60, || {
            child_init();
            for i in cur..stop {
                if t0.elapsed().as_secs_f64() >= cap {
                    break;
                }
                shm().cur.store(i, SeqCst);
                one_run(p, run_seed(p, seed, i), None, false, page);
                shm().done.store(i + 1, SeqCst);
                world::progress();
            }
        });
        let at = s.cur.load(SeqCst);
        match &o {
            Outcome::Ok => {
                let d = s.done.load(SeqCst);
                if d == cur {
                    break;
                }
                cur = d;
                continue;
            }
            Outcome::Aborted => {
                aborted += 1;
                s.trace_hash.store(mix(s.trace_hash.load(Relaxed) ^ at), Relaxed);
                note_run(mix(at ^ 0xABCD), true);
                cur = at + 1;
                continue;
            }
            Outcome::Stuck => {
                cnt(shm::K::Stuck);
                cur = at + 1;
                continue;
            }
            Outcome::Harness(m) => {
                eprintln!("harness error in run {at} of {prop} on {}: {m}", config());
                status = 2;
                break;
            }
            _ => {}
        }
        let choices: Vec<u32> = s.choices[..(s.n_choices.load(SeqCst) as usize).min(MAX_CHOICES)].to_vec();
        let mut belongs = counts_for(p, &prop, &o);
        if !belongs {
            let (t, c, _) = describe(&o);
            if examined.len() < 3 && !examined.contains(&(t.clone(), c.clone())) {
                examined.push((t, c));
                belongs = attributed(p, page, &choices, &o);
            }
        }
        if !belongs {
            foreign += 1;
            let (t, c, m) = describe(&o);
            if foreign_msgs.len() < 5 {
                foreign_msgs.push(format!("run {at}: [{t}] {c}: {m}"));
            }
            cur = at + 1;
            continue;
        }
        // A violation: reproduce, minimise, write the replay file.
        let (tags, class, msg) = describe(&o);
        eprintln!("run {at} on {}: [{tags}] {class}: {msg}", config());
        let patience = if o == Outcome::Hang { 20 } else { 60 };
        let repro = try_choices(p, page, &choices, patience);
        let (small, tries) = if same(&repro, &o) { minimise(p, page, choices.clone(), &o, 40.0) } else { (choices.clone(), 0) };
        let log = log_of(p, 0, Some(small.clone()), page);
        let _ = std::fs::create_dir_all(&replay_dir);
        let path = format!("{replay_dir}/{prop}-{}-{seed}-{at}.json", config());
        let mut f = std::fs::File::create(&path).unwrap();
        let list: Vec<String> = small.iter().map(|c| c.to_string()).collect();
        let lines: Vec<String> = log.iter().take(400).map(|l| format!("  \"{}\"", esc(l))).collect();
        write!(
            f,
            "{{\n\"property\": \"{prop}\",\n\"config\": \"{}\",\n\"seed\": {seed},\n\"run\": {at},\n\"page\": {page},\n\"tags\": \"{}\",\n\"class\": \"{}\",\n\"message\": \"{}\",\n\"reproduced\": {},\n\"original_choices\": {},\n\"minimise_tries\": {tries},\n\"choices\": [{}],\n\"events\": [\n{}\n]\n}}\n",
            config(),
            esc(&tags),
            esc(&class),
            esc(&msg),
            same(&repro, &o),
            choices.len(),
            list.join(","),
            lines.join(",\n")
        )
        .unwrap();
        println!("FOUND {path}");
        found = path;
        status = 1;
        break;
    }
    let secs = t0.elapsed().as_secs_f64();
    let runs = (s.cur.load(SeqCst) + 1).max(from) - from;
    if let Some(out) = out {
        let cs: Vec<String> = (0..K::N as usize)
            .filter(|&i| s.counters[i].load(Relaxed) > 0)
            .map(|i| format!("\"{}\": {}", cnt_name(i), s.counters[i].load(Relaxed)))
            .collect();
        let mut samples = vec![];
        if status == 0 {
            for i in [0, 1] {
                let idx = from + (mix(seed + i) % count.max(1)).min(runs.saturating_sub(1));
                let mut l = log_of(p, run_seed(p, seed, idx), None, page_for(p, idx));
                let n = l.len();
                l.truncate(40);
                samples.push(format!(
                    "{{\"config\": \"{}\", \"run\": {idx}, \"events\": {n}, \"log\": [{}]}}",
                    config(),
                    l.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", ")
                ));
            }
        }
        let text = format!(
            "{{\"config\": \"{}\", \"seed\": {seed}, \"runs\": {runs}, \"planned\": {count}, \"distinct\": {}, \"distinct_nontrivial\": {}, \"nontrivial\": {}, \"aborted\": {aborted}, \"foreign\": {foreign}, \"foreign_msgs\": [{}], \"secs\": {secs:.3}, \"status\": {status}, \"found\": \"{found}\", \"trace_hash\": \"{:016x}\", \"counters\": {{{}}}, \"samples\": [{}]}}\n",
            config(),
            s.distinct.load(Relaxed),
            s.distinct_nt.load(Relaxed),
            s.nontrivial.load(Relaxed),
            foreign_msgs.iter().map(|m| format!("\"{}\"", esc(m))).collect::<Vec<_>>().join(", "),
            s.trace_hash.load(Relaxed),
            cs.join(", "),
            samples.join(", ")
        );
        std::fs::write(out, text).unwrap();
    }
    status
}

/// Re-runs a replay file in this fresh process and prints its events.
fn replay() -> i32 {
    let path = std::env::args().nth(2).expect("replay FILE");
    let text = std::fs::read_to_string(&path).unwrap();
    let field = |k: &str| -> String {
        let i = text.find(&format!("\"{k}\": ")).unwrap() + k.len() + 4;
        let rest = &text[i..];
        if let Some(r) = rest.strip_prefix('"') {
            r[..r.find('"').unwrap()].to_string()
        } else if let Some(r) = rest.strip_prefix('[') {
            r[..r.find(']').unwrap()].to_string()
        } else {
            rest[..rest.find([',', '\n']).unwrap()].to_string()
        }
    };
    if field("config") != config() {
        eprintln!("this file is for {}, this is {}", field("config"), config());
        return 2;
    }
    let p = profiles::find(&field("property")).unwrap();
    let page: usize = field("page").parse().unwrap();
    let choices: Vec<u32> = field("choices").split(',').filter_map(|x| x.trim().parse().ok()).collect();
    for l in log_of(p, 0, Some(choices.clone()), page) {
        println!("{l}");
    }
    let o = try_choices(p, page, &choices, 20);
    let (tags, class, msg) = describe(&o);
    println!("outcome: [{tags}] {class}: {msg}");
    if class == field("class") {
        println!("REPRODUCED");
        1
    } else {
        println!("not reproduced: the file says {}", field("class"));
        0
    }
}

fn print_hash(i: u64, class: &str) {
    let s = shm();
    let n = s.n_choices.load(SeqCst) as usize;
    let mut h = 0;
    for c in &s.choices[..n] {
        h = mix(h ^ *c as u64);
    }
    println!("{i} {class} {n} {h:016x} {:016x}", s.trace_hash.load(SeqCst));
}

/// Prints one line per run, for determinism checks.
fn hashes() -> i32 {
    let prop = arg("--prop").unwrap();
    let p = profiles::find(&prop).expect("unknown property");
    let (seed, from, count) = (num("--seed", 1), num("--from", 0), num("--count", 100));
    let s = shm();
    let mut from = from;
    let end = from + count;
    while arg("--batched").is_some() && from < end {
        // All in one process, as in a batch: must give the same as one by one.
        s.done.store(from, SeqCst);
        let o = in_child(60, || {
            child_init();
            for i in from..end {
                s.cur.store(i, SeqCst);
                s.trace_hash.store(0, SeqCst);
                one_run(p, run_seed(p, seed, i), None, false, page_for(p, i));
                print_hash(i, "none");
                s.done.store(i + 1, SeqCst);
            }
        });
        let d = s.done.load(SeqCst);
        if d < end {
            print_hash(d, &describe(&o).1);
        }
        from = d + 1;
    }
    for i in from..end {
        s.trace_hash.store(0, SeqCst);
        let page = page_for(p, i);
        let o = in_child(60, || {
            child_init();
            one_run(p, run_seed(p, seed, i), None, false, page);
        });
        print_hash(i, &describe(&o).1);
    }
    0
}

fn main() {
    // The same addresses every time.
    unsafe {
        let old = libc::personality(0xffffffff);
        if old != -1 && old & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("COROSIM_REEXEC").is_none() {
            if libc::personality((old | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) != -1 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("COROSIM_REEXEC", "1").exec();
                eprintln!("re-exec: {e}");
            }
        }
    }
    shm::init();
    let r = match std::env::args().nth(1).as_deref() {
        Some("batch") => batch(),
        Some("replay") => replay(),
        Some("hashes") => hashes(),
        Some("log") => {
            let p = profiles::find(&arg("--prop").unwrap()).unwrap();
            let i = num("--run", 0);
            for l in log_of(p, run_seed(p, num("--seed", 1), i), None, page_for(p, i)) {
                println!("{l}");
            }
            0
        }
        Some("profiles") => {
            for p in profiles::PROFILES {
                println!("{}", p.prop);
            }
            0
        }
        _ => {
            eprintln!("batch|replay|log|hashes");
            2
        }
    };
    std::process::exit(r);
}
