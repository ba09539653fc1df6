//! Runs the search in a child process, so that a case that kills it (endless recursion, exhausted
//! memory) or never comes back is still reported, with the case that does it.

use crate::props;
use crate::runner::SHARDS;
use serde_json::json;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

static SLOTS: AtomicPtr<u32> = AtomicPtr::new(std::ptr::null_mut());
static STRIDE: AtomicUsize = AtomicUsize::new(0);

/// Limits the address space of this process.
pub fn limit_memory(bytes: u64) {
    const RLIMIT_AS: i32 = 9;
    unsafe {
        setrlimit(RLIMIT_AS, &[bytes, bytes]);
    }
}

/// One slot per shard in a shared file: busy, number of words, words.
pub fn attach(path: &str, words: usize) {
    use std::os::fd::AsRawFd;
    let file = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(path)
        .expect("slots");
    let stride = words + 2;
    let len = SHARDS * stride * 4;
    file.set_len(len as u64).expect("slots");
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, file.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    STRIDE.store(stride, Ordering::SeqCst);
    SLOTS.store(p as *mut u32, Ordering::SeqCst);
}

fn slot(shard: usize) -> *mut u32 {
    let p = SLOTS.load(Ordering::Relaxed);
    if p.is_null() {
        p
    } else {
        unsafe { p.add(shard * STRIDE.load(Ordering::Relaxed)) }
    }
}

pub fn enter(shard: usize, words: &[u32]) {
    let p = slot(shard);
    if !p.is_null() {
        unsafe {
            p.add(1).write_volatile(words.len() as u32);
            std::ptr::copy_nonoverlapping(words.as_ptr(), p.add(2), words.len());
            p.write_volatile(1);
        }
    }
}

pub fn leave(shard: usize) {
    let p = slot(shard);
    if !p.is_null() {
        unsafe { p.write_volatile(0) }
    }
}

pub fn busy(shard: usize) -> bool {
    let p = slot(shard);
    !p.is_null() && unsafe { p.read_volatile() } == 1
}

/// The words an input of the coverage-guided search stands for.
pub fn of_bytes(bytes: &[u8]) -> Vec<u32> {
    bytes.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

pub fn read_words(path: &str) -> Vec<u32> {
    std::fs::read(path)
        .expect("words")
        .chunks_exact(4)
        .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

struct Scratch(std::path::PathBuf);

impl Scratch {
    fn new() -> Self {
        let t = std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map_or(0, |d| d.subsec_nanos());
        let dir = std::env::temp_dir().join(format!("auburn-verif-{}-{t}", std::process::id()));
        std::fs::create_dir(&dir).expect("scratch directory");
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

static DESCRIBE: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

/// From now on descriptions of cases are also written to this file.
pub fn describe_to(path: &str) {
    *DESCRIBE.lock().unwrap() = Some(path.to_string());
}

pub fn described(desc: &str) {
    if let Some(path) = DESCRIBE.lock().unwrap().as_ref() {
        let _ = std::fs::write(path, desc);
    }
}

/// Judges a case in a process of its own; tells the case and how the process died, if it did.
pub fn dies(id: &str, words: &[u32]) -> Option<(String, String)> {
    let scratch = Scratch::new();
    let file = scratch.0.join("words");
    let desc = scratch.0.join("desc");
    let bytes: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
    std::fs::write(&file, bytes).expect("words");
    let mut child = Command::new(std::env::current_exe().expect("exe"))
        .arg("judge-one")
        .arg(id)
        .arg(&file)
        .arg(&desc)
        .env("TMPDIR", &scratch.0)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    let case = || std::fs::read_to_string(&desc).unwrap_or_default();
    let t0 = Instant::now();
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return (!status.success())
                .then(|| (case(), format!("the process that asks this died: {status}")));
        }
        if t0.elapsed() > Duration::from_secs(30) {
            let _ = child.kill();
            let _ = child.wait();
            return Some((case(), "no answer after 30 s".into()));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// The outer command: spawns the search, passes its result on, and explains its death.
pub fn run(args: &[String], root: &str) -> i32 {
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        println!("ERROR no property {id}");
        return 2;
    };
    let opt = |name: &str, default: &str| {
        let i = args.iter().position(|a| a == name);
        i.and_then(|i| args.get(i + 1)).cloned().unwrap_or(default.into())
    };
    let scratch = Scratch::new();
    let slots = scratch.0.join("slots");
    std::fs::write(&slots, []).expect("slots");
    let status = Command::new(std::env::current_exe().expect("exe"))
        .arg("run-inner")
        .args(&args[1..])
        .arg("--slots")
        .arg(&slots)
        .env("TMPDIR", &scratch.0)
        .stdin(Stdio::null())
        .status()
        .expect("child");
    if let Some(c @ 0..=2) = status.code() {
        return c;
    }
    println!("the search ended with {status}");
    let data = read_words(&slots.to_string_lossy());
    for s in data.chunks_exact(p.words + 2) {
        if s[0] == 0 {
            continue;
        }
        let mut words = s[2..2 + s[1] as usize].to_vec();
        let Some((mut case, why)) = dies(&id, &words) else { continue };
        // shrink while it is quick
        let t0 = Instant::now();
        let mut step = words.len().max(1) / 2;
        while step > 0 && t0.elapsed() < Duration::from_secs(60) {
            let shorter = words[..words.len() - step.min(words.len())].to_vec();
            if let Some((c, _)) = dies(&id, &shorter) {
                case = c;
                words = shorter;
            } else {
                step /= 2;
            }
        }
        let dir = format!("{root}/evidence/replay");
        std::fs::create_dir_all(&dir).expect("replay dir");
        let path = format!("{dir}/{id}.json");
        let replay = json!({
            "property": id, "case": case, "message": why, "words": words,
            "how": "harness replay <this file> re-runs the case against /repo",
        });
        std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n")
            .expect("write replay");
        let evidence = json!({
            "property": id, "tier": opt("--tier", "quick"), "seed": opt("--seed", "1").parse::<u64>().unwrap_or(1), "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": p.rule, "samples": [case]},
            "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
        });
        let _ = std::fs::write(
            format!("{root}/evidence/{id}.json"),
            serde_json::to_string_pretty(&evidence).unwrap() + "\n",
        );
        println!("case: {case}");
        println!("why: {why}");
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    println!("ERROR property={id} the search ended with {status}, no single case explains it");
    3
}
