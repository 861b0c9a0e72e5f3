//! The supervising parent: runs the exploration in a child process and turns crashes and
//! non-termination of the code under test into replayable violations.

use crate::*;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::Command;

/// CPU seconds one execution may use before it counts as non-terminating.
const HANG_CPU_S: f64 = 40.0;

pub fn root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| {
        PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Lines of known_findings.txt: `finding: property=<id> key=<key> <what fails>`.
pub fn load_known(property: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={property}") {
                if let Some(k) = k.strip_prefix("key=") {
                    m.insert(k.to_string(), d.to_string());
                }
            }
        }
    }
    m
}

pub fn write_replay(property: &str, section: &str, idx: u32, choices: &[u32], msg: &str, log: &[String]) -> String {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{property}-{section}.txt").replace(' ', "_"));
    let mut f = std::fs::File::create(&p).unwrap();
    let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    writeln!(f, "property {property}").unwrap();
    writeln!(f, "section {section}").unwrap();
    writeln!(f, "section_idx {idx}").unwrap();
    writeln!(f, "choices {}", cs.join(" ")).unwrap();
    writeln!(f, "# {}", msg.replace('\n', "\n# ")).unwrap();
    for l in log {
        writeln!(f, "# {}", l.replace('\n', "\n# ")).unwrap();
    }
    writeln!(f, "# replay: /verif/replay.sh {}", p.display()).unwrap();
    p.display().to_string()
}

pub fn write_evidence(property: &str, thorough: bool, cov: &str, wall: f64, violations: usize) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let text = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(property),
        if thorough { "thorough" } else { "quick" },
        seed,
        cov,
        js("no statement about values outside the enumerated alphabets and shapes; the reference models in mc/src/bin are trusted"),
        wall,
        violations
    );
    let suffix = std::env::var("MC_EVIDENCE_SUFFIX").unwrap_or_default();
    std::fs::write(dir.join(format!("{property}{suffix}.json")), text).unwrap();
}

fn map_shm(fd: i32) -> &'static Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        &*(p as *const Shm)
    }
}

pub fn entry(property: &str, f: impl FnOnce(&mut Runner)) -> ! {
    if let Ok(fd) = std::env::var("MC_FD") {
        let shm = map_shm(fd.parse().unwrap());
        unsafe {
            let l = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
        }
        let mode = match std::env::var("MC_REPLAY_IDX") {
            Ok(i) => Mode::Replay {
                section: None,
                section_idx: Some(i.parse().unwrap()),
                choices: std::env::var("MC_REPLAY_CHOICES")
                    .unwrap_or_default()
                    .split_whitespace()
                    .map(|x| x.parse().unwrap())
                    .collect(),
            },
            Err(_) => match std::env::var("MC_REPLAY_FILE") {
                Ok(p) => {
                    let t = std::fs::read_to_string(p).unwrap();
                    let mut section = None;
                    let mut choices = vec![];
                    for l in t.lines() {
                        if let Some(s) = l.strip_prefix("section ") {
                            section = Some(s.to_string());
                        }
                        if let Some(s) = l.strip_prefix("choices ") {
                            choices = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
                        }
                    }
                    Mode::Replay { section, section_idx: None, choices }
                }
                Err(_) => Mode::Explore,
            },
        };
        let code = child_main(property, shm, mode, f);
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }
    let code = parent(property);
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

enum Ended {
    Code(i32),
    Signal(i32),
    Hang(usize),
}

fn cpu_of(pid: u32, tid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/task/{tid}/stat")).ok()?;
    let r = s.rsplit_once(')')?.1;
    let v: Vec<&str> = r.split_whitespace().collect();
    let u: f64 = v.get(11)?.parse().ok()?;
    let k: f64 = v.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn spawn_and_watch(fd: i32, shm: &Shm, env: &[(&str, String)], quiet: bool) -> Ended {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(std::env::args().skip(1));
    cmd.env("MC_FD", fd.to_string());
    for (k, v) in env {
        cmd.env(k, v);
    }
    if quiet {
        cmd.stdout(std::process::Stdio::null());
        cmd.stderr(std::process::Stdio::null());
    }
    let mut child = cmd.spawn().expect("spawn child");
    let pid = child.id();
    let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); MAX_SLOTS];
    let mut sleep = 2;
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            if let Some(s) = st.signal() {
                return Ended::Signal(s);
            }
            return Ended::Code(st.code().unwrap_or(2));
        }
        std::thread::sleep(Duration::from_millis(sleep));
        sleep = (sleep * 2).min(200);
        for i in 0..MAX_SLOTS {
            let s = &shm.slots[i];
            if s.active.load(Relaxed) == 0 {
                seen[i].0 = u64::MAX;
                continue;
            }
            let seq = s.seq.load(Relaxed);
            let Some(cpu) = cpu_of(pid, s.tid.load(Relaxed)) else { continue };
            if seen[i].0 != seq {
                seen[i] = (seq, cpu);
            } else if cpu - seen[i].1 > HANG_CPU_S {
                let _ = child.kill();
                let _ = child.wait();
                return Ended::Hang(i);
            }
        }
    }
}

fn reset_slots(shm: &Shm) {
    for s in &shm.slots {
        s.active.store(0, Relaxed);
    }
}

fn parent(property: &str) -> i32 {
    let fd = unsafe {
        let name = c"mc-breadcrumbs";
        let fd = libc::memfd_create(name.as_ptr(), 0);
        assert!(fd >= 0, "memfd_create");
        assert_eq!(libc::ftruncate(fd, std::mem::size_of::<Shm>() as i64), 0);
        fd
    };
    let shm = map_shm(fd);
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--replay" {
        return match spawn_and_watch(fd, shm, &[("MC_REPLAY_FILE", args[2].clone())], false) {
            Ended::Code(c) => c,
            Ended::Signal(s) => {
                println!("replay: the process was killed by signal {s}");
                1
            }
            Ended::Hang(_) => {
                println!("replay: no result after {HANG_CPU_S} s of CPU time");
                1
            }
        };
    }
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let ended = spawn_and_watch(fd, shm, &[], false);
    let suspects: Vec<usize> = match &ended {
        Ended::Code(c) => return *c,
        Ended::Hang(i) => vec![*i],
        Ended::Signal(_) => (0..MAX_SLOTS).filter(|&i| shm.slots[i].active.load(Relaxed) != 0).collect(),
    };
    let what = match &ended {
        Ended::Signal(s) => format!("the code under test killed the process (signal {s})"),
        _ => format!("no result after {HANG_CPU_S} s of CPU time (expected: well below a second)"),
    };
    let cases: Vec<(u32, Vec<u32>)> = suspects
        .iter()
        .map(|&i| {
            let s = &shm.slots[i];
            let len = (s.len.load(Relaxed) as usize).min(MAX_CHOICES);
            (s.section.load(Relaxed), (0..len).map(|k| s.choices[k].load(Relaxed)).collect())
        })
        .collect();
    for (sec, choices) in cases {
        reset_slots(shm);
        let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
        let env = [("MC_REPLAY_IDX", sec.to_string()), ("MC_REPLAY_CHOICES", cs.join(" "))];
        let again = spawn_and_watch(fd, shm, &env, true);
        if matches!(again, Ended::Signal(_) | Ended::Hang(_)) {
            let path = write_replay(property, &format!("section{sec}"), sec, &choices, &what, &[]);
            // replay by index
            let mut t = std::fs::read_to_string(&path).unwrap();
            t.push_str(&format!("# run with MC_REPLAY_IDX={sec} MC_REPLAY_CHOICES=\"{}\"\n", cs.join(" ")));
            std::fs::write(&path, t).unwrap();
            println!("section #{sec}: {what}; choices {choices:?}");
            println!("VIOLATION property={property} replay={path}");
            let cov = format!(
                "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":false,\"samples\":[{}]}}",
                shm.states.load(Relaxed),
                shm.transitions.load(Relaxed),
                shm.traces.load(Relaxed),
                js(&format!("section #{sec} choices {choices:?}: {what}"))
            );
            write_evidence(property, thorough, &cov, t0.elapsed().as_secs_f64(), 1);
            return 1;
        }
    }
    println!("ENGINE ERROR: {what}, and no case in flight reproduces it");
    2
}
