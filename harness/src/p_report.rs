// The benchmark programs, started as processes: what the saved report says (C31).
use crate::ctx::{Ctx, UNDECIDED};
use crate::ens;
use crate::p_net::quiet_ports;
use rand::Rng;
use serde_json::Value;
use std::fs::File;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Parties(Vec<Child>);
impl Drop for Parties {
    fn drop(&mut self) {
        for c in &mut self.0 {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

struct Run {
    program: &'static str,
    n: usize,
    opts: Vec<(&'static str, u64)>,
    circ: String,
}

fn said(dir: &Path, i: usize) -> String {
    let s = std::fs::read_to_string(dir.join(format!("err{i}"))).unwrap_or_default();
    s.lines().filter(|l| l.contains("panicked") || !l.starts_with("note:")).take(4).collect::<Vec<_>>().join(" / ")
}

fn run(r: &Run, rng: &mut impl Rng) -> Result<(Value, String), String> {
    let Some(programs) = std::env::var_os("VH_PROGRAMS") else {
        return Err(format!("{UNDECIDED}the benchmark programs were not built"));
    };
    let dir = std::env::temp_dir().join(format!("vh-report-{}-{}", std::process::id(), rng.gen::<u32>()));
    std::fs::create_dir(&dir).map_err(|e| format!("{UNDECIDED}{e}"))?;
    let dir = Scratch(dir);
    let d = &dir.0;
    std::fs::write(d.join("net"), quiet_ports(rng, r.n).iter().map(|a| format!("{a}\n")).collect::<String>()).unwrap();
    std::fs::write(d.join("mat"), "1\n".repeat(r.n)).unwrap();
    let circ = d.join(&r.circ);
    std::fs::write(&circ, "3 6\n3 1 1 1\n1 1\n\n2 1 0 1 3 AND\n2 1 3 2 4 XOR\n2 1 4 0 5 AND\n").unwrap();
    let circ = circ.to_str().unwrap().to_string();
    let mut parties = Parties(vec![]);
    for i in (0..r.n).rev() {
        let mut c = Command::new(Path::new(&programs).join(r.program));
        c.current_dir(d).args(["--id", &i.to_string(), "--net", "net", "--circ", &circ, "--save", &format!("report{i}")]);
        if r.program == "preproc" {
            c.args(["--binsup-mat", "mat"]);
        }
        for (k, v) in &r.opts {
            c.args([format!("--{}", k), v.to_string()]);
        }
        c.stdout(Stdio::null()).stderr(File::create(d.join(format!("err{i}"))).unwrap());
        parties.0.push(c.spawn().map_err(|e| format!("{UNDECIDED}{}: {e}", r.program))?);
    }
    // The report is there when party 0 is done; the others may still wait for its last message then.
    let start = Instant::now();
    'done: loop {
        for k in (0..r.n).rev() {
            let i = r.n - 1 - k;
            match parties.0[k].try_wait() {
                Ok(Some(s)) if s.success() => {
                    if i == 0 {
                        break 'done;
                    }
                }
                Ok(Some(s)) => {
                    if let Ok(Some(z)) = parties.0[r.n - 1].try_wait() {
                        if z.success() {
                            break 'done;
                        }
                    }
                    let m = said(d, i);
                    let what = format!("party {i} of {} ended with {s}: {m}", r.program);
                    return Err(if m.contains("AddrInUse") { format!("{UNDECIDED}{what}") } else { what });
                }
                _ => {}
            }
        }
        ens!(start.elapsed() < Duration::from_secs(90), "party 0 of {} still running after 90 s", r.program);
        std::thread::sleep(Duration::from_millis(20));
    }
    let t = std::fs::read_to_string(d.join("report0")).map_err(|e| format!("party 0 saved no report: {e}"))?;
    let v = serde_json::from_str(&t).map_err(|e| format!("the report is not JSON ({e}): {t}"))?;
    Ok((v, circ))
}

fn check(r: &Run, rng: &mut impl Rng) -> Result<(), String> {
    let (v, circ) = run(r, rng)?;
    let opt = |k: &str| r.opts.iter().find(|x| x.0 == k).map(|x| x.1);
    let det = &v["details"];
    let names = [("t", "threshold"), ("l", "packing-param"), ("lpn_tau", "lpn-error-bias"), ("lpn_key_len", "lpn-key-len"), ("lpn_mssg_len", "lpn-mssg-len"), ("reps", "reps"), ("threads", "threads")];
    ens!(det["n"].as_u64() == Some(r.n as u64), "{}: the report says n = {}, there were {} parties", r.program, det["n"], r.n);
    ens!(det["circ"].as_str() == Some(circ.as_str()), "{}: the report says circuit {}, the run was started with {circ:?}", r.program, det["circ"]);
    for (k, o) in names {
        if let Some(x) = opt(o) {
            ens!(det[k].as_u64() == Some(x), "{}: the report says {k} = {}, the run was started with --{o} {x}", r.program, det[k]);
        } else {
            ens!(det[k].is_u64(), "{}: the report says {k} = {}", r.program, det[k]);
        }
    }
    let reps = opt("reps").unwrap_or(1);
    let Some(b) = v["benchmarks"].as_array() else { return Err(format!("{}: no benchmarks in {v}", r.program)) };
    ens!(b.len() == r.n, "{}: {} entries for {} parties", r.program, b.len(), r.n);
    for (i, p) in b.iter().enumerate() {
        let list = if r.program == "garble" { &p["garbling"] } else { p };
        let Some(list) = list.as_array() else { return Err(format!("{}: no list of repetitions for party {i}: {p}", r.program)) };
        ens!(list.len() as u64 == reps, "{}: {} entries of party {i} for {reps} repetitions", r.program, list.len());
        for e in list {
            ens!(e["time"].is_u64(), "{}: no time in {e}", r.program);
            ens!(e["comm"].as_array().map(|c| c.len()) == Some(r.n), "{}: no traffic of {} parties in {e}", r.program, r.n);
        }
    }
    Ok(())
}

pub fn reports(c: &mut Ctx) {
    for k in 0..6usize {
        let program = ["garble", "preproc"][k % 2];
        c.case(format!("{program}/{k}"), program, |rng| {
            let (n, t, l) = [(5, 1, 2), (6, 1, 2), (4, 1, 1), (5, 1, 1), (3, 1, 1), (4, 1, 1)][k];
            // Different values as far as possible, so that none can stand in for another (preprocessing is for bias 2 only).
            let mut opts = vec![("threshold", t), ("packing-param", l), ("lpn-error-bias", if program == "preproc" { 2 } else { rng.gen_range(3..5) }), ("lpn-key-len", rng.gen_range(6..9)), ("lpn-mssg-len", rng.gen_range(10..14))];
            if k != 4 {
                opts.push(("reps", [3, 2, 7, 4, 1, 0][k]));
                opts.push(("threads", rng.gen_range(15..20)));
            }
            let circ = ["c.txt", "a circuit \"x\".txt", "k\u{e9}.txt"][rng.gen_range(0..3)].to_string();
            check(&Run { program, n, opts, circ }, rng)
        });
    }
}
