//! C19: every access to memory is to what is allocated, in bounds, aligned, initialised and ordered between threads.
//!
//! States, faults and schedules are enumerated here, on the real crate; each is then run by an interpreter which checks
//! every access (`memory/`, under Miri). An interpreter is slow, so bounds are smaller than elsewhere.
use mc::{cfg_dispatch, engine::*, ops::*, plans::*, types::*, with_cfg};
use palmtree::PalmTree;
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Read};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const ELEMS: &[&str] = &["plain", "heap", "wide", "aligned", "picky"];

/// Histories of all trees over keys 1..=n.
fn trees<C: Cfg>(n: usize) -> Vec<Vec<Op>> {
    let keys: Vec<usize> = (1..=n).collect();
    let dom: Vec<u16> = (0..=n as u16 + 1).collect();
    let alphabet = basic(&keys);
    let mut seen = HashSet::new();
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut i = 0;
    while i < all.len() {
        for o in &alphabet {
            let mut h = all[i].clone();
            h.push(*o);
            let mut t: Tree<Key, Val, C> = PalmTree::new();
            let mut m = Model::default();
            // what an operation answers is for others to judge
            if !h.iter().all(|o| guard(|| apply(&mut t, &mut m, *o)).is_ok()) {
                continue;
            }
            if seen.insert((m.e.is_empty(), if m.e.is_empty() { 0 } else { fingerprint(&t, &dom) })) {
                all.push(h);
            }
        }
        i += 1;
        tick();
    }
    all
}
fn each(names: &[&str], keys: &[usize]) -> Vec<String> {
    names.iter().flat_map(|n| keys.iter().map(move |k| format!("{} {}", n, k))).collect()
}
/// Everything the interface offers, at the given keys, on a map of `n` entries.
fn menu(keys: &[usize], n: usize) -> Vec<String> {
    let mut v = each(&["get", "get_mut", "entry_write"], keys);
    for k in keys {
        for b in 0..2 {
            v.extend(["range_from", "range_to", "range_mut_from", "range_mut_to"].iter().map(|r| format!("{} {} {}", r, k, b)));
        }
    }
    for w in keys.windows(2) {
        v.push(format!("range {} {}", w[0], w[1]));
    }
    let steps: Vec<(usize, usize)> = if n <= 6 { (0..=n).flat_map(|a| (0..=n - a).map(move |b| (a, b))).collect() } else { vec![(0, 0), (1, 0), (0, 1), (n / 2, n / 3), (n, 1), (1, n)] };
    for (a, b) in &steps {
        v.push(format!("iter {} {}", a, b));
        v.push(format!("iter_mut {} {}", a, b));
    }
    v.push("compare".into());
    v.extend(each(&["index", "index_mut"], &keys[..1]));
    v.extend(each(&["forget"], &keys[..1]));
    // from here on on a copy
    v.extend(each(&["insert", "insert_recursive", "remove", "entry_insert", "entry_remove"], keys));
    v.extend(["remove_lowest", "remove_highest", "into_all"].map(String::from));
    v.extend(steps.iter().map(|(a, b)| format!("into_iter {} {}", a, b)));
    let top = *keys.last().unwrap();
    for (o, k, c) in [("append_right", top + 1, 3), ("append_left", 0, 1), ("add", 1, 4), ("extend", 2, 9), ("merge", 2, 3), ("merge_some", 2, 3), ("append_right", 0, 0), ("append_left", 0, 0)] {
        v.push(format!("{} {} {}", o, k, c));
    }
    v.push(format!("clone_change {} {}", keys[0], top));
    v
}
struct Task {
    line: String,
    weight: u64,
}
fn hist(h: &[Op]) -> String {
    show(h)
}
fn tasks(tier: Tier, checked: bool) -> Vec<Task> {
    let quick = tier == Tier::Quick;
    let mut v = vec![];
    let spaces: &[(&str, usize)] = if quick { &[("U4x4", 4), ("U5x4", 3), ("U4x5", 3), ("S4x4", 3), ("Y4x4", 2)] } else { &[("U4x4", 7), ("U5x4", 6), ("U4x5", 6), ("S4x4", 6), ("Y4x4", 5), ("U5x5", 6)] };
    for (i, (c, n)) in spaces.iter().enumerate() {
        // where assertions come first, less is left to see
        let n = &if quick && checked { *n - 1 } else { *n };
        for h in with_cfg!(*c, [U4x4 U5x4 U4x5 U5x5 S4x4 Y4x4], C => trees::<C>(*n)) {
            let keys: Vec<usize> = (0..=n + 1).collect();
            for part in menu(&keys, *n).chunks(48) {
                v.push(Task { weight: part.len() as u64 * 15, line: format!("state | {} | {} | {} | {}", c, ELEMS[(i + checked as usize) % 3], hist(&h), part.join("; ")) });
            }
        }
    }
    // tall trees
    let mut talls = vec![("U4x4", 4, 4, 6), ("S4x4", 4, 4, 1), ("U5x4", 5, 4, 1), ("U4x5", 4, 5, 1)];
    if !quick {
        talls = vec![("U4x4", 4, 4, 13), ("S4x4", 4, 4, 13), ("Y4x4", 4, 4, 13), ("U5x4", 5, 4, 13), ("U4x5", 4, 5, 13), ("U5x5", 5, 5, 13), ("U16x17", 16, 17, 2)];
    }
    for (i, (c, b, l, n)) in talls.iter().enumerate() {
        for (j, s) in seeds(*b, *l).iter().take(*n).enumerate() {
            // only what is around the middle, where that is to be quick
            let keys = if quick { &s.keys[s.keys.len() / 2 - 2..s.keys.len() / 2 + 2] } else { &s.keys };
            let m = menu(keys, 64);
            // a part of the menu each, because of how long they take
            for part in m.chunks(24) {
                v.push(Task { weight: part.len() as u64 * 60, line: format!("state | {} | {} | {} | {}", c, ELEMS[(i + j + checked as usize) % 5], hist(&s.ops), part.join("; ")) });
            }
        }
    }
    for c in ["U4x4", "S4x4", "Y4x4"] {
        for h in ["", "insert 1", "insert 1; remove 1"] {
            v.push(Task { weight: 300, line: format!("state | {} | nothing | {} | {}", c, h, menu(&[0, 1], 1).join("; ")) });
        }
    }
    // panics at, and false answers of, every call into user code
    let faulted: Vec<(&str, String)> = {
        let mut f: Vec<(&str, String)> = vec![];
        for (c, n) in [("U4x4", 2 + !quick as usize), ("S4x4", 1 + !quick as usize)] {
            f.extend(with_cfg!(c, [U4x4 S4x4], C => trees::<C>(n)).iter().map(|h| (c, hist(h))));
        }
        let more = [("U4x4", "load 5 2"), ("U4x4", "load 9 2; remove_range 5 8"), ("S4x4", "load 5 2"), ("U4x4", "load 4 2"), ("Y4x4", "load 5 2"), ("U5x4", "load 9 2"), ("U4x5", "load 6 2"), ("U4x4", "load 16 2"), ("U4x4", "load 17 2")];
        for (c, h) in more.iter().take(if quick { 3 } else { more.len() }) {
            f.push((c, h.to_string()));
        }
        f
    };
    for (c, h) in faulted {
        let keys: Vec<usize> = match (h.contains("load"), quick) {
            (true, true) => vec![4, 5],
            (true, false) => vec![1, 4, 8, 9, 35],
            (false, true) => vec![1, 2],
            (false, false) => vec![1, 2, 3],
        };
        let mut m = each(&["insert", "insert_recursive", "remove", "entry_insert", "entry_remove"], &keys);
        m.extend(["remove_lowest", "remove_highest", "iter_mut 1 1", "into_iter 1 1", "range_mut_from 4 1", "range_mut_to 4 0", "range_from 4 0", "range_to 4 1", "extend 3 3", "append_right 40 2", "add 3 2", "merge 3 2", "clone_change 3 4", "compare"].map(String::from));
        for kind in ["panic", "drop", "lie"] {
            // what takes longest, and hands nothing on
            let m: Vec<String> = m.iter().filter(|o| !quick || *o != "compare" && !(kind == "lie" && o.starts_with("clone"))).cloned().collect();
            for part in m.chunks(if h.contains("load 1") || kind == "lie" { 2 } else { 5 }) {
                v.push(Task { weight: part.len() as u64 * if h.contains("load") { 1500 } else { 500 }, line: format!("{} | {} | - | {} | {}", kind, c, h, part.join("; ")) });
            }
        }
    }
    // assertions have no part in what is shared
    if !(quick && checked) {
        threads(quick, &mut v);
    }
    v
}
/// Every order of the steps of two or three threads, each of which ends by dropping its handle.
fn orders(steps: &[usize]) -> Vec<String> {
    fn go(left: &mut [usize], s: &mut String, out: &mut Vec<String>) {
        if left.iter().all(|n| *n == 0) {
            out.push(s.clone());
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                s.push((b'0' + i as u8) as char);
                go(left, s, out);
                s.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut steps.to_vec(), &mut String::new(), &mut out);
    out
}
fn threads(quick: bool, v: &mut Vec<Task>) {
    const STEPS: &[&str] = &["iter 0 0", "insert 3", "remove 4", "iter_mut 1 1", "into_iter 1 1", "entry_write 2", "get_mut 4", "clone_change 3 2", "compare", "append_right 40 2", "get 2", "range_mut_from 3 0", "remove_highest", "insert_recursive 5"];
    const FEW: &[&str] = &["iter 0 0", "insert 3", "into_iter 1 1", "get_mut 4"];
    let few = &FEW[..if quick { 3 } else { 4 }];
    let bases: &[(&str, &str)] = &[("Y4x4", "load 2 2"), ("Y4x4", "load 5 2"), ("Y5x5", "load 6 2"), ("Y4x4", "load 17 2")];
    for (i, (c, h)) in bases.iter().enumerate() {
        if quick && i != 1 {
            continue;
        }
        let w = if i == 3 { 900 } else { 250 };
        let mut add = |order: String, p: &[&str]| v.push(Task { weight: w, line: format!("threads | {} | {} | {} | {}", c, h, order, p.join(" / ")) });
        for a in STEPS {
            for b in STEPS {
                for o in orders(&[2, 2]) {
                    // the other way round it is another pair
                    if o.starts_with('0') {
                        add(o, &[a, b]);
                    }
                }
            }
        }
        for a in few {
            for b in few {
                for c in few {
                    for o in orders(&[2, 2, 2]) {
                        if o.starts_with("0") && (!quick || o.find('1') < o.find('2')) {
                            add(o, &[a, b, c]);
                        }
                    }
                }
            }
        }
        // one map lent to two threads
        for a in ["look", "clone", "insert 3"] {
            for b in ["look", "clone", "get_mut 4", "into_iter 1 1"] {
                for o in orders(&[3, 3]) {
                    add(format!("&{}", o), &[&format!("{}; iter 0 0", a), &format!("{}; insert 5", b)]);
                }
            }
        }
    }
}
fn crate_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("memory")
}
fn interpreter(profile: &str, args: &[&str]) -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--locked", "-q", "--profile", profile, "--manifest-path"]).arg(crate_dir().join("Cargo.toml"));
    c.arg("--target-dir").arg(std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("miri"));
    c.arg("--").args(args);
    // Aliasing rules are left out: they are experimental, and every cursor of this crate breaks them (see DESIGN.md).
    c.env("MIRIFLAGS", "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0 -Zmiri-disable-weak-memory-emulation -Zmiri-seed=1");
    c.env_remove("RUSTUP_TOOLCHAIN");
    c
}
fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "plain"
    }
}
/// Runs some tasks; every one must come to its end.
fn run(lines: &[&str], name: &str, t: &mut Tally) -> Result<(), String> {
    let dir = std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("work");
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join(format!("c19-{}-{}-{}.txt", profile(), std::process::id(), name));
    std::fs::write(&file, lines.join("\n")).unwrap();
    let (mut first, mut endless) = (0, 0);
    while first < lines.len() {
        let mut child = interpreter(profile(), &[file.to_str().unwrap(), &first.to_string()]).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("cargo");
        let (out, mut err) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let progress = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let p2 = progress.clone();
        let reader = std::thread::spawn(move || {
            let mut done = 0;
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if l.starts_with("done ") {
                    done += 1;
                    p2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
            }
            done
        });
        let errors = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = err.read_to_end(&mut b);
            String::from_utf8_lossy(&b).to_string()
        });
        let (mut last, mut since) = (0, Instant::now());
        let mut late = false;
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break s;
            }
            tick();
            let now = progress.load(std::sync::atomic::Ordering::SeqCst);
            if now != last {
                (last, since) = (now, Instant::now());
            }
            if since.elapsed() > Duration::from_secs(60) {
                late = true;
                let _ = child.kill();
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let done: usize = reader.join().unwrap();
        let errors = errors.join().unwrap();
        for l in &lines[first..first + done] {
            let w: Vec<&str> = l.split(" | ").collect();
            t.states += 1;
            t.validated += 1;
            t.evals += 1;
            t.transitions += if w[0] == "threads" { w[3].trim_start_matches('&').len() } else { w[4].split("; ").count() } as u64;
            t.count(&format!("tasks: {}", w[0]), 1);
        }
        first += done;
        if first == lines.len() {
            break;
        }
        let line = lines[first];
        if errors.contains("Undefined Behavior") {
            let what = errors.lines().find(|l| l.contains("Undefined Behavior")).unwrap();
            let place = errors.lines().filter(|l| l.contains("/repo/src/") || l.contains("src/main.rs")).map(|l| l.trim()).take(6).collect::<Vec<_>>().join(" ");
            return Err(format!("{} [{}] in the task `{}`", what.trim_start_matches("error: "), place, line));
        }
        if errors.contains("unsupported operation") || done == 0 && !late && !errors.contains("abnormal termination") && !errors.contains("abort") {
            eprintln!("the interpreter could not run `{}`: {:?}\n{}", line, status, &errors[errors.len().saturating_sub(3000)..]);
            std::process::exit(6);
        }
        // ended for a reason that has nothing to do with memory, or not at all: for others to judge
        t.count("tasks given up", 1);
        first += 1;
        endless += late as usize;
        if endless == 2 {
            t.count("tasks given up", (lines.len() - first) as u64);
            break;
        }
    }
    let _ = std::fs::remove_file(&file);
    Ok(())
}
pub struct P;
impl Prop for P {
    const ID: &'static str = "C19";
    cfg_dispatch!([U4x4]);
    fn plans(_: Tier, _: bool) -> Vec<Plan> {
        vec![]
    }
    fn jobs(tier: Tier, _: bool) -> Vec<String> {
        let (name, n) = if tier == Tier::Quick { ("quick", 64) } else { ("thorough", 640) };
        (0..n).map(|i| format!("memory {} {} {}", name, i, n)).collect()
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        if let Some(l) = name.strip_prefix("task ") {
            return run(&[l], "one", t);
        }
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        let mut all = tasks(if w[1] == "quick" { Tier::Quick } else { Tier::Thorough }, cfg!(debug_assertions));
        // heaviest first, dealt out in turn
        all.sort_by_key(|t| std::cmp::Reverse(t.weight));
        let mine: Vec<&str> = all.iter().enumerate().filter(|(i, _)| i % x(3) == x(2)).map(|(_, t)| t.line.as_str()).collect();
        t.sample(|| mine.last().unwrap().to_string());
        run(&mine, w[2], t)
    }
    fn state<C: Cfg>(_: &St<C>, _: &mut Tally) -> Result<(), String> {
        Ok(())
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("prepare") {
        let s = interpreter(profile(), &[]).status().expect("cargo");
        std::process::exit(s.code().unwrap_or(3));
    }
    if std::env::args().nth(1).as_deref() == Some("tasks") {
        let v = tasks(if std::env::args().nth(2).as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick }, cfg!(debug_assertions));
        if let Some(n) = std::env::args().nth(3) {
            for (i, t) in v.iter().enumerate().filter(|(i, _)| i % n.parse::<usize>().unwrap() == 0) {
                eprintln!("{} {}", i, t.weight);
                println!("{}", t.line);
            }
            std::process::exit(0);
        }
        let mut by: std::collections::BTreeMap<String, (usize, u64)> = Default::default();
        for t in &v {
            let k: Vec<&str> = t.line.split(" | ").take(2).collect();
            let e = by.entry(k.join(" ")).or_default();
            e.0 += 1;
            e.1 += t.weight;
        }
        println!("{:#?}", by);
        std::process::exit(0);
    }
    main_for::<P>()
}
