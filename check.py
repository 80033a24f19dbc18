#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property by exhaustive exploration of the real code.

Builds the property's explorer against /repo's working tree, with debug assertions ("checked") and without
("plain"), runs both, confirms whatever they report by replaying it in a process of its own, and writes
evidence/ID.json. Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
"""
import json, os, re, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(VERIF, "mc")
PROGRAMS = os.path.join(VERIF, "programs")  # explorers which link nothing of palmtree
TARGET = os.path.join(VERIF, "target")
PROFILES = ("checked", "plain")


def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUSTFLAGS="")
    return e


def build(names, profiles=PROFILES):
    """Builds the named explorers in all profiles at once; returns an error text or None."""
    procs = []
    crate = PROGRAMS if os.path.exists(os.path.join(PROGRAMS, "src", "bin", names[0] + ".rs")) else MC
    for p in profiles:
        cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", TARGET, "--profile", p]
        for n in names:
            cmd += ["--bin", n]
        log = open(os.path.join(TARGET, "build-%s-%s.log" % (names[0], p)), "w+")
        procs.append((p, log, subprocess.Popen(cmd, env=env(), stdout=log, stderr=subprocess.STDOUT)))
    bad = None
    for p, log, pr in procs:
        if pr.wait() != 0:
            log.seek(0)
            bad = "build of %s (%s) failed:\n%s" % (" ".join(names), p, log.read()[-6000:])
        log.close()
    return bad


def prepare(name):
    """C19 runs its tasks under an interpreter, which builds them from /repo's working tree for itself."""
    for p in PROFILES if name == "c19" else ():
        rc, text = run([exe(p, name), "prepare"], 600)
        if rc != 0:
            return "build for the interpreter (%s) failed:\n%s" % (p, text[-6000:])


def exe(profile, name):
    return os.path.join(TARGET, profile, name)


def run(cmd, timeout):
    """Return code (negative: signal; None: timed out) and output."""
    p = subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def findings(pid):
    """Lines `known: property=ID match=REGEX -- text`, matched against a confirmed failure's replay text."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) match=(.*?) -- (.*)", line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    name = pid.lower()
    work = os.path.join(TARGET, "work")
    replays = os.path.join(VERIF, "replays")
    for d in (work, replays, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)
    err = build([name]) or prepare(name)
    if err:
        print(err)
        return 2
    stats, violation = {}, None
    budget = 780 if tier == "quick" else 6 * 3600
    for prof in PROFILES:
        out, fail, crash = (os.path.join(work, "%s-%s.%s" % (pid, prof, x)) for x in ("json", "fail", "crash"))
        for f in (out, fail, crash):
            if os.path.exists(f):
                os.remove(f)
        rc, text = run([exe(prof, name), "run", tier, out, fail, crash], max(60, budget - (time.time() - t0)))
        if os.path.exists(out):
            stats[prof] = json.load(open(out))
        if rc == 0:
            continue
        found = fail if os.path.exists(fail) else crash if os.path.exists(crash) else None
        if found is None:
            print("the %s explorer ended with %s and reported nothing\n%s" % (prof, rc, text[-3000:]))
            return 3
        replay = os.path.join(replays, "%s-%s.txt" % (pid, prof))
        body = open(found, errors="replace").read()
        open(replay, "w").write(body)
        rrc, rtext = run([exe(prof, name), "replay", replay, os.path.join(work, pid + ".crash2")], 150)
        again = ""
        if rrc == 0:
            # it may need what earlier executions left behind in the process: explore once more from the start
            for f in (fail, crash):
                if os.path.exists(f):
                    os.remove(f)
            rrc, rtext = run([exe(prof, name), "run", tier, out, fail, crash], max(60, budget - (time.time() - t0)))
            found = fail if os.path.exists(fail) else crash if os.path.exists(crash) else None
            if rrc == 0 or found is None:
                print("the %s explorer reported a failure that does not happen again, neither on its own nor when everything is explored again:\n%s" % (prof, body))
                return 4
            body = open(found, errors="replace").read()
            again = "needs the executions explored before it in the same process: run `%s run %s OUT FAIL CRASH`\n" % (exe(prof, name), tier)
            body += again
            open(replay, "w").write(body)
            rtext = "\n".join(l for l in body.splitlines() if l.startswith("why "))
        how = {None: "does not end within 150 s", 70: "the process dies on an invalid memory access or abort", 71: "does not terminate"}.get(rrc, rtext.strip().splitlines()[-1] if rtext.strip() else "exit %s" % rrc)
        print("%s (%s build)\n%s" % (how, prof, body.rstrip()))
        violation = (replay, how, body)
        break
    known = findings(pid)
    if violation is None:
        for _, text in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    write_evidence(pid, tier, seed, stats, violation, time.time() - t0)
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    c = stats["checked"]
    print("%s held: %d states, %d transitions, %d evaluations in %.1f s (+ %d states, %d transitions without debug assertions)" % (
        pid, c["states"], c["transitions"], c["evaluations"], time.time() - t0, stats["plain"]["states"], stats["plain"]["transitions"]))
    return 0


LEVEL = {"C12": "fault_enumeration", "C15": "fault_enumeration"}
RULES = {
    "C12": "an execution counts when a panic was injected into it: one (tree, operation, index of the call into user code that panics); all three are enumerated, so no two are the same",
    "C15": "an execution counts when at least one comparison in it was answered falsely: one (tree, operation, assignment of false answers to comparisons); all are enumerated, so no two are the same",
}


def write_evidence(pid, tier, seed, stats, violation, wall):
    """Everything here is counted by the explorers during this run; the texts only say what the counts are of."""
    main_ = stats.get("checked") or stats.get("plain") or {}
    level = LEVEL.get(pid, "model_checking")
    cov = {"samples": main_.get("samples", [])[:8] or ["(nothing was explored before the violation)"]}
    if level == "model_checking":
        cov["states"] = main_.get("states", 0)
        cov["transitions"] = main_.get("transitions", 0)
        cov["traces_validated_against_impl"] = main_.get("validated", 0)
        cov["property_evaluations"] = main_.get("evaluations", 0)
        cov["validation"] = VALIDATION.get(pid, "the states are the implementation's own: each transition runs the real operation and is compared with the reference model; traces_validated counts the states whose shortest history was replayed from the empty map on a second set of element types and compared again")
    else:
        cov["evaluations"] = main_.get("evaluations", 0)
        cov["distinct_nontrivial"] = main_.get("counters", {}).get("distinct non-trivial", 0)
        cov["rule"] = RULES.get(pid, "")
        cov["base_states"] = main_.get("states", 0)
    if main_.get("outcomes"):
        cov["distinct_outcomes"] = main_["outcomes"]
    cov["counters"] = {k: v for k, v in main_.get("counters", {}).items() if k != "distinct non-trivial"}
    cov["explored"] = main_.get("plans", [])
    cov["jobs"] = main_.get("jobs", 0)
    cov["job_kinds"] = main_.get("job_kinds", {})
    cov["explorer_wall_s"] = {p: s.get("wall_s") for p, s in stats.items()}
    if "plain" in stats and "checked" in stats:
        s = stats["plain"]
        cov["without_debug_assertions"] = {k: s[k] for k in ("states", "transitions", "evaluations", "validated", "jobs", "job_kinds", "counters")}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUMPTIONS + EXTRA.get(pid, []), "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


VALIDATION = {
    "C05": "the maps are the implementation's own; traces_validated counts the distinct results that were compared with the definition and then used further",
    "C07": "the maps are the implementation's own, each compared with a reference model of its own after every step",
    "C13": "states are the distinct points between two steps of a schedule; traces_validated counts complete schedules run on real threads over real maps, each outcome compared with the outcome of private maps",
    "C18": "states are client programs, transitions their statements; traces_validated counts the programs on which the model of live borrows and the compiler, given the real crate, agree",
    "C19": "states are tasks (a tree and operations on it, a fault or an order of steps of threads) and transitions their operations; traces_validated counts the tasks the interpreter ran to their end on the real crate",
    "C14": "the maps are the implementation's own; traces_validated counts the complete fill-and-drain histories compared with the standard library's map",
}
ASSUMPTIONS = [
    "the map's code sees elements only through their trait impls, so the alphabet's values stand for all values",
    "states with equal comparison traces for every key of the domain are the same tree (see DESIGN.md, canonicalisation)",
]
EXTRA = {
    "C06": ["a stray read that never surfaces as an element, hits no poisoned memory and unbalances nothing is not seen"],
    "C12": ["memory errors are seen through the ledger of elements, the quarantined and poisoned allocator and the follow-up operations"],
    "C13": ["std::sync::Arc is trusted; memory is sequentially consistent as on this machine", "single-stepping and the watch on shared memory need a processor flag this kind of machine has; where it is missing the counters say so"],
    "C14": ["sizes beyond the largest explored one behave like those explored around every capacity and level boundary"],
    "C15": ["memory errors are seen through the ledger of elements, the quarantined and poisoned allocator and the follow-up operations"],
    "C17": ["memory is counted as bytes asked of the allocator; the bounds allow a small constant factor over half-full nodes"],
    "C18": ["rustc's borrow checker", "signatures behave in longer programs as in those tried"],
    "C19": ["Miri is trusted to see every access that is not allowed", "aliasing rules (Stacked or Tree Borrows) are not part of it: both are experimental, and cursors here write through pointers derived from shared references"],
    "C16": ["the bound allows a constant factor of two over one binary search per level"],
}

if __name__ == "__main__":
    os.makedirs(TARGET, exist_ok=True)
    if sys.argv[1:2] == ["setup"]:
        for crate in (MC, PROGRAMS):
            e = build(sorted(f[:-3] for f in os.listdir(os.path.join(crate, "src", "bin")) if f.endswith(".rs")))
            if e:
                print(e)
                sys.exit(2)
        e = prepare("c19")
        if e:
            print(e)
        sys.exit(2 if e else 0)
    sys.exit(main())
