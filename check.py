#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property.

usage: check.py PROPERTY [quick|thorough]     decide a property
       check.py replay FILE                   re-execute a replay file (exit 1 if it still fails)
       check.py build                         compile everything (fills _build)

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it did not.
Exit 2: the check could not do its work (for example, the tree does not compile).
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FC_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "_build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
CXX = os.environ.get("FC_CXX", "clang++-18")
# arithmetic that is undefined stops the run (crash-trap): its result is whatever the optimiser makes of it
TRAPS = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,bool,enum,return,unreachable"
FLAGS = ["-std=c++20", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-w", "-fsanitize=" + TRAPS, "-fsanitize-trap=all",
         "-I" + os.path.join(REPO, "include"), "-I" + SIM]
WORK = ["-fsanitize-coverage=bb,trace-pc"]  # the unit whose executed blocks are counted
LINK = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl", "-lpthread"]

sys.path.insert(0, HERE)
from props import PROPS, OF, ST, ALL_FAULTS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    h.update(" ".join([CXX] + FLAGS + WORK + LINK).encode())
    roots = [os.path.join(REPO, "include"), SIM]
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def compile_one(src, obj):
    if os.path.exists(obj):
        return None
    tmp = obj + ".tmp%d" % os.getpid()
    r = None
    more = WORK if os.path.basename(src).startswith("work") else []
    if os.path.basename(src).startswith("odd"):  # gcc tells T{t} from T(t) where clang 18 does not
        r = sh(["g++"] + FLAGS + ["-c", src, "-o", tmp])
    if r is None or r.returncode != 0:
        r = sh([CXX] + FLAGS + more + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return (r.returncode, "%s:\n%s" % (src, first_error(r.stdout)))
    os.replace(tmp, obj)
    return None


def first_error(text):
    m = re.search(r"^.*error:.*(?:\n.*){0,3}", text, re.M)
    return m.group(0) if m else text[-3000:]


SCENARIO = re.compile(r"^[A-Z_]*SCENARIO[A-Z_]*\((\w+)")


def part_source(tu, scenario):
    """The translation unit with one of its scenarios only (with none: scenario is None)."""
    out = []
    for line in open(os.path.join(SIM, "tu", tu + ".cpp")):
        m = SCENARIO.match(line)
        if not m or m.group(1) == scenario:
            out.append(line.replace('"../drivers/', '"drivers/'))
    return "".join(out)


def split(tu, out):
    """A translation unit does not compile: which of its scenarios do?  Returns (objects, missing)."""
    names = [m.group(1) for m in map(SCENARIO.match, open(os.path.join(SIM, "tu", tu + ".cpp"))) if m]
    jobs = []
    for n in [None] + names:
        src = os.path.join(out, "%s.%s.cpp" % (tu, n or "none"))
        with open(src, "w") as f:
            f.write(part_source(tu, n))
        jobs.append((src, src[:-4] + ".o"))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = list(ex.map(lambda j: compile_one(*j), jobs))
    if errs[0] or any(e and e[0] != 1 for e in errs):
        return None  # not a matter of what a scenario instantiates
    return ([j[1] for j, e in zip(jobs[1:], errs[1:]) if not e],
            [(tu, n, e[1]) for n, e in zip(names, errs[1:]) if e])


def build(tus, peer=False):
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(out, exist_ok=True)
        os.utime(out)
        # keep the cache small: this tree and the two most recently used others
        olds = sorted((d for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{20}", d) and d != key),
                      key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-2]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        jobs = [(os.path.join(SIM, "core.cpp"), os.path.join(out, "core.o"))]
        jobs += [(os.path.join(SIM, "tu", t + ".cpp"), os.path.join(out, t + ".o")) for t in tus]
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            errs = list(ex.map(lambda j: compile_one(*j), jobs))
        objs, missing, bad = [], [], []
        for i, (j, e) in enumerate(zip(jobs, errs)):
            if not e:
                objs.append(j[1])
                continue
            sp = split(tus[i - 1], out) if i > 0 and e[0] == 1 else None
            if sp is None:
                bad.append(e[1])
            else:
                objs += sp[0]
                missing += sp[1]
        if bad or len(objs) < 2 and not missing:
            print("check could not build the simulator from %s:\n%s" % (REPO, "\n".join(bad)))
            sys.exit(2)
        if len(objs) < 2:
            return None, key, missing
        name = "fcsim-" + hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:12]
        exe = os.path.join(out, name)
        for path, extra in ((exe, []), (exe + "-peer", ["-no-pie"])):
            if os.path.exists(path) or extra and not peer:
                continue
            tmp = path + ".tmp%d" % os.getpid()
            r = sh([CXX, "-rdynamic"] + extra + objs + ["-o", tmp] + LINK)
            if r.returncode != 0:
                print("link failed:\n" + r.stdout[-6000:])
                sys.exit(2)
            os.replace(tmp, path)
    return exe, key, missing


def restart_replay(exe, rep, images, verbose=False):
    """The program's containers are restarted, at each crash, from the bytes which another process left."""
    r = sh([exe, "replay", rep, "--images-out", images])
    if r.returncode != 0:  # fails in one process already: not about the restart
        return None
    r = sh([exe + "-peer", "replay", rep, "--images-in", images] + (["-v"] if verbose else []))
    m = re.search(r"REPLAY class=(\S+) trace=(\w+).*\n  (.*)", r.stdout)
    return r, (m.groups() if m and r.returncode == 1 else None)


def restart_minimise(exe, rep, images, budget=60):
    t0 = time.time()
    lines = open(rep).read().splitlines()
    head = [l for l in lines if not l.startswith("op ")]
    ops = [l for l in lines if l.startswith("op ")]
    cls = next(l.split()[1] for l in lines if l.startswith("class "))
    trial = rep + ".trial"

    def fails(o):
        with open(trial, "w") as f:
            f.write("\n".join(head + o) + "\n")
        r = restart_replay(exe, trial, images)
        return r is not None and r[1] is not None and r[1][0] == cls

    step = max(1, len(ops) // 2)
    while step >= 1 and time.time() - t0 < budget:
        i, again = 0, False
        while i < len(ops) and time.time() - t0 < budget:
            less = ops[:i] + ops[i + step:]
            if fails(less):
                ops, again = less, True
            else:
                i += step
        if step == 1 and not again:
            break
        step = max(1, step // 2)
    fails(ops)
    got = restart_replay(exe, trial, images)
    os.unlink(trial)
    if got is None or got[1] is None:
        return None
    out = ["restart 1"]
    for l in head:
        if l.startswith("trace "):
            l = "trace " + got[1][1]
        elif l.startswith("# violation"):
            l = "# violation (in a second process, from the bytes the first one left): %s: %s" % (got[1][0], got[1][2])
        out.append(l)
    with open(rep, "w") as f:
        f.write("\n".join(out + ops) + "\n")
    return got[1][0], got[1][2], len(ops)


def restarts(exe, prop, cfg, seed, runs, maxlen, out):
    """Every crash restarts the container in a second process, which lies elsewhere in its address space."""
    n = os.cpu_count() or 4
    base = [a for a in run_cmd(exe, prop, cfg, seed, runs, out, maxlen, 600, "")]

    def shard(i):
        img = "%s.images%d" % (out, i)
        rep = os.path.join(REPLAYS, "%s-%d-restart%d.replay" % (prop, seed, i))
        tail = base[2:]
        tail[tail.index("--out") + 1] = rep
        try:
            a = sh([exe, "images"] + tail + ["--first", str(i), "--stride", str(n), "--images-out", img])
            b = sh([exe + "-peer", "images"] + tail + ["--first", str(i), "--stride", str(n), "--images-in", img])
            m = re.search(r"IMAGES runs=(\d+) carried=(\d+) violation=(\d) run=(\d+) class=(\S+)\n  (.*)", b.stdout)
            if a.returncode != 0 or not m:
                print("restart search failed:\n" + a.stdout[-1500:] + b.stdout[-1500:])
                sys.exit(2)
            return (int(m.group(1)), int(m.group(2)),
                    (int(m.group(4)), m.group(5), m.group(6), rep) if m.group(3) == "1" else None)
        finally:
            if os.path.exists(img):
                os.unlink(img)

    with concurrent.futures.ThreadPoolExecutor(max_workers=n) as ex:
        rs = list(ex.map(shard, range(n)))
    bad = sorted(r[2] for r in rs if r[2])
    return sum(r[0] for r in rs), sum(r[1] for r in rs), bad[0] if bad else None


def all_tus():
    return sorted({t for p in PROPS.values() for t in p["tus"]})


def known_findings(prop):
    """Lines 'known: property=<id> replay=<file> class=<class> what=<text>': the history in the file fails."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) replay=(\S+) class=(\S+) what=(.*)", line)
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def run_cmd(exe, prop, cfg, seed, runs, out, maxlen, tlimit, sub):
    cmd = [exe, "run", "--prop", prop + sub, "--seed", str(seed), "--runs", str(runs),
           "--workers", str(os.cpu_count() or 4), "--out", out, "--replay-dir", REPLAYS,
           "--time", str(tlimit), "--maxlen", str(maxlen),
           "--faults", str(cfg.get("faults", ALL_FAULTS)), "--attrib", str(cfg.get("attrib", 0)),
           "--bias", str(cfg.get("bias", 0))]
    if cfg.get("watch"):
        cmd += ["--watch", "1"]
    if cfg.get("accept"):
        cmd += ["--accept", ",".join(cfg["accept"])]
    if cfg.get("family"):
        cmd += ["--family", ",".join(cfg["family"])]
    return cmd


def move_only(m):
    return re.search(r"\bMo\b", part_source(m[0], m[1])) is not None


def decide(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    for d in (REPLAYS, EVIDENCE):
        os.makedirs(d, exist_ok=True)
    exe, key, missing = build(cfg["tus"], bool(cfg.get("restart")))
    t_build = time.time() - t0
    thorough = tier == "thorough"
    # quick: one seed, a fixed number of runs.  thorough: many more runs, with longer histories and
    # further seeds derived from VERIF_SEED.
    runs = cfg["runs"] * (12 if thorough else 1)
    plan = [(seed, runs, 220)]
    if thorough:
        plan += [(seed * 1000003 + 17, runs, 600), (seed * 1000003 + 29, runs, 80)]
    tot, samples, counters = {}, [], {}
    violation = None
    out = os.path.join(BUILD, "out-%s-%d.json" % (prop, os.getpid()))
    if exe is None:  # no scenario compiles
        plan = []
        tot = dict.fromkeys(("runs", "operations", "callback_steps", "preemptions", "faults", "rejections",
                             "nontrivial", "distinct_traces", "fault_free_runs", "out_of_class", "search_s",
                             "distinct_states", "scenarios"), 0)
        tot["combined_traces"] = []
        if cfg.get("accept"):
            print("no scenario compiles:\n" + missing[0][2])
            return 2
    for s, n, ml in plan:
        r = sh(run_cmd(exe, prop, cfg, s, n, out, ml, 3600 if thorough else 420, ""))
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("simulator failed (rc %d):\n%s" % (r.returncode, r.stdout[-4000:]))
            sys.exit(2)
        res = json.load(open(out))
        os.unlink(out)
        for k in ("runs", "operations", "callback_steps", "preemptions", "faults", "rejections", "nontrivial",
                  "distinct_traces", "fault_free_runs", "out_of_class", "search_s"):
            tot[k] = tot.get(k, 0) + res[k]
        tot["distinct_states"] = max(tot.get("distinct_states", 0), res["distinct_states"])
        tot["scenarios"] = res["scenarios"]
        tot.setdefault("combined_traces", []).append("seed %d: %s" % (s, res["combined_trace"]))
        for k, v in res["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += res["samples"]
        if res["ooc_sample"]:
            tot["out_of_class_sample"] = res["ooc_sample"]
        if res["violation"]:
            violation = res
            break
    rc = 0
    lines = []
    nviol = 0
    if cfg.get("restart") and exe is not None and violation is None:
        nr, carried, bad = restarts(exe, prop, cfg, seed + 7919, cfg["restart"] * (24 if thorough else 1), 220, out)
        tot["runs"] += nr
        counters["fault.restart_in_another_process"] = carried
        if bad:
            run, cls, msg, rep = bad
            img = out + ".images"
            before = sum(l.startswith("op ") for l in open(rep))
            got = restart_minimise(exe, rep, img)
            again = [restart_replay(exe, rep, img) for _ in range(2)]
            if os.path.exists(img):
                os.unlink(img)
            if got is None or not all(r and r[1] for r in again):
                print("a violation after a restart was found but its replay file does not reproduce it: " + msg)
                return 2
            exact = all("same_class=1 same_trace=1" in r[0].stdout for r in again)
            nviol = rc = 1
            lines.append("%s: %s (after a restart in another process; run %d, %d operations minimised to %d; replay exact: %s)"
                         % (got[0], got[1], run, before, got[2], exact))
            lines.append("VIOLATION property=%s replay=%s" % (prop, rep))
    # A use of the public interface that the container's property quantifies over no longer compiles. The cross-cutting
    # properties only say something about what runs (except that move-only elements need moves).
    mine = [m for m in missing if not cfg.get("accept") or prop == "C16" and move_only(m)]
    if violation is None and rc == 0 and mine:
        tu, scen, err = mine[0]
        rep = os.path.join(REPLAYS, "%s-%d-unbuildable.replay" % (prop, seed))
        with open(rep, "w") as f:
            f.write("property %s\nunbuildable %s %s\n# %s\n" % (prop, tu, scen, err.replace("\n", "\n# ")))
        nviol = rc = 1
        lines.append("unbuildable: scenario %s does not compile any more: %s" % (scen, err))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rep))
    elif missing:
        lines.append("note: %d scenarios do not compile and were not run: %s" % (
            len(missing), " ".join(m[1] for m in missing)))
    if violation:
        rep = violation["replay"]
        text = open(rep).read() if os.path.exists(rep) else ""
        m = re.search(r"^scenario (\S+)", text, re.M)
        scen = m.group(1) if m else "?"
        # the replay file must reproduce the violation in fresh processes, exactly
        rr = [sh([exe, "replay", rep]) for _ in range(2)]
        exact = all(x.returncode == 1 and "same_class=1 same_trace=1" in x.stdout for x in rr)
        if not all(x.returncode == 1 for x in rr):
            print("a violation was found but its replay file does not reproduce it:\n" + "\n".join(
                x.stdout[-1500:] for x in rr))
            return 2
        nviol = 1
        rc = 1
        lines.append("%s: %s (scenario %s, run %d, %d operations minimised to %d; replay exact: %s)" % (
            violation["class"], violation["message"], scen, violation["viol_run"], violation["orig_ops"],
            violation["min_ops"], exact))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rep))
    # the listed histories; one that fails otherwise than listed is not the known finding
    for _, rep, cls, what in known_findings(prop) if exe else []:
        rep = os.path.join(HERE, rep)
        r = sh([exe, "replay", rep, "--known", "1"])
        m = re.search(r"REPLAY class=(\S+)[^\n]*\n  (.*)", r.stdout)
        if r.returncode == 1 and m and m.group(1) == cls:
            print("KNOWN-FINDING: property=%s %s: %s (%s)" % (prop, what, m.group(2), os.path.relpath(rep, HERE)))
        elif r.returncode == 1 and m:
            nviol = rc = 1
            lines.append("%s: %s (not as the known finding)" % m.groups())
            lines.append("VIOLATION property=%s replay=%s" % (prop, rep))
    wall = time.time() - t0
    fk = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    pk = {k[6:]: v for k, v in counters.items() if k.startswith("probe.")}
    other = {k: v for k, v in counters.items() if not k.startswith(("fault.", "probe."))}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["distinct_traces"],
            "rule": "One evaluation is one simulated run: a seeded program (operations, tasks, interleaving, "
                    "fault plan, memory garbage, hash/comparator behaviour) executed against the real containers "
                    "and the reference model. Non-trivial: at least 5 operations completed and at least one "
                    "preemption, injected fault or rejection fired. Distinct: by the hash of the complete trace "
                    "(every callback, yield, fault, result).",
            "samples": samples[:4],
            "simulated_operations": tot["operations"],
            "simulated_time_steps": tot["callback_steps"],
            "preemptions_inside_operations": tot["preemptions"],
            "rejections": tot["rejections"],
            "faults_fired": tot["faults"],
            "fault_kinds": fk,
            "probes": pk,
            "other_counters": other,
            "fault_free_runs": tot["fault_free_runs"],
            "distinct_states": tot["distinct_states"],
            "state_measure": "hash of (scenario, sizes/fill levels and layout class of the slots, operation kind)",
            "runs_per_hour": int(tot["runs"] / max(tot["search_s"], 1e-3) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(tot["search_s"], 1e-3) * 3600),
            "search_s": round(tot["search_s"], 3), "build_s": round(t_build, 1),
            "scenarios": tot["scenarios"],
            "scenarios_that_do_not_compile": [m[1] for m in missing],
            "combined_trace_hashes": tot["combined_traces"],
            "violations_of_other_properties_seen": tot["out_of_class"],
            "out_of_class_sample": tot.get("out_of_class_sample", ""),
            "real_code": "every header of /repo/include reached from the containers under test (template code "
                         "compiled from the working tree), unmodified",
            "stubs": "element, key, comparator, hash, policy ('checking') and input-source types; the allocator "
                     "and abort() entry points; task scheduling (fibers); nothing of the library itself",
            "tree": key,
        },
        "assumptions": [
            "exploration: holds for the runs executed, not a proof",
            "tasks interleave at element/key/comparator/hash/source callbacks of the library",
            "time is counted in callbacks (the library has no clock)",
        ],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d operations, %d faults, %d preemptions, %d rejections, %d distinct traces, %.1f s "
          "(build %.1f s)" % (prop, tier, tot["runs"], tot["operations"], tot["faults"], tot["preemptions"],
                              tot["rejections"], tot["distinct_traces"], wall, t_build))
    for l in lines:
        print(l)
    return rc


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        build(all_tus())
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        text = open(sys.argv[2]).read()
        prop = re.search(r"^property (\S+)", text, re.M).group(1)
        m = re.search(r"^unbuildable (\w+) (\w+)", text, re.M)
        if m:
            _, _, missing = build([m.group(1)])
            again = [x for x in missing if x[1] == m.group(2)]
            if again:
                print("%s\nVIOLATION property=%s replay=%s" % (again[0][2], prop, sys.argv[2]))
            return 1 if again else 0
        exe, _, _ = build(PROPS[prop]["tus"], "\nrestart 1" in "\n" + text)
        if "\nrestart 1" in "\n" + text:
            img = os.path.join(BUILD, "replay-%d.images" % os.getpid())
            r = restart_replay(exe, sys.argv[2], img, True)
            os.unlink(img)
            bad = r is not None and r[1] is not None
            print(r[0].stdout[-20000:] if r else "the program fails before any restart")
            if bad:
                print("VIOLATION property=%s replay=%s" % (prop, sys.argv[2]))
            return 1 if bad else 0
        r = sh([exe, "replay", "-v", sys.argv[2]])
        print(r.stdout[-20000:])
        if r.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[2]))
        return r.returncode
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print(__doc__)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return decide(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
