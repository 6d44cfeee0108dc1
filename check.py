#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

Builds the library and the harness from /repo's current tree in a directory of
its own, searches with 8 workers, and writes evidence/ID.json.
Exit 0: held on everything explored.  Exit 1: "VIOLATION property=ID replay=F".
"""
import argparse, glob, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
WORKERS = 8

# property -> the searches that decide it: (harness, name in it, build variant)
PARTS = {
    "P01": [("h_read", "P01", "asan")],
    "P02": [("h_read", "P02", "asan")],
    "P23": [("h_read", "P23", "asan")],
    "P03": [("h_fd", "P03", "asan")],
    "P21": [("h_fd", "P21", "asan"), ("h_sample", "P21S", "asan")],
    "P04": [("h_path", "P04", "asan")],
    "P05": [("h_path", "P05", "asan")],
    "P06": [("h_path", "P06", "asan")],
    "P07": [("h_path", "P07", "asan")],
    "P18": [("h_path", "P18", "asan")],
    "P08": [("h_dir", "P08", "asan")],
    "P09": [("h_dir", "P09", "asan")],
    "P10": [("h_dir", "P10", "asan")],
    "P13": [("h_dir", "P13", "asan")],
    "P14": [("h_dir", "P14", "asan")],
    "P15": [("h_dir", "P15", "asan")],
    "P11": [("h_extract", "P11", "asan")],
    "P12": [("h_extract", "P12", "asan")],
    "P16": [("h_image", "P16", "asan")],
    "P17": [("h_image", "P17", "asan")],
    "P19": [("h_image", "P19", "asan")],
    "P22": [("h_image", "P22", "asan"), ("h_sample", "P22S", "asan")],
    "P20": [("h_thread", "P20", "asan"), ("h_thread", "P20B", "asan"), ("h_thread", "P20R", "tsan")],
    "P24": [("h_cont", "P24", "asan")],
    "P25": [("h_sample", "P25", "asan")],
    "P26": [("h_sample", "P26", "asan")],
    "P27": [("h_sample", "P27", "asan")],
    "P28": [("h_sample", "P28", "asan")],
    "P29": [("h_sample", "P29", "asan")],
    "P30": [("h_sthread", "P30", "asan"), ("h_sthread", "P30R", "tsan")],
}

REDIRECT = {n: "vf_" + n for n in
            "malloc calloc realloc strdup strndup free dup close memcpy memset strcmp rand srand execv dlopen mkdir stat lstat".split()}
REDIRECT.update({"pthread_mutex_" + n: "vf_mutex_" + n for n in "init destroy lock trylock unlock".split()})


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def build(harness, variant, out):
    """The harness binary, from /repo's current tree."""
    os.makedirs(out, exist_ok=True)
    san = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"], "cov": ["-fsanitize=address", "--coverage"]}[variant]
    cflags = ["-g", "-O1", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-ftrivial-auto-var-init=pattern",
              "-fno-common"] + san
    sample = harness in ("h_sample", "h_sthread")
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    inc = ["-I" + os.path.join(REPO, "include")]
    jobs = []
    libobjs = []
    tsan = variant == "tsan"
    for s in srcs:
        o = os.path.join(out, "lib_" + os.path.basename(s)[:-2] + ".o")
        libobjs.append(o)
        jobs.append(["gcc", "-c", s, "-o", o] + cflags + ([] if tsan else ["-fno-builtin"]) + inc)
    objs = []
    if sample:
        for s in ("enclose_io_unix.c",):
            p = os.path.join(REPO, "sample", s)
            o = os.path.join(out, "lib_" + s[:-2] + ".o")
            libobjs.append(o)
            jobs.append(["gcc", "-c", p, "-o", o, "-DRUBY_EXPORT"] + cflags + inc + ["-I" + os.path.join(REPO, "sample")])
    if sample:
        # the calls of a program that includes the layer's header
        o = os.path.join(out, "iocalls.o")
        objs.append(o)
        jobs.append(["gcc", "-c", os.path.join(HARNESS, "iocalls.c"), "-o", o, "-g", "-O1", "-w", "-fno-builtin"] + inc
                    + ["-I" + os.path.join(REPO, "sample")])
    o = os.path.join(out, "shim.o")
    objs.append(o)
    jobs.append(["gcc", "-c", os.path.join(HARNESS, "shim.c"), "-o", o, "-g", "-O1", "-fno-builtin"])
    o = os.path.join(out, harness + ".o")
    objs.append(o)
    jobs.append(["g++", "-std=c++17", "-c", os.path.join(HARNESS, harness + ".cpp"), "-o", o, "-g1", "-O1", "-w",
                 "-I" + HARNESS, "-I" + os.path.join(REPO, "sample")] + inc + (["-fsanitize=thread", "-DVF_TSAN"] if tsan else []))
    zlib = os.path.join(out, "libz_vf.a")
    za = subprocess.run(["gcc", "-print-file-name=libz.a"], capture_output=True, text=True).stdout.strip()
    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(run, jobs))
    link = ["-lz"]
    if not tsan:
        m = os.path.join(out, "redirect")
        with open(m, "w") as f:
            for k, v in REDIRECT.items():
                f.write("%s %s\n" % (k, v))
        with ThreadPoolExecutor(WORKERS) as ex:
            list(ex.map(run, [["objcopy", "--redefine-syms=" + m, x] for x in libobjs]))
        if os.path.exists(za):
            # zlib's allocations can be made to fail as well; the writer's share the counters
            mz = os.path.join(out, "redirectz")
            with open(mz, "w") as f:
                f.write("malloc vf_malloc\nfree vf_free\ncalloc vf_calloc\n")
            run(["objcopy", "--redefine-syms=" + mz, za, zlib])
            link = [zlib]
    exe = os.path.join(out, harness)
    run(["g++"] + san + ["-o", exe] + objs + libobjs + link + ["-lpthread", "-ldl"])
    return exe


ASAN = ("detect_leaks=0:symbolize=%d:malloc_context_size=%d:max_malloc_fill_size=65536:malloc_fill_byte=190:"
        "max_free_fill_size=4096:free_fill_byte=211:quarantine_size_mb=8:allocator_may_return_null=1:exitcode=77:"
        "detect_stack_use_after_return=0:check_initialization_order=0:handle_abort=0:print_summary=1:color=never")


def env_for(scratch, final=False):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL")}
    e["ASAN_OPTIONS"] = ASAN % (1 if final else 0, 12 if final else 2)
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:symbolize=%d:color=never:report_thread_leaks=0:die_after_fork=0" % (1 if final else 0)
    e["TMPDIR"] = scratch
    e["VF_SCRATCH"] = scratch
    return e


def known_findings(pid):
    """[(signature, text)] of the listed, unrepaired findings of a property."""
    out = []
    p = os.path.join(HERE, "known-findings")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                sig, _, text = rest.partition(" ")
                out.append((sig.replace("sig=", ""), text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    ap.add_argument("--part")
    ap.add_argument("--variant")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    pid, tier = a.id, "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    os.chmod(work, 0o755)
    procs = []
    try:
        return decide(a, pid, tier, seed, work, t0, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        subprocess.run(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)


def scratch_dir(work, name):
    d = os.path.join(work, name)
    os.makedirs(d)
    os.chmod(d, 0o777)
    return d


def decide(a, pid, tier, seed, work, t0, procs):
    parts = PARTS[pid]
    if a.part:
        parts = [p for p in parts if p[1] == a.part]
    exes = {}
    for h, name, var in parts:
        var = a.variant or var
        if (h, var) not in exes:
            try:
                exes[(h, var)] = build(h, var, os.path.join(work, h + "_" + var))
            except BuildError as e:
                sys.stderr.write("BUILD FAILED\n%s\n" % e)
                sys.exit(2)
    if a.replay:
        rec = json.load(open(a.replay))
        h, name, var = [p for p in parts if p[1] == rec.get("part", parts[0][1])][0]
        return replay(exes[(h, a.variant or var)], rec, pid, name, work, a.replay)
    budget = 3600 if tier == "thorough" else 330
    known = known_findings(pid)
    results = []
    tbuild = time.time() - t0
    for h, name, var in parts:
        exe = exes[(h, a.variant or var)]
        outs = []
        batch = []
        for w in range(WORKERS):
            sc = scratch_dir(work, "%s-s%d" % (name, w))
            o = os.path.join(work, "%s-out%d.json" % (name, w))
            outs.append(o)
            cmd = [exe, "--prop", name, "--seed", str(seed), "--worker", str(w), "--workers", str(WORKERS), "--tier", tier,
                   "--out", o, "--err", os.path.join(work, "%s-err%d" % (name, w)), "--budget", str(budget)]
            if known:
                cmd += ["--known", ",".join(k for k, _ in known)]
            if a.cases:
                cmd += ["--cases", str(a.cases)]
            p = subprocess.Popen(cmd, env=env_for(sc), cwd=sc, stdin=subprocess.DEVNULL, start_new_session=True,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            procs.append(p)
            batch.append(p)
        for p, o in zip(batch, outs):
            txt, _ = p.communicate()
            if txt and (a.v or p.returncode):
                sys.stderr.write(txt[-3000:])
            try:
                r = json.load(open(o))
            except (OSError, ValueError) as e:
                sys.stderr.write("worker gave no result (exit %s): %s\n" % (p.returncode, e))
                return 3
            r["part"] = name
            results.append(r)
    fails = [r for r in results if r["failure"]]
    best = None
    if fails:
        best = min(fails, key=lambda r: (len(r["failure"]["choices"]), r["fail_idx"]))
    distinct = set()
    labels, hits = {}, {}
    samples = []
    for r in results:
        distinct.update((r["part"], x) for x in r["distinct"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            hits[k] = hits.get(k, 0) + v
        samples += r["samples"]
    os.makedirs(a.out, exist_ok=True)
    rules = []
    for r in results:
        if r["rule"] not in rules:
            rules.append(r["rule"])
    man = {}
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            man[c["property"]] = c
    except (OSError, ValueError):
        pass
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": man.get(pid, {}).get("level", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(distinct),
            "rule": " | ".join(rules),
            "samples": samples[:8] or ["(none)"],
            "inner_checks": sum(r["inner"] for r in results),
            "discarded": sum(r["discarded"] for r in results),
            "choice_overflow": sum(r["overflow"] for r in results),
            "failed_once_only": sum(r["flaky"] for r in results),
            "stopped_by_budget": any(r.get("budget_hit") for r in results),
            "labels": dict(sorted(labels.items())),
            "search_s": round(max(r["seconds"] for r in results), 2),
        },
        "assumptions": ["the image model and writer in harness/img.hpp are right about SquashFS 4.0",
                        "what the property leaves open is left open by the oracle (see DESIGN.md)"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if best else 0,
    }
    rc = 0
    if best:
        f = best["failure"]
        rec = {"property": pid, "part": best["part"], "seed": seed, "tier": tier, "case": best["fail_idx"], "kind": f["kind"],
               "message": f["message"], "notes": f["notes"].split("\n"), "choices": f["choices"]}
        h, name, var = [p for p in parts if p[1] == best["part"]][0]
        try:
            sc = scratch_dir(work, "final")
            g = replay_run(exes[(h, a.variant or var)], f["choices"], name, sc, work, tier)
            if g["kind"] != "pass":
                rec["message"] = g["message"]
                rec["notes"] = g["notes"].split("\n")
        except Exception as e:
            pass
        path = os.path.join(a.out, "%s-replay.json" % pid)
        json.dump(rec, open(path, "w"), indent=1)
        print("%s: %s" % (rec["kind"], rec["message"][:1500]))
        for l in rec["notes"][-40:]:
            print("  " + l[:400])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        ev["coverage"]["violation"] = rec["message"][:600]
        rc = 1
    else:
        for k, text in known:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, text, hits.get(k, 0)))
        print("%s held: %d cases, %d distinct non-trivial, %d inner checks, build %.1f s, search %.1f s" % (
            pid, ev["coverage"]["evaluations"], len(distinct), ev["coverage"]["inner_checks"], tbuild, ev["coverage"]["search_s"]))
        if a.v:
            for k, v in sorted(labels.items()):
                print("   %-40s %d" % (k, v))
            if ev["coverage"]["failed_once_only"] or ev["coverage"]["choice_overflow"]:
                print("   flaky %d overflow %d" % (ev["coverage"]["failed_once_only"], ev["coverage"]["choice_overflow"]))
    tmp = os.path.join(a.out, ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(a.out, "%s.json" % pid))
    return rc


def replay_run(exe, choices, name, sc, work, tier):
    rf = os.path.join(work, "replay.txt")
    with open(rf, "w") as f:
        f.write("\n".join(map(str, choices)) + "\n")
    os.chmod(rf, 0o644)
    of = os.path.join(work, "replay-out.json")
    subprocess.run([exe, "--prop", name, "--replay", rf, "--out", of, "--tier", tier, "--err", os.path.join(work, "replay-err")],
                   env=env_for(sc, True), cwd=sc, stdin=subprocess.DEVNULL)
    return json.load(open(of))


def replay(exe, rec, pid, name, work, path):
    o = replay_run(exe, rec["choices"], name, scratch_dir(work, "r"), work, rec.get("tier", "quick"))
    for l in o["notes"].split("\n"):
        print("  " + l)
    print("%s: %s" % (o["kind"], o["message"]))
    if o["kind"] in ("pass", "discard"):
        return 0
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
