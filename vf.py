#!/usr/bin/env python3
"""Driver of the exhaustive explorers in /verif/harness.

  python3 vf.py setup                 build every harness against /repo's working tree
  python3 vf.py check ID              run the check of property ID (tier from VERIF_TIER, default quick)
  python3 vf.py replay FILE           rerun the one case recorded in a replay file
  python3 vf.py build ID...           build only

Objects are cached under /verif/build/cache by a hash of their preprocessed text (which contains
/repo's current headers) and flags, so a check always runs code built from /repo's working tree.
"""
import hashlib, json, os, re, signal, subprocess, sys, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
CACHE = os.path.join(BUILD, "cache")
NCPU = os.cpu_count() or 4
SHARDS = min(8, max(2, NCPU))
sys.path.insert(0, HERE)
from checks import CHECKS, BINS  # noqa: E402

CONFIG = {
    "cppad_link_flags_has_m32": "0", "compiler_has_conversion_warn": "1",
    "cppad_debug_and_release_01": "1", "use_cplusplus_2017_ok": "1", "cppad_version": "20260430",
    "cppad_has_adolc": "0", "cppad_has_colpack": "0", "cppad_has_eigen": "0", "cppad_has_ipopt": "0",
    "cppad_deprecated_01": "", "cppad_boostvector": "0", "cppad_cppadvector": "1",
    "cppad_stdvector": "0", "cppad_eigenvector": "0", "cppad_has_gettimeofday": "1",
    "cppad_tape_addr_type": "unsigned int", "cppad_is_same_tape_addr_type_size_t": "0",
    "cppad_tape_id_type": "unsigned int", "cppad_max_num_threads": "48", "cppad_has_mkstemp": "1",
    "cppad_has_tmpnam_s": "0", "cppad_c_compiler_cmd": "gcc", "cppad_c_compiler_gnu_flags": "1",
    "cppad_c_compiler_msvc_flags": "0", "cppad_is_same_unsigned_int_size_t": "0",
    "cppad_padding_block_t": "",
}


class BuildError(Exception):
    pass


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}.{threading.get_ident()}"
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def config_dir(over):
    """A folder with a configure.hpp made from /repo's configure.hpp.in."""
    conf = dict(CONFIG, **over)
    text = open(f"{REPO}/include/cppad/configure.hpp.in").read()
    text = re.sub(r"@(\w+)@", lambda m: conf.get(m[1], m[0]), text)
    name = hashlib.sha256(text.encode()).hexdigest()[:12]
    d = f"{BUILD}/conf/{name}"
    write_if_changed(f"{d}/cppad/configure.hpp", text)
    return d


BASE_FLAGS = ["-std=c++17", "-g0", "-pthread", "-w", "-fno-strict-overflow"]


def compile_one(src, flags, conf, cxx="g++"):
    inc = ["-I", config_dir(conf), "-I", f"{REPO}/include", "-I", f"{HERE}/harness"]
    if not os.path.isabs(src):
        src = os.path.join(HERE, "harness", src)
    src = src.replace("/repo/", REPO.rstrip("/") + "/") if src.startswith("/repo/") else src
    cmd = [cxx] + BASE_FLAGS + flags + inc
    pre = subprocess.run(cmd + ["-E", "-P", src], capture_output=True)
    if pre.returncode:
        raise BuildError(pre.stderr.decode(errors="replace")[-4000:])
    h = hashlib.sha256(pre.stdout + repr((cxx, BASE_FLAGS, flags)).encode()).hexdigest()[:32]
    obj = f"{CACHE}/{h}.o"
    if not os.path.exists(obj):
        os.makedirs(CACHE, exist_ok=True)
        tmp = f"{CACHE}/{h}.{os.getpid()}.{threading.get_ident()}.o"
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True)
        if r.returncode:
            raise BuildError(r.stderr.decode(errors="replace")[-4000:])
        os.replace(tmp, obj)
    return obj


LIB_SRC = ["cpp_graph_op", "cppad_colpack", "csrc_writer", "json_lexer", "json_parser", "json_writer",
           "link_dll_lib", "temp_file"]


def build_bins(names, quiet=True):
    """Compile and link the named binaries; returns {name: path}."""
    jobs, want = {}, {}
    for n in names:
        b = BINS[n]
        flags = ["-O1"] + b.get("flags", [])
        conf = b.get("conf", {})
        objs = []
        for s in b["src"]:
            if isinstance(s, str):
                s = (s, [])
            objs.append((s[0], tuple(flags + s[1]), tuple(sorted(conf.items())), b.get("cxx", "g++")))
        if b.get("lib"):
            for s in LIB_SRC:
                objs.append((f"/repo/cppad_lib/{s}.cpp", tuple(b.get("lib_flags", flags)), tuple(sorted(conf.items())), b.get("cxx", "g++")))
        want[n] = objs
        for o in objs:
            jobs[o] = None
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {o: ex.submit(compile_one, o[0], list(o[1]), dict(o[2]), o[3]) for o in jobs}
        for o, f in futs.items():
            jobs[o] = f.result()
    out = {}

    def link(n):
        b = BINS[n]
        paths = [jobs[o] for o in want[n]]
        lf = [x for x in b.get("flags", []) if x.startswith("-fsanitize")] + b.get("link", [])
        h = hashlib.sha256(repr((paths, lf)).encode()).hexdigest()[:16]
        exe = f"{BUILD}/bin/{n}.{h}"
        if not os.path.exists(exe):
            os.makedirs(f"{BUILD}/bin", exist_ok=True)
            tmp = f"{exe}.{os.getpid()}"
            r = subprocess.run([b.get("cxx", "g++"), "-pthread"] + paths + ["-o", tmp] + lf, capture_output=True)
            if r.returncode:
                raise BuildError(r.stderr.decode(errors="replace")[-4000:])
            os.replace(tmp, exe)
        return exe
    with ThreadPoolExecutor(NCPU) as ex:
        for n, p in zip(names, ex.map(link, names)):
            out[n] = p
    return out


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3500",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0", TSAN_OPTIONS="exitcode=66:halt_on_error=0")


def read_cur(path):
    try:
        d = open(path, "rb").read()
        return d[:64].split(b"\0")[0].decode(), int.from_bytes(d[64:72], "little")
    except (OSError, ValueError):
        return "", 0


def run_proc(cmd, timeout, log, mem):
    def pre():
        import resource
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV, preexec_fn=pre, stdin=subprocess.DEVNULL,
                             cwd=os.path.dirname(log))
        try:
            return p.wait(timeout), False
        except subprocess.TimeoutExpired:
            return -9, True
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def tail(log, n=600):
    try:
        return open(log, "rb").read()[-n:].decode(errors="replace")
    except OSError:
        return ""


class Part:
    def __init__(self, spec, exe, tier, work, tag):
        self.spec, self.exe, self.tier, self.work, self.tag = spec, exe, tier, work, tag
        if spec.get("up"):      # cheap enough for the next level
            self.tier = {"quick": "thorough", "thorough": "deep"}[tier]
        self.n = spec.get("shards", SHARDS)
        self.mem = 0 if BINS[spec["bin"]].get("san") else spec.get("mem", 6)
        self.args = list(spec.get("args", []))
        self.hang = spec.get("hang", 20)

    def cmd(self, *more):
        return [self.exe, *self.args, "--tier", self.tier, "--hang", str(self.hang), *more]

    def one(self, i, timeout):
        base = f"{self.work}/{self.tag}.{i}"
        rc, late = run_proc(self.cmd("--shard", f"{i}/{self.n}", "--out", base + ".json", "--cur", base + ".cur"), timeout, base + ".log", self.mem)
        data = None
        if not late and rc in (0, 1):
            try:
                data = json.load(open(base + ".json"))
            except (OSError, ValueError):
                data = None
        cand = []
        if data is None:
            fam, idx = read_cur(base + ".cur")
            what = "timeout" if late else "hang" if rc == 97 else f"crash rc={rc}"
            cand.append({"family": fam, "idx": idx, "desc": "", "msg": f"{what}: {tail(base + '.log')}", "crash": True})
        else:
            cand = data["violations"]
        return i, data, cand

    def replay(self, family, idx):
        base = f"{self.work}/{self.tag}.replay"
        if os.path.exists(base + ".json"):
            os.remove(base + ".json")
        cmd = self.cmd("--only", f"{family}:{idx}", "--out", base + ".json", "--cur", base + ".cur", "-v")
        cmd[cmd.index("--hang") + 1] = str(2 * self.hang)
        rc, late = run_proc(cmd, 300, base + ".log", self.mem)
        msg = tail(base + ".log", 1500)
        desc = ""
        if rc in (0, 1) and not late:
            try:
                d = json.load(open(base + ".json"))
                if d["violations"]:
                    return True, d["violations"][0]["desc"], d["violations"][0]["msg"], cmd
                return False, "", "", cmd
            except (OSError, ValueError):
                pass
        m = re.search(r"^case (.*)$", msg, re.M)
        desc = m[1] if m else desc
        return True, desc, f"process ended with rc={rc}{' (time limit)' if late else ''}: {msg[-800:]}", cmd


def load_known(pid):
    """Lines 'known: property=ID | FAMILY DESCRIPTION | WHAT' of known_findings.txt; 'fixed:' lines suppress nothing."""
    out = []
    try:
        for line in open(f"{HERE}/known_findings.txt"):
            m = re.match(r"known: property=(\w+) \| (.*?) \| (.*)", line.strip())
            if m and m[1] == pid:
                out.append({"case": m[2], "what": m[3]})
    except OSError:
        pass
    return out


def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = f"{BUILD}/run/{pid}.{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    try:
        exes = build_bins(sorted({p["bin"] for p in c["parts"]}))
    except BuildError as e:
        print(f"ERROR: harness of {pid} does not build against {REPO}:\n{e}")
        return 2
    t_build = time.time() - t0
    limit = 780 if tier == "quick" else 6 * 3600
    agg = {k: 0 for k in ("evaluations", "nontrivial", "states", "transitions", "comparisons")}
    counters, families, samples, caps, outcomes = {}, {}, [], [], set()
    confirmed, unconfirmed, known_hit = [], [], {}
    known = load_known(pid)
    for np, spec in enumerate(c["parts"]):
        if spec.get("tier") and spec["tier"] != tier:
            continue
        part = Part(spec, exes[spec["bin"]], tier, work, f"p{np}")
        left = max(30, limit - (time.time() - t0))
        with ThreadPoolExecutor(part.n) as ex:
            results = list(ex.map(lambda i: part.one(i, left), range(part.n)))
        cands = []
        for i, data, cand in results:
            if data:
                for k in agg:
                    agg[k] += data[k]
                for k, v in data["counters"].items():
                    counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
                pre = spec.get("name", "")
                for k, v in data["families"].items():
                    k = f"{pre}{k}"
                    families[k] = families.get(k, 0) + v
                samples += data["samples"]
                caps += data["caps"]
                outcomes.update(data["outcomes"])
            cands += [(i, v) for v in cand]
        seen = set()
        fresh = []
        for i, v in sorted(cands, key=lambda x: (x[1]["family"], x[1]["idx"])):
            key = (v["family"], v["idx"])
            if key in seen:
                continue
            seen.add(key)
            k = next((k for k in known if k["case"] == f"{v['family']} {v['desc']}"), None)
            if k:
                known_hit[k["case"]] = k
                continue
            fresh.append((i, v))
        for i, v in fresh[:4]:
            ok, desc, msg, cmd = part.replay(v["family"], v["idx"])
            how = "single case"
            if not ok:
                j, data2, cand2 = part.one(i, left)   # history dependent: the whole shard again
                hit = next((w for w in cand2 if (w["family"], w["idx"]) == (v["family"], v["idx"])), None)
                if hit:
                    ok, desc, msg, how = True, hit["desc"] or v["desc"], hit["msg"], f"shard {i}/{part.n} up to this case"
                    cmd = part.cmd("--shard", f"{i}/{part.n}")
            (confirmed if ok else unconfirmed).append(dict(
                property=pid, bin=spec["bin"], args=part.args, tier=tier, family=v["family"], idx=v["idx"],
                case=desc or v["desc"], message=msg or v["msg"], reproduced_by=how, cmd=cmd))
    rc = 0
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{k['case']}]")
    if confirmed:
        os.makedirs(f"{BUILD}/replay", exist_ok=True)
        for n, v in enumerate(confirmed):
            path = f"{BUILD}/replay/{pid}.{n}.json"
            json.dump(v, open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  case {v['family']}:{v['idx']} {v['case'][:600]}\n  {v['message'][:900]}")
        rc = 1
    elif unconfirmed:
        print(f"ERROR: {len(unconfirmed)} failures of {pid} did not reproduce: {json.dumps(unconfirmed[0])[:1500]}")
        rc = 3
    lev = c["level"]
    cov = {
        "evaluations": agg["evaluations"], "distinct_nontrivial": agg["nontrivial"],
        "rule": c["rule"], "samples": samples[:12], "comparisons": agg["comparisons"],
        "distinct_outcomes": len(outcomes), "families": families, "counters": counters,
        "exhaustive": not caps, "caps": caps[:10], "build_s": round(t_build, 1),
    }
    if lev == "model_checking":
        cov["states"] = agg["states"]
        cov["transitions"] = agg["transitions"]
        cov["traces_validated_against_impl"] = agg["evaluations"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lev, "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(confirmed)}
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {agg['evaluations']} cases, {agg['nontrivial']} nontrivial, {agg['comparisons']} comparisons, "
          f"states={agg['states']} transitions={agg['transitions']}, {len(outcomes)} outcomes, build {t_build:.1f}s, total {time.time()-t0:.1f}s"
          + (f", caps: {caps[:3]}" if caps else ""))
    if agg["evaluations"] == 0 and rc == 0:
        print("ERROR: nothing explored")
        rc = 2
    if rc == 0:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def manifest():
    from props import P
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for v in P.values():
            f.write(json.dumps(v) + "\n")
    m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": [],
         "notes": "All checks: python3 vf.py check ID [--thorough]; see DESIGN.md."}
    for i in sorted(P):
        if i in CHECKS:
            c = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": f"python3 vf.py check {i}", "thorough_cmd": f"python3 vf.py check {i} --thorough",
                                "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
        else:
            m["not_applicable"].append({"property": i, "reason": "No sound check has been built for it (yet); nothing is claimed."})
    json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "manifest":
        return manifest()
    if a[0] == "setup":
        try:
            build_bins(sorted({p["bin"] for c in CHECKS.values() for p in c["parts"]}))
        except BuildError as e:
            print(e)
            return 1
        print("setup: all harnesses built")
        return 0
    if a[0] == "build":
        try:
            print(build_bins(sorted({p["bin"] for i in a[1:] for p in CHECKS[i]["parts"]})))
        except BuildError as e:
            print(e)
            return 2
        return 0
    if a[0] == "replay":
        v = json.load(open(a[1]))
        exe = build_bins([v["bin"]])[v["bin"]]
        cmd = [exe] + v["cmd"][1:]
        print(" ".join(cmd))
        return subprocess.run(cmd, env=ENV).returncode
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in a:
            tier = "thorough"
        return check(a[1], tier)
    return 2


if __name__ == "__main__":
    sys.exit(main())
