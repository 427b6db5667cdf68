#!/usr/bin/env python3
"""Property-based checks for /repo: build, generate, judge, shrink, report.

  check.py C01 [C02 ...]      run the checks of these properties
  check.py replay FILE        run the case of a replay file
  check.py setup              build everything once (warms the object cache)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit status: 0 the property held on every case, 1 a VIOLATION line was
printed, 2 the check itself could not run.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(1, min(8, os.cpu_count() or 1))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

VARIANTS = {
    "opt": ["g++", "-std=c++20", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["clang++", "-std=c++20", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "fuzz": ["clang++", "-std=c++20", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined,float-cast-overflow,fuzzer-no-link",
             "-fno-sanitize-recover=all", "-DPBT_FUZZ"],
}
COMMON = ["pbt.cpp", "sim.cpp", "lattice.cpp", "main.cpp"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class Builder:
    """Compiles the sources of the working tree with the harness."""

    def __init__(self):
        srcs = sorted(glob.glob(os.path.join(REPO, "soil_simulator", "*.[ch]pp")) +
                      glob.glob(os.path.join(REPO, "soil_simulator", "*.h")))
        if not srcs:
            raise SystemExit2("no sources under %s" % REPO)
        content = {os.path.basename(s): read(s) for s in srcs}
        self.key = sha(*[x for k in sorted(content) for x in (k, content[k])])
        self.tree = os.path.join(BUILD, "src", self.key)
        dst = os.path.join(self.tree, "soil_simulator")
        if not os.path.isdir(dst):
            tmp = tempfile.mkdtemp(dir=self._mk(os.path.join(BUILD, "src")))
            os.mkdir(os.path.join(tmp, "soil_simulator"))
            for k, v in content.items():
                with open(os.path.join(tmp, "soil_simulator", k), "wb") as f:
                    f.write(v)
            try:
                os.rename(tmp, self.tree)
            except OSError:
                shutil.rmtree(tmp)
        self.repo_headers = sha(*[x for k in sorted(content) if k.endswith(("hpp", "h"))
                                  for x in (k, content[k])])
        self.repo_cpp = [k for k in sorted(content)
                         if k.endswith(".cpp") and k != "main.cpp"]
        self.content = content
        self.har_headers = sha(*[read(h) for h in
                                 sorted(glob.glob(os.path.join(HARNESS, "*.hpp")))])

    @staticmethod
    def _mk(d):
        os.makedirs(d, exist_ok=True)
        return d

    def objects(self, variant, own):
        """[(object, command)] for the repo sources and the harness sources."""
        flags = VARIANTS[variant]
        odir = self._mk(os.path.join(BUILD, "obj"))
        out = []
        for k in self.repo_cpp:
            key = sha("repo", k, flags, self.repo_headers, self.content[k])
            o = os.path.join(odir, key + ".o")
            # a relative path: the simulator derives its output folder from it
            out.append((o, flags + ["-I.", "-c", "soil_simulator/" + k, "-o"]))
        for k in COMMON + own:
            key = sha("har", k, flags, self.repo_headers, self.har_headers,
                      read(os.path.join(HARNESS, k)))
            o = os.path.join(odir, key + ".o")
            out.append((o, flags + ["-I.", "-I" + HARNESS, "-c",
                                    os.path.join(HARNESS, k), "-o"]))
        return out

    def build(self, wanted):
        """wanted: {(variant, tuple(own sources))}; returns {key: binary}."""
        todo, bins = {}, {}
        for variant, own in wanted:
            objs = self.objects(variant, list(own))
            bins[(variant, own)] = objs
            for o, cmd in objs:
                if not os.path.exists(o):
                    todo[o] = cmd

        def compile_one(item):
            o, cmd = item
            tmp = "%s.%d.tmp" % (o, os.getpid())
            p = subprocess.run(cmd + [tmp], cwd=self.tree, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                return p.stdout[-3000:]
            os.rename(tmp, o)
            return None

        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            # the largest first
            items = sorted(todo.items(), key=lambda it: "prop_" not in " ".join(it[1]))
            for err in ex.map(compile_one, items):
                if err:
                    raise SystemExit2("compilation failed:\n" + err)
        res = {}
        bdir = self._mk(os.path.join(BUILD, "bin"))
        for key, objs in bins.items():
            b = os.path.join(bdir, sha(key[0], [o for o, _ in objs]))
            if not os.path.exists(b):
                flags = VARIANTS[key[0]]
                tmp = "%s.%d.tmp" % (b, os.getpid())
                p = subprocess.run(flags + [o for o, _ in objs] + ["-lglog", "-o", tmp],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True)
                if p.returncode != 0:
                    raise SystemExit2("link failed:\n" + p.stdout[-3000:])
                os.rename(tmp, b)
            res[key] = b
        return res


class SystemExit2(Exception):
    pass


def prune():
    """Keeps the object cache small."""
    for sub, keep in (("obj", 400), ("bin", 60), ("src", 6)):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        for f in fs[:-keep] if len(fs) > keep else []:
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)


def known_ids():
    ids = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m:
                ids[(m.group(1), m.group(2))] = m.group(3).strip()
    return ids


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:"
                        "allocator_may_return_null=1:quarantine_size_mb=8",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")


def scratch(run, name):
    """A working folder for a worker: the output folder is relative to it."""
    d = os.path.join(run, name)
    os.makedirs(os.path.join(d, "soil_simulator"))
    os.makedirs(os.path.join(d, "results"))
    return d


def run_cmd(cmd, cwd, timeout=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")


def describe_rc(rc):
    if rc == 77:
        return "hang: the case used up its CPU-time limit"
    if rc == 99:
        return "sanitizer report"
    if rc is not None and rc < 0:
        return "killed by signal %d" % -rc
    return "exit status %s" % rc


class Part:
    """One generated property of a check, run in shards."""

    def __init__(self, pid, name, binary, count, seed, run):
        self.pid, self.name, self.binary = pid, name, binary
        self.count, self.seed, self.run = count, seed, run
        self.err = None

    def shard(self, k, deadline):
        out = os.path.join(self.run, "%s.%d" % (self.name, k))
        cwd = scratch(self.run, "%s.w%d" % (self.name, k))
        cmd = [self.binary, "run", self.name, str(self.seed), str(k),
               str(self.count), str(JOBS), out]
        rc, log = run_cmd(cmd, cwd, timeout=max(5, deadline - time.time()))
        return k, rc, log, out

    def collect(self, results):
        ev = dict(evaluations=0, discards=0, nontrivial=0, labels={}, maxima={},
                  known={}, samples=[], timeouts=0)
        hashes = set()
        fails = []
        for k, rc, log, out in results:
            if rc is None:
                ev["timeouts"] += 1
                # the shared tape tells how far the shard came
                idx, _ = self.shm(out)
                ev["evaluations"] += max(0, (idx - k) // JOBS)
                continue
            if os.path.exists(out + ".json"):
                j = json.load(open(out + ".json"))
                for f in ("evaluations", "discards", "nontrivial"):
                    ev[f] += j[f]
                for n, (s, c) in j["labels"].items():
                    a = ev["labels"].setdefault(n, [0, 0])
                    a[0] += s
                    a[1] += c
                for n, v in j["maxima"].items():
                    ev["maxima"][n] = max(v, ev["maxima"].get(n, v))
                for n, (c, m) in j["known"].items():
                    a = ev["known"].setdefault(n, [0, m])
                    a[0] += c
                ev["samples"] += j["samples"]
                h = read(out + ".hash")
                hashes.update(struct.unpack("<%dQ" % (len(h) // 8), h))
            if rc == 0:
                continue
            if rc == 1 and os.path.exists(out + ".fail"):
                m = open(out + ".failmsg").read().split("\n", 1)
                fails.append((int(m[0]), m[1].strip(), open(out + ".fail").read()))
            elif rc == 2:
                raise SystemExit2("%s: %s" % (self.name, log[-2000:]))
            else:
                idx, tape = self.shm(out)
                msg = describe_rc(rc) + "\n" + log[-2500:]
                fails.append((idx, msg.strip(), " ".join(map(str, tape))))
        ev["distinct"] = len(hashes)
        return ev, sorted(fails)

    @staticmethod
    def shm(out):
        try:
            d = open(out + ".shm", "rb")
        except OSError:
            return -1, []
        idx, n = struct.unpack("<qI", d.read(12))
        raw = d.read(4 * n)
        return idx, list(struct.unpack("<%dI" % n, raw))

    def replay(self, tape_file, quiet=False):
        cwd = tempfile.mkdtemp(dir=self.run)
        os.makedirs(os.path.join(cwd, "soil_simulator"))
        os.makedirs(os.path.join(cwd, "results"))
        return run_cmd([self.binary, "replay", self.name, tape_file] +
                       (["quiet"] if quiet else []), cwd, timeout=300)

    def sequence(self, idx, tag):
        cwd = scratch(self.run, "%s.s%s" % (self.name, tag))
        out = os.path.join(self.run, "%s.seq%s" % (self.name, tag))
        return run_cmd([self.binary, "run", self.name, str(self.seed),
                        str(idx % JOBS), str(idx + 1), str(JOBS), out], cwd,
                       timeout=600)

    def report(self, fail, variant):
        """Shrinks and writes the replay file; None when not reproducible."""
        idx, msg, tape = fail
        rdir = os.path.join(BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        raw = os.path.join(self.run, self.name + ".rawtape")
        with open(raw, "w") as f:
            f.write(tape)
        final = os.path.join(rdir, "%s-seed%d-%d.replay" % (self.name, self.seed, idx))

        def bad(rc):
            return rc not in (0, 3)

        mode = "tape"
        n = sum(bad(self.replay(raw, True)[0]) for _ in range(3))
        if n == 0:
            mode = "sequence"
            n = sum(bad(self.sequence(idx, t)[0]) for t in range(3))
            if n == 0:
                return None
        best = raw
        if mode == "tape" and n == 3:
            small = os.path.join(self.run, self.name + ".small")
            cwd = scratch(self.run, self.name + ".shrink")
            run_cmd([self.binary, "shrink", self.name, raw, small, "1500"], cwd,
                    timeout=120)
            if os.path.exists(small) and bad(self.replay(small, True)[0]):
                best = small
        with open(final, "w") as f:
            f.write("#property %s\n#variant %s\n#mode %s\n#seed %d\n#index %d\n#jobs %d\n"
                    % (self.name, variant, mode, self.seed, idx, JOBS))
            f.write("#reproduced %d of 3\n" % n)
            rc, log = self.replay(best) if mode == "tape" else (1, "")
            text = (log if bad(rc) and mode == "tape" else msg)[:6000]
            if mode == "tape" and rc not in (1,):
                text += "\n" + describe_rc(rc)
            for line in (text + "\nfirst seen as: " + msg[:1500]).splitlines():
                f.write("# " + line + "\n")
            f.write(read(best).decode() if mode == "tape" else tape)
        return final, text


def check(pid, seed, tier, builder):
    t0 = time.time()
    spec = CHECKS[pid]
    parts_spec = spec["parts"]
    keys = {}
    for p in parts_spec:
        keys[p["name"]] = (p.get("variant", "opt"), tuple(p.get("src", spec["src"])))
    bins = builder.build(set(keys.values()))
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    run = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(BUILD, "run"))
    t_build = time.time() - t0
    deadline = t0 + (600 if tier == "quick" else 780)
    violations, total = [], dict(evaluations=0, distinct=0, discards=0)
    known_seen, cov_parts, samples = {}, {}, []
    known = known_ids()
    try:
        parts = []
        for p in parts_spec:
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            n = int(p[tier] * scale) if tier in p else 0
            if n <= 0:
                continue
            part = Part(pid, p["name"], bins[keys[p["name"]]], n, seed, run)
            part.variant = keys[p["name"]][0]
            parts.append(part)
        # all the shards of all the parts share the workers
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = {}
            for part in parts:
                futs[part.name] = [ex.submit(part.shard, k, deadline)
                                   for k in range(JOBS)]
            for part in parts:
                res = [f.result() for f in futs[part.name]]
                ev, fails = part.collect(res)
                for kid, (c, m) in ev["known"].items():
                    if (pid, kid) in known:
                        known_seen[kid] = known_seen.get(kid, 0) + c
                    else:
                        fails.append((0, "not a listed finding: %s: %s" % (kid, m), ""))
                for f in ("evaluations", "discards"):
                    total[f] += ev[f]
                total["distinct"] += ev["distinct"]
                cov_parts[part.name] = {
                    "evaluations": ev["evaluations"], "discards": ev["discards"],
                    "distinct_nontrivial": ev["distinct"],
                    "classes": {k: {"total": v[0], "cases": v[1]}
                                for k, v in sorted(ev["labels"].items())},
                    "maxima": ev["maxima"], "shards_cut_by_deadline": ev["timeouts"]}
                samples += ev["samples"][:2]
                if fails:
                    violations.append((part, fails))
        lines = []
        for part, fails in violations:
            done = None
            for f in fails[:3]:
                done = part.report(f, part.variant)
                if done:
                    break
            if done is None:
                raise SystemExit2("%s: a failure could not be reproduced: %s"
                                  % (part.name, fails[0][1][:1500]))
            print("---- %s\n%s" % (part.name, done[1]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, done[0]))
    finally:
        shutil.rmtree(run, ignore_errors=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": total["distinct"],
            "rule": spec["rule"],
            "samples": samples[:8],
            "discarded": total["discards"],
            "parts": cov_parts,
            "build_s": round(t_build, 2),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d cases (%d discarded), %d distinct non-trivial, "
          "%.1f s (build %.1f s)" % (pid, tier, seed, total["evaluations"],
                                    total["discards"], total["distinct"],
                                    time.time() - t0, t_build))
    for kid, n in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases): %s"
              % (pid, kid, n, known[(pid, kid)]))
    for line in lines:
        print(line)
    sys.stdout.flush()
    if not lines and total["evaluations"] == 0:
        raise SystemExit2("no case was evaluated")
    return 1 if lines else 0


def replay(path, builder):
    path = os.path.abspath(path)
    head = dict(re.findall(r"^#(\w+) (.*)$", open(path).read(), re.M))
    name, variant = head["property"], head["variant"]
    pid = name.split(".")[0]
    spec = CHECKS[pid]
    part = [p for p in spec["parts"] if p["name"] == name][0]
    key = (variant, tuple(part.get("src", spec["src"])))
    binary = builder.build({key})[key]
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    run = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(BUILD, "run"))
    try:
        p = Part(pid, name, binary, 0, int(head["seed"]), run)
        if head["mode"] == "tape":
            rc, log = p.replay(path)
        else:
            rc, log = p.sequence(int(head["index"]), 0)
        print(log)
        if rc not in (0, 3):
            print(describe_rc(rc))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    finally:
        shutil.rmtree(run, ignore_errors=True)


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        builder = Builder()
        if argv[0] == "setup":
            wanted = set()
            for spec in CHECKS.values():
                for p in spec["parts"]:
                    wanted.add((p.get("variant", "opt"), tuple(p.get("src", spec["src"]))))
            builder.build(wanted)
            print("built %d binaries" % len(wanted))
            return 0
        if argv[0] == "replay":
            return replay(argv[1], builder)
        rc = 0
        for pid in argv:
            rc = max(rc, check(pid, seed, tier, builder))
        return rc
    except SystemExit2 as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        try:
            prune()
        except OSError:
            pass


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
