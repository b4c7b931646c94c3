#!/usr/bin/env python3
"""Runs the static checks of one property (or several) against /repo's current tree.

  check.py setup          build the analyzer and warm the dependency builds
  check.py ID             decide property ID
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = 8
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class Broken(Exception):
    pass


def cargo(args, env, what):
    e = dict(os.environ)
    e.update(env)
    e.pop("RUSTC_WRAPPER", None)
    r = sh(["cargo", "+nightly", *args, "--offline", "--message-format=json"], env=e)
    arts = {}
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            arts[m["target"]["name"].replace("-", "_")] = m
    if r.returncode != 0:
        errs = [l for l in r.stderr.splitlines() if l.strip()]
        msgs = []
        for line in r.stdout.splitlines():
            if '"compiler-message"' in line and '"level":"error"' in line:
                try:
                    msgs.append(json.loads(line)["message"]["rendered"])
                except Exception:
                    pass
        raise Broken("%s does not build:\n%s\n%s" % (what, "\n".join(msgs)[:4000], "\n".join(errs[-30:])))
    return arts


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(features=()):
    """The analyzer, and the repository's crate with the code of every function kept."""
    with Lock():
        a = cargo(["build", "--release", "--manifest-path", VERIF + "/analyzer/Cargo.toml",
                   "--target-dir", TARGET + "/analyzer"], {}, "the analyzer")
        exe = a["analyzer"]["executable"]
        # one build folder per content of the tree: file times play no part
        h = hashlib.sha256()
        files = sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock"]
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        h.update(",".join(features).encode())
        mine = TARGET + "/repo-" + h.hexdigest()[:16]
        for d in glob.glob(TARGET + "/repo-*"):
            if d != mine and time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
        r = cargo(["build", "--lib", "--manifest-path", REPO + "/Cargo.toml", "--target-dir", mine,
                   *(["--features", ",".join(features)] if features else [])],
                  {"RUSTFLAGS": "-Zalways-encode-mir -Zmir-enable-passes=-CheckAlignment,-CheckNull -Awarnings"}, "the repository")

        def rmeta(n):
            return [f for f in r[n]["filenames"] if f.endswith(".rmeta")][0]
        lib = rmeta("normalize_interval")
        deps = sorted({os.path.dirname(f) for n, m in r.items() for f in m["filenames"]})
    options = []
    for f in features:
        options += ["--cfg", f, "--extern", f + "=" + rmeta(f)]
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    return exe, lib, deps, sysroot, options


def analyze(built, harness, shard, secs, contracts, out, source=None, small=0):
    """The analyzer's results for a harness, or for several given as a list."""
    exe, lib, deps, sysroot, options = built
    many = harness if isinstance(harness, list) else [harness]
    harness = ",".join(many)
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["SPEC_RUN"] = harness
    env["SPEC_OUT"] = out
    env["SPEC_SECS"] = str(secs)
    env["SPEC_SMALL"] = str(small)
    env["SPEC_CONTRACTS"] = ";".join("%s=>%s" % c for c in contracts)
    if shard:
        env["SPEC_SHARD"] = "%d/%d" % shard
    else:
        env.pop("SPEC_SHARD", None)
    cmd = [exe, "--edition", "2021", "--crate-type", "lib", "--crate-name", "spec", source or VERIF + "/spec/src/lib.rs",
           "--extern", "normalize_interval=" + lib, "-Zalways-encode-mir", "-A", "warnings",
           "--out-dir", os.path.dirname(out), *options]
    for d in deps:
        cmd += ["-L", "dependency=" + d]
    try:
        r = sh(cmd, env=env, timeout=secs * 2 + 60)
    except subprocess.TimeoutExpired:
        return [{"harness": h, "failed": "no answer within %d s" % (secs * 2 + 60)} for h in many]
    if r.returncode != 0 or not os.path.exists(out):
        return [{"harness": h, "failed": "analyzer ended with %d: %s" % (r.returncode, r.stderr[-1500:])} for h in many]
    return json.load(open(out))


def harness_names():
    names = []
    for f in sorted(glob.glob(VERIF + "/spec/src/*.rs")):
        # written out, or listed as `name: type;` for a macro
        names += re.findall(r"(?:pub fn |^    )(h_[A-Z]\d\d_\w+)\s*[(:]", open(f).read(), re.M)
    return names


def known(prop):
    keys = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] ?(.*)", l)
            if m and m.group(1) == prop:
                keys.append((m.group(2), m.group(3).strip()))
    return keys


def check(prop):
    t0 = time.time()
    spec = plan.PLAN.get(prop, {})
    tmp = os.path.join(TARGET, "run-%s-%d" % (prop, os.getpid()))
    ev_dir = os.environ.get("CHECK_EV") or os.path.join(VERIF, "evidence")
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    for f in glob.glob(os.path.join(ev_dir, "replay", prop + "-*")):
        os.remove(f)
    reports, incomplete, samples = [], [], []
    functions, checks, reached = {}, {}, {}
    tot = dict(states=0, steps=0, merged=0, paths=0, pruned=0, forks=0)
    harnesses, small = [], {}
    confirmed, refuted, gen = set(), {}, set()
    source, made, rule_results = None, [], []
    if spec.get("rules") or spec.get("mir", True):
        built = build(spec.get("features", ()))
    if spec.get("rules"):
        import rules
        for rule in spec["rules"]:
            rr = getattr(rules, rule)(built, tmp)
            rule_results.append((rule, rr))
            if rr.get("harnesses"):
                source, made, left_out = rules.generate(built, tmp, rr["harnesses"])
                incomplete += left_out
    if spec.get("mir", True):
        names = [n for n in harness_names() if n.startswith("h_%s_" % prop)]
        if not names and not made:
            raise Broken("no harness for " + prop)
        secs = spec.get("secs", 240) if TIER != "thorough" else spec.get("thorough_secs", 700)
        per = {}
        todo, done, weak = list(names), set(), set()
        while todo or made:
            jobs = []
            for n in todo:
                done.add(n)
                k = plan.SHARDS.get(n, 1)
                for i in range(k):
                    jobs.append((n, (i, k) if k > 1 else None, plan.CONTRACTS.get(n, [])))
            # long ones first
            jobs.sort(key=lambda j: -(j[1][1] if j[1] else 0))
            # the generated ones are small and many
            own = [n for n in made if n in plan.CONTRACTS]
            jobs += [([n], None, plan.CONTRACTS[n]) for n in own]
            done.update(own)
            gen.update(own)
            made = [n for n in made if n not in own]
            for i in range(CORES):
                some = made[i::CORES]
                if some:
                    jobs.append((some, None, plan.SELECTION))
                    done.update(some)
                    gen.update(some)
            made = []
            with cf.ThreadPoolExecutor(CORES) as ex:
                left = secs if TIER == "thorough" else max(30, int(min(secs, 700 - (time.time() - t0))))
                futs = [ex.submit(analyze, built, n, s, left, c, os.path.join(tmp, "out.%d.json" % k),
                                  source if isinstance(n, list) else None)
                        for k, (n, s, c) in enumerate(jobs)]
                results = [f.result() for f in futs]
            more = []
            for n, s, r in [(r["harness"], s, r) for (_, s, _), rs in zip(jobs, results) for r in rs]:
                if r.get("missing"):
                    raise Broken("harness %s not found" % n)
                if "failed" in r:
                    incomplete.append("%s: %s" % (n, r["failed"]))
                    weak.add(n)
                    continue
                if r["exhausted"] or r["incomplete"]:
                    weak.add(n)
                h = per.setdefault(n, dict(harness=n, states=0, checks=0, reached={}, secs=0.0, shards=0, max_markers=0,
                                           summaries=[]))
                h["states"] += r["states"]
                h["checks"] += sum(r["checks"].values())
                h["secs"] = round(max(h["secs"], r["secs"]), 2)
                h["shards"] += 1
                h["max_markers"] = max(h["max_markers"], r["max_markers"])
                h["summaries"] = sorted(set(h["summaries"]) | set(r["contracts"]))
                # what the summaries used here say is proved along with it
                more += plan.lemmas(n, r["contracts"])
                for k in tot:
                    tot[k] += r[k]
                for k, v in r["checks"].items():
                    checks[n + ": " + k] = checks.get(n + ": " + k, 0) + v
                for k, v in r["reached"].items():
                    h["reached"][k] = h["reached"].get(k, 0) + v
                    reached[n + ": " + k] = reached.get(n + ": " + k, 0) + v
                for k, v in r["functions"].items():
                    f = functions.setdefault(k, dict(blocks=0, of=v[1], at=v[2]))
                    f["blocks"] = max(f["blocks"], v[0])
                if r["exhausted"]:
                    incomplete.append("%s%s: exploration stopped after %d states" % (n, " shard %d/%d" % s if s else "", r["states"]))
                for k, v in r["incomplete"].items():
                    incomplete.append("%s: %s (%d paths)" % (n, k, v))
                for x in r["reports"]:
                    reports.append((n, x))
            todo = sorted(set(more) - done)
        for n in sorted(done):
            if n in per and not per[n]["reached"] and not any(r[0] == n for r in reports):
                incomplete.append("%s: its end was not reached" % n)
        def spelled(names, markers, left):
            """The harnesses' results for sets of few markers, without summaries, by name."""
            k = max(1, CORES // len(names))
            jobs = [(n, (i, k) if k > 1 else None) for n in names for i in range(k)]
            with cf.ThreadPoolExecutor(CORES) as ex:
                futs = [ex.submit(analyze, built, n, s, left, plan.models(n), os.path.join(tmp, "small.%d.json" % j),
                                  source if n in gen else None, markers)
                        for j, (n, s) in enumerate(jobs)]
                results = [(j[0], r) for j, f in zip(jobs, futs) for r in f.result()]
            by = {}
            for n, r in results:
                by.setdefault(n, []).append(r)
                if "failed" not in r and not r.get("missing"):
                    small[n] = small.get(n, 0) + r["states"]
            return by

        def time_left():
            return int(min(secs, 780 - (time.time() - t0)))

        # what could not be decided for sets of any size is looked at for small
        # ones, without summaries: that finds violations, and decides nothing
        weak = sorted(n for n in weak if n in done and n not in plan.NOT_SMALL
                      and not any(r[0] == n for r in reports))[:CORES]
        if weak and not reports and time_left() > 20:
            for n, rs in spelled(weak, plan.SMALL, time_left()).items():
                reports += [(n, x) for r in rs for x in r.get("reports", [])]
                confirmed.update(n for r in rs if r.get("reports"))
        # a violation seen where sets are summarised is a violation unless no
        # set spelled out in full shows it: then the summaries were too coarse
        for markers, most in plan.CONFIRM:
            doubt = sorted({n for n, _ in reports if n in per and (per[n]["max_markers"] or per[n]["summaries"]) and n not in plan.NOT_SMALL} - confirmed)
            if confirmed or not doubt or len(doubt) > CORES or time_left() <= 20:
                break
            for n, rs in spelled(doubt, markers, min(most, time_left())).items():
                if any(r.get("reports") for r in rs):
                    confirmed.add(n)
                elif all("failed" not in r and not r.get("missing") and not r["exhausted"] and not r["incomplete"] for r in rs):
                    refuted[n] = markers
                elif n not in refuted:
                    confirmed.add(n)
        if not confirmed:
            for n, markers in sorted(refuted.items()):
                for _, x in [r for r in reports if r[0] == n]:
                    incomplete.append("%s: %s: the summaries of sets say too little, and no set of at most %d markers shows it"
                                      % (n, x["what"], markers))
                reports = [r for r in reports if r[0] != n]
        harnesses = list(per.values())
        if not checks and not reports and not incomplete:
            raise Broken("nothing was checked")
    for rule, rr in rule_results:
        for k, v in rr["checks"].items():
            checks[rule + ": " + k] = checks.get(rule + ": " + k, 0) + v
        for x in rr["reports"]:
            reports.append((rule, x))
        incomplete += [rule + ": " + i for i in rr["incomplete"]]
        harnesses.append(dict(harness=rule, analysed=rr.get("calls"), iterators=rr.get("steps"), left_to_other_properties=rr.get("skipped")))
    # ---- outcome
    kn = known(prop)
    bad, quiet = [], []
    seen = set()
    for n, x in reports:
        # a summary that does not hold says nothing about this property
        if spec.get("only") and not x["what"].startswith(spec["only"]):
            incomplete.append("%s: %s: what relies on it is not decided here" % (n, x["what"]))
            continue
        key = n + " " + x["key"]
        if key in seen:
            continue
        seen.add(key)
        hit = [d for k, d in kn if k == key]
        if hit:
            quiet.append((key, hit[0]))
        else:
            bad.append((key, n, x))
    for key, d in quiet:
        print("KNOWN-FINDING: property=%s %s" % (prop, d or key))
    for i, (key, n, x) in enumerate(bad):
        p = os.path.join(ev_dir, "replay", "%s-%d.txt" % (prop, i))
        with open(p, "w") as f:
            f.write("property %s, %s\n%s\n\n%s\n" % (prop, n, x["what"], x["text"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s: %s" % (n, x["what"]))
        for l in x["text"].splitlines()[:12]:
            print("    " + l)
    incomplete = sorted(set(incomplete))
    for l in incomplete[:40]:
        print("INCOMPLETE %s" % l[:400])
    for k in sorted(functions)[:3]:
        samples.append("%s at %s: %d of %d blocks" % (k, functions[k]["at"], functions[k]["blocks"], functions[k]["of"]))
    for h in harnesses[:3]:
        samples.append(json.dumps(h))
    oblig = sum(checks.values())
    ev = dict(
        property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="other",
        coverage=dict(
            explanation=plan.explain(prop),
            obligations_evaluated=oblig,
            obligation_kinds=checks,
            harnesses=harnesses,
            abstract_states=tot["states"], abstract_steps=tot["steps"], merged_states=tot["merged"],
            finished_paths=tot["paths"], infeasible_splits=tot["pruned"],
            functions_analysed=functions,
            functions_count=len(functions),
            blocks_analysed=sum(f["blocks"] for f in functions.values()),
            undecided=incomplete,
            looked_at_for_small_sets_only=small,
            exhaustive=not incomplete,
            samples=samples,
        ),
        assumptions=plan.ASSUMPTIONS,
        violations=len(bad),
        wall_s=round(time.time() - t0, 2),
    )
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print("%s: %d obligations, %d states, %d functions, %d undecided, %d violations, %.1f s" % (
        prop, oblig, tot["states"], len(functions), len(incomplete), len(bad), time.time() - t0))
    return 1 if bad else 0


def main():
    if sys.argv[1] == "setup":
        build()
        build(("serde",))
        print("ready")
        return 0
    rc = 0
    for p in sys.argv[1:]:
        rc |= check(p)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR: %s" % e)
        sys.exit(2)
