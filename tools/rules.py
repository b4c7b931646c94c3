"""Rules over the type-checked crate, and the harnesses they ask for."""
import json, os, re, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def crate(built, tmp, features=(), every=False):
    """Compiles the crate with the analyzer in the compiler's place."""
    exe, _, _, sysroot, _ = built
    out = os.path.join(tmp, "rules.json")
    env = dict(os.environ, RULES_OUT=out, LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=exe)
    env.pop("RUSTC_WRAPPER", None)
    env.pop("RULES_ALL", None)
    if every:
        env["RULES_ALL"] = "1"
    env["RUSTFLAGS"] = "-Awarnings"
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", REPO + "/Cargo.toml",
           "--target-dir", os.path.join(tmp, "crate")]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        return dict(checks={}, reports=[], incomplete=["the crate was not looked at: " + r.stderr[-800:]], calls=[], steps=[], harnesses={})
    return json.load(open(out))


def encapsulation(built, tmp):
    return crate(built, tmp)


def operations(built, tmp):
    return crate(built, tmp, every=True)


def generate(built, tmp, harnesses):
    """A copy of the specification crate's root with the harnesses added;
    those that do not compile are left out and named."""
    exe, lib, deps, sysroot, options = built
    root = open(VERIF + "/spec/src/lib.rs").read()
    root = re.sub(r"^pub mod (\w+);", lambda m: '#[path = "%s/spec/src/%s.rs"]\npub mod %s;' % (VERIF, m.group(1), m.group(1)), root, flags=re.M)
    src, made = os.path.join(tmp, "lib.rs"), os.path.join(tmp, "made.rs")
    with open(src, "w") as f:
        f.write(root + '#[path = "%s"]\npub mod made;\n' % made)
    left, out = dict(harnesses), []
    while True:
        lines = ["use crate::rt::*;", "use crate::surface::*;"]
        at = {}
        for h, code in left.items():
            for l in ("pub fn %s() {\n%s}" % (h, code)).split("\n"):
                lines.append(l)
                at[len(lines)] = h
        with open(made, "w") as f:
            f.write("\n".join(lines) + "\n")
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", SPEC_RUN="", SPEC_OUT=os.path.join(tmp, "none.json"))
        cmd = [exe, "--edition", "2021", "--crate-type", "lib", "--crate-name", "spec", src, "--error-format=short",
               "--extern", "normalize_interval=" + lib, "-A", "warnings", "--out-dir", tmp, *options]
        for d in deps:
            cmd += ["-L", "dependency=" + d]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode == 0:
            return src, list(left), out
        bad = {}
        for m in re.finditer(r"made\.rs:(\d+):\d+: (error.*)", r.stderr):
            h = at.get(int(m.group(1)))
            if h:
                bad.setdefault(h, m.group(2))
        if not bad:
            return None, [], out + ["no harness could be generated: " + r.stderr[-400:]]
        for h, e in bad.items():
            del left[h]
            out.append("%s is not analysed: %s" % (h, e))
