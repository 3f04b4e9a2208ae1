"""Builds LLVM IR of the harness + /repo's current tree, the engine and the native replayer."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(kw)
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(map(str, cmd))[:300], r.stdout[-4000:]))
    return r.stdout


def lock():
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


_tools = None


def llvm(name):
    global _tools
    if _tools is None:
        root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env()).stdout.strip()
        _tools = os.path.join(root, "lib/rustlib", TRIPLE, "bin")
    return os.path.join(_tools, name)


def entries():
    t = open(os.path.join(V, "harness/src/lib.rs")).read()
    return re.findall(r"^\s*(h_\w+) =>", t, re.M)


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--manifest-path", V + "/engine/Cargo.toml", "--target-dir", B + "/engine"], env=env())
    return B + "/engine/release/symex"


def build_ir(features=()):
    """compile the harness and /repo's crates to LLVM IR; returns the linked .ll path"""
    t = B + "/ir"
    os.makedirs(t, exist_ok=True)
    cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--release", "--target", "x86_64-unknown-none",
           "-Zbuild-std=core,alloc", "--target-dir", t, "--message-format=json", "--manifest-path", V + "/harness/Cargo.toml"]
    if features:
        cmd += ["--features", ",".join(features)]
    e = env(RUSTFLAGS="--emit=llvm-bc -Cno-vectorize-loops -Cno-vectorize-slp --cfg yam_verif")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
    if r.returncode != 0:
        raise BuildError("harness does not compile against /repo:\n" + r.stderr[-4000:])
    bcs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    d, b = os.path.split(f)
                    bc = os.path.join(d, b[3:-5] + ".bc")
                    if os.path.exists(bc):
                        bcs.append(bc)
    name = "all" + "".join("_" + f for f in features)
    h = hashlib.sha256()
    for bc in sorted(bcs):
        h.update(open(bc, "rb").read())
    out = "%s/%s.ll" % (B, name)
    tag = h.hexdigest() + " " + ",".join(entries())
    if os.path.exists(out) and os.path.exists(out + ".tag") and open(out + ".tag").read() == tag:
        return out
    sh([llvm("llvm-link"), "-o", out + ".bc"] + bcs)
    pub = ",".join(entries() + ["sym_model_f64_from_str"])
    sh([llvm("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + pub, out + ".bc", "-o", out + ".opt.bc"])
    sh([llvm("llvm-dis"), out + ".opt.bc", "-o", out])
    open(out + ".tag", "w").write(tag)
    os.unlink(out + ".bc")
    os.unlink(out + ".opt.bc")
    return out


def build_native(features=(), release=False):
    t = B + "/native"
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", V + "/replay/Cargo.toml", "--target-dir", t + "".join("_" + f for f in features)]
    if features:
        cmd += ["--features", ",".join(features)]
    if release:
        cmd += ["--release"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(RUSTFLAGS="--cfg yam_verif -Awarnings"))
    if r.returncode != 0:
        raise BuildError("replay does not compile against /repo:\n" + r.stderr[-4000:])
    return t + "".join("_" + f for f in features) + "/" + ("release" if release else "debug") + "/replay"


# ---- templates -------------------------------------------------------------------------
ASCII = 256
U2, U3, U4, ANY = 257, 258, 259, 260


def mask(chars):
    m = 0
    for c in chars:
        m |= 1 << ord(c)
    return m


PRINT = "".join(chr(c) for c in range(0x20, 0x7f))


def tmpl(*parts):
    """parts: str/bytes = literal text; int = class code; ("set", chars[, count]) ; ("opt", chars[, count])"""
    w, masks = [], []

    def cls(chars):
        m = mask(chars)
        if m not in masks:
            masks.append(m)
        return masks.index(m)

    for p in parts:
        if isinstance(p, str):
            w += list(p.encode())
        elif isinstance(p, bytes):
            w += list(p)
        elif isinstance(p, int):
            w.append(p)
        elif p[0] == "set":
            w += [512 + cls(p[1])] * (p[2] if len(p) > 2 else 1)
        elif p[0] == "opt":
            w += [1024 + cls(p[1])] * (p[2] if len(p) > 2 else 1)
        elif p[0] == "rep":
            w += [p[1]] * p[2]
    out = [len(w)] + w + [len(masks)]
    for m in masks:
        out += [m & (2**64 - 1), m >> 64]
    return out
