#!/usr/bin/env python3
"""dev helper: mutation testing of the checks, in scratch copies under /tmp/mut.
mutate.py gen N SEED        choose N one-line mutants of /repo's code, run the repository's tests in 4 copies,
                            append those that pass to /tmp/mut/alive.json
mutate.py run [K]           run the checks (in a copy of /verif) on up to K mutants not judged yet -> /tmp/mut/res.json"""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
W = "/tmp/mut"
FILES = {"yam-core/src/parsing/scanner.rs": 40, "yam-core/src/parsing/parser.rs": 25, "yam-core/src/parsing/source.rs": 6, "yam-core/src/parsing/char_utils.rs": 3, "yam-core/src/parsing/parser_iter.rs": 3, "yam-core/src/node/yaml.rs": 6, "yam-core/src/node/scalar.rs": 8, "yam-core/src/node/spanned_yaml.rs": 4, "yam-core/src/node/yaml_data.rs": 3, "yam-core/src/prelude/loader.rs": 6, "yam-core/src/prelude/mod.rs": 3, "yam-core/src/parsing/mod.rs": 2, "yam-serde/src/de.rs": 12, "yam-serde/src/ser.rs": 3, "yam-serde/src/escape_str.rs": 2}
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b2\b", "1"), (r"\b3\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if !", "if "), (r"\(!", "("), (r" \+ ", " - "), (r" \+= ", " -= "), (r"if ", "if !"), (r"'.' \| ", ""), (r" \| '\\?.'", ""), (r"b'.' \| ", ""), (r"\.take\(\)", ".clone()"), (r"\bis_blank_or_breakz\b", "is_breakz"), (r"\bis_breakz\b", "is_break"), (r"\bis_blank\b", "is_break"), (r"\bis_flow\b", "is_break"), (r"Some\(([a-z_]+)\) if ", r"Some(\1) if !"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\.saturating_sub\(1\)", ""), (r"::Implicit", "::Explicit"), (r"SingleQuote", "DoubleQuote"), (r"Folded", "Literal"), (r"\bu8\b", "i8"), (r"i64", "i32")]
def sh(c, cwd, t=120, env=None):
    try:
        r = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def sites(src):
    out = []
    for i, l in enumerate(src):
        if "#[cfg(test)]" in l:
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "debug_assert" in l or "fn " in l or s.startswith("///") or s.startswith("impl") or s.startswith("pub struct"):
            continue
        c = l.split(" //")[0]
        for rx, to in OPS:
            for m in re.finditer(rx, c):
                n = c[:m.start()] + m.expand(to) + c[m.end():]
                if n != c:
                    out.append((i, n))
        if re.match(r"^\s*(self\.[a-z_.]+(\(.*\))?( [-+]?= .*)?|[a-z_]+(\.[a-z_]+\(.*\)| [-+]?= .*));$", c):
            out.append((i, re.match(r"^\s*", c).group() + "{}"))
    return out
def gen(n, seed):
    rnd = random.Random(seed)
    os.makedirs(W, exist_ok=True)
    muts = []
    fs = list(FILES); ws = [FILES[f] for f in fs]
    cache = {f: open("/repo/" + f).read().split("\n") for f in fs}
    st = {f: sites(cache[f]) for f in fs}
    seen = set()
    while len(muts) < n:
        f = rnd.choices(fs, ws)[0]
        if not st[f]: continue
        i, l = rnd.choice(st[f])
        if (f, i, l) in seen: continue
        seen.add((f, i, l))
        muts.append(dict(file=f, line=i, old=cache[f][i], new=l))
    def lane(k):
        d = "%s/t%d" % (W, k)
        if os.path.exists(d): shutil.rmtree(d)
        subprocess.run(["cp", "-a", "/repo", d])
        res = []
        for m in muts[k::4]:
            src = list(cache[m["file"]]); src[m["line"]] = m["new"]
            open(d + "/" + m["file"], "w").write("\n".join(src))
            rc, o = sh("ulimit -v 8000000; timeout -s KILL 80 cargo test -q --offline 2>&1", d, 120)
            open(d + "/" + m["file"], "w").write("\n".join(cache[m["file"]]))
            if rc == 0: res.append(m)
        shutil.rmtree(d)
        return res
    with ThreadPoolExecutor(4) as ex:
        al = sum(ex.map(lane, range(4)), [])
    p = W + "/alive.json"
    old = json.load(open(p)) if os.path.exists(p) else []
    old += [m for m in al if m not in old]
    json.dump(old, open(p, "w"), indent=1)
    print(len(muts), "mutants,", len(al), "pass the tests; total", len(old))
ORDER = {"yam-serde/src/de.rs": ["C20"], "yam-serde": ["C21"], "yam-core/src/node": ["C19", "C17", "C18", "C20"], "yam-core/src/prelude": ["C18", "C19", "C04"], "yam-core/src/parsing/parser_iter.rs": ["C05", "C20"], "": ["C32", "C30", "C31", "C29", "C27", "C28", "C24", "C25", "C23", "C15", "C26", "C08", "C22", "C11", "C16", "C14", "C12", "C13", "C05", "C04", "C20", "C09", "C10", "C06", "C03", "C07", "C01", "C02", "C18", "C17", "C19"]}
def run(k):
    base = lambda f: subprocess.run(["git", "show", "HEAD:" + f], cwd=W + "/repo", stdout=subprocess.PIPE, text=True).stdout
    v = W + "/verif"; r = W + "/repo"
    for d in (r,):
        if os.path.exists(d): shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", r])
    os.makedirs(v, exist_ok=True)
    subprocess.run("rsync -a --exclude .git --exclude .build --exclude seeded --exclude evidence /verif/ %s/ 2>/dev/null || (cd /verif && tar cf - --exclude=.git --exclude=.build --exclude=seeded --exclude=evidence . | tar xf - -C %s)" % (v, v), shell=True)
    os.makedirs(v + "/evidence", exist_ok=True)
    sh("sed -i 's#/repo#%s#' harness/Cargo.toml replay/Cargo.toml; sed -i 's#\"/repo\"#\"%s\"#' symlib.py" % (r, r), v)
    al = json.load(open(W + "/alive.json"))
    p = W + "/res.json"
    res = json.load(open(p)) if os.path.exists(p) else []
    done = [x["m"] for x in res]
    for m in [m for m in al if m not in done][:k]:
        src = base(m["file"]).split("\n")
        at = [i for i, l in enumerate(src) if l == m["old"]]
        if not at: continue
        src[min(at, key=lambda i: abs(i - m["line"]))] = m["new"]
        open(r + "/" + m["file"], "w").write("\n".join(src))
        order = []
        for pre, cs in ORDER.items():
            if m["file"].startswith(pre): order += [c for c in cs if c not in order]
        if m["file"].startswith("yam-serde"): order = ["C20", "C21"]
        by = None; log = []
        for c in order:
            rc, o = sh("python3 check.py %s quick" % c, v, 600, dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if rc == 1: by = c; log = [l for l in o.split("\n") if "VIOLATION" in l][:1] + [l for l in o.split("\n") if l.strip()][:2]; break
            if rc not in (0, 1): log.append("%s rc %d %s" % (c, rc, o[-300:]))
            elif "INCOMPLETE" in o: log.append("%s incomplete" % c)
        open(r + "/" + m["file"], "w").write("\n".join(base(m["file"]).split("\n")))
        res.append(dict(m=m, by=by, log=log))
        json.dump(res, open(p, "w"), indent=1)
        print("CAUGHT %s" % by if by else "MISSED", m["file"].split("/")[-1], m["line"] + 1, "|", m["old"].strip(), "=>", m["new"].strip(), log if not by else "", flush=True)
if sys.argv[1] == "gen": gen(int(sys.argv[2]), int(sys.argv[3]))
else: run(int(sys.argv[2]) if len(sys.argv) > 2 else 10**9)
