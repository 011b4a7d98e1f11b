#!/usr/bin/env python3
"""mut.py DIR SEED [FILTER]: random source mutants in a scratch copy DIR of /repo; which do the checks catch?
Results: DIR/results.jsonl.  Survivors of the checks are run against the repository's tests."""
import json, os, random, re, subprocess, sys, time, shutil
D, seed = sys.argv[1], int(sys.argv[2])
filt = sys.argv[3] if len(sys.argv) > 3 else ""
V = "/verif"
sys.path.insert(0, V + "/tools")
import props
R, H, T, WS, VD = D + "/repo", D + "/h", D + "/target", D + "/ws", D + "/v"
def sh(cmd, timeout=1200, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def setup():
    os.makedirs(D, exist_ok=True)
    if not os.path.exists(R): sh(f"git clone -q /repo {R}")
    sh(f"cd {R} && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD")
    sh(f"mkdir -p {H} && rsync -a --delete --exclude target {V}/harness/ {H}/")
    sh(f"find {H} -name Cargo.toml -exec sed -i 's#\"/repo/#\"{R}/#' {{}} +")
    if not os.path.exists(WS):
        os.makedirs(WS + "/crates")
        for f in ("Cargo.toml", "Cargo.lock"): shutil.copy("/opt/vp/ws/" + f, WS)
        for c in os.listdir("/opt/vp/ws/crates"): os.symlink(f"{R}/crates/{c}", f"{WS}/crates/{c}")
    os.makedirs(VD, exist_ok=True)
    shutil.copy(V + "/known-findings.txt", VD)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", INSTA_UPDATE="no", CI="1")
def build(bins):
    rc, o = sh(f"cd {H} && CARGO_TARGET_DIR={T} RUSTFLAGS=-Awarnings cargo build -q --offline " + " ".join("-p " + b for b in bins), env=ENV)
    return rc == 0, o
def tests():
    rc, o = sh(f"cd {WS} && CARGO_TARGET_DIR={D}/wst RUSTFLAGS=-Awarnings timeout 900 cargo nextest run --workspace --offline --no-fail-fast --status-level fail --test-threads 4", env=ENV)
    fails = sorted(set(re.findall(r"^\s+(?:FAIL|SIGABRT|SIGSEGV|TIMEOUT|SIG\w+).*?\)\s+(?:\(.*?\)\s+)?(.*)$", o, re.M)))
    return rc, fails, o[-1500:]
BIN = {p["id"]: p["bin"] for p in props.P}
BYFILE = {}
for p in props.P:
    for f in p["files"]: BYFILE.setdefault(f, []).append(p["id"])
DEFAULT = {"trunk-ir/": ["C01", "C03", "C04", "C05", "C08", "C09", "C20", "C23"], "trunk-ir-macros": ["C15"], "tribute-runtime": ["C16", "C17", "C18", "C19", "C27"],
           "cranelift": ["C20", "C21", "C22", "C27"], "wasm-backend": ["C23", "C24", "C26", "C28"],
           "tribute-passes/src/native": ["C20", "C21", "C25", "C27"], "tribute-passes/src/wasm": ["C23", "C24", "C26", "C28"], "tribute-passes": ["C25", "C26"], "": ["C25"]}
def checks(f):
    c = list(BYFILE.get(f, []))
    if not c or len(c) < 2:
        for k, v in DEFAULT.items():
            if k in f:
                c += [x for x in v if x not in c]; break
    return c
OPS = [(r"==", "!="), (r"!=", "=="), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\bif !", "if "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(\)", ".last()"),
       (r"\.last\(\)", ".first()"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\bcontinue;", ""), (r"\breturn (true|false);", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
       (r"\b8\b", "4"), (r"\b4\b", "8"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bthen_", "else_"), (r"\belse_", "then_"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\bu(?=(lt|le|gt|ge|div|rem|extend)\b)", "s"), (r"\bs(?=(lt|le|gt|ge|div|rem|extend)\b)", "u"), (r"I64", "I32"), (r"I32", "I64"), (r"\.is_empty\(\)", ".is_empty() == false"),
       (r"\.contains\(([^()]*)\)", r".contains(\1) == false"), (r"_u\b", "_s"), (r"_s\b", "_u"), (r"Some\((\w+)\) =>", r"Some(\1) if false =>"), (r"\.saturating_sub\(", ".saturating_add("), (r"\.extend\((.*)\);", ";"),
       (r"\.unwrap_or\(true\)", ".unwrap_or(false)"), (r"\.filter\(([^()]|\([^()]*\))*\)", ""), (r"\.chain\(([^()]|\([^()]*\))*\)", "")]
DEL = re.compile(r"^\s+[\w.:]+\(.*\);\s*$")
IFR = re.compile(r"^(\s*(?:\} else )?if )(?!let\b)(.*)( \{)\s*$")
def sites(f):
    L = open(f"{R}/{f}").read().split("\n")
    out = []
    for i, l in enumerate(L):
        if l.strip().startswith("#[cfg(test)]") and i + 1 < len(L) and "mod" in L[i + 1]: break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "assert", "debug_assert", "panic!", "tracing", "warn!", "pub const", "const ", "write!", "format!", "pub fn", "fn ", "impl")): continue
        code = re.sub(r"//.*", "", l)
        if '"' in code and re.search(r'"[^"]* [^"]* ', code): continue
        for a, b in OPS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + re.sub(a, b, m.group(0), count=1) if not b.startswith(".contains") and "\\1" not in b else code[:m.start()] + m.expand(b)
                if "\\1" not in b: n = code[:m.start()] + b
                out.append((i, n + code[m.end():]))
        if DEL.match(code): out.append((i, ""))
        m = IFR.match(code)
        if m: out.append((i, f"{m.group(1)}!({m.group(2)}){m.group(3)}"))
    return out
def main():
    setup()
    rnd = random.Random(seed)
    files = [f for f in BYFILE if f.endswith(".rs")] if not filt else [f for f in subprocess.check_output(f"cd {R} && git ls-files 'crates/*.rs'", shell=True, text=True).split() if re.search(filt, f)]
    files = [f for f in files if "/tests" not in f and os.path.exists(f"{R}/{f}")]
    S = {f: sites(f) for f in files}
    w = [min(len(S[f]), 150) ** 0.7 if S[f] else 0 for f in files]
    ok, o = build(sorted(set(BIN.values())))
    assert ok, o
    base = None
    while True:
        f = rnd.choices(files, w)[0]
        i, new = rnd.choice(S[f])
        p = f"{R}/{f}"
        src = open(p).read()
        L = src.split("\n")
        old = L[i]
        if old == new: continue
        L[i] = new
        t0 = time.time()
        open(p, "w").write("\n".join(L))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        cs = checks(f)
        ok, o = build(sorted({BIN[c] for c in cs}))
        if not ok:
            r["result"] = "nobuild"
        else:
            r["result"] = "survived"
            for c in cs:
                rc, o = sh(f"VERIF_SEED=1 VERIF_DIR={VD} VP_HANG_S=60 timeout 400 {T}/debug/{BIN[c]} {c} --tier quick", timeout=450, env=ENV)
                if rc != 0:
                    r["result"] = "caught" if rc == 1 else f"rc{rc}"; r["by"] = c
                    if rc != 1: r["out"] = o[-300:]
                    break
            if r["result"] != "caught":
                rc, fails, tail = tests()
                if rc not in (0, 100): r["tests"] = "error"; r["tail"] = tail
                else: r["tests"] = len(fails); r["fails"] = fails[:3]
        open(p, "w").write(src)
        r["t"] = round(time.time() - t0)
        r["checks"] = cs
        open(D + "/results.jsonl", "a").write(json.dumps(r) + "\n")
main()
