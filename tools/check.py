"""Driver of one check: generate, build from /repo's working tree, explore."""
import hashlib, json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))

BIN = {"C01": "enc", "C02": "enc", "C03": "enc", "C04": "enc", "C13": "enc",
       "C06": "hist", "C07": "hist", "C08": "hist", "C09": "hist", "C11": "hist", "C19": "hist", "C14": "refuse", "C16": "block", "C20": "scope",
       "C10": "mem", "C12": "mem", "C17": "multi", "C18": "dump", "C05": "exec", "C15": "exec"}
GENERATED = {"enc", "hist", "refuse", "block", "scope", "mem", "exec"}
# properties that promise that these statements are accepted
COMPILE_DECIDES = {"C19", "C01", "C02", "C03", "C04", "C13", "C05", "C20", "C16"}
PROFILES = {"C14": ["rel", "dev"], "C04": ["rel", "dev"], "C10": ["rel", "dev"], "C12": ["rel", "dev"]}


def env(extra=None):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(ROOT, "build", "target"), RUSTFLAGS="-Zthreads=8 -Awarnings",
             HOME=os.environ.get("HOME", "/root"), VERIF_ROOT=ROOT)
    e.pop("CARGO_INCREMENTAL", None)
    e["RUST_BACKTRACE"] = "0"
    e.update(extra or {})
    return e


def in_macro(f, line):
    """does the line of a harness source lie in a monoasm! invocation?"""
    src = open(f).read()
    k = src.find("monoasm!")
    while k >= 0:
        first = src.count("\n", 0, k) + 1
        if first > line:
            return False
        depth, e = 0, k
        while e < len(src):
            if src[e] in "([{":
                depth += 1
            elif src[e] in ")]}":
                depth -= 1
                if depth <= 0:
                    break
            e += 1
        if first <= line <= src.count("\n", 0, e) + 1:
            return True
        k = src.find("monoasm!", k + 1)
    return False


def cargo(args, e):
    """run cargo with JSON diagnostics; returns (rc, errors) with errors = [(file, line, text)]"""
    p = subprocess.run(["cargo"] + args + ["--offline", "--message-format=json"], cwd=os.path.join(ROOT, "mc"),
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        sp = [s for s in msg["spans"] if s["is_primary"]] or msg["spans"]
        where = None
        for s in sp:
            # walk out of macro expansions to the generated line
            while s:
                f = os.path.normpath(os.path.join(os.path.dirname(m.get("manifest_path", "")), s["file_name"]))
                if "/build/gen/" in f:
                    where = (f, s["line_start"])
                    break
                if f.startswith((os.path.join(ROOT, "core", ""), os.path.join(ROOT, "mc", ""))) and in_macro(f, s["line_start"]):
                    where = (f, s["line_start"])
                    break
                s = s["expansion"]["span"] if s.get("expansion") else None
            if where:
                break
        errs.append((where[0] if where else None, where[1] if where else 0, msg["message"], msg.get("rendered") or ""))
    return p.returncode, errs, p.stderr


def violation(prop, tier, t0, text, cover):
    """a violation found by the driver itself (a form that no longer compiles)"""
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rp = os.path.join(ROOT, "evidence", "replay-%s.txt" % prop)
    open(rp, "w").write("property %s\nkey compile\nunit 0\n%s\n" % (prop, text))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": dict(cover, exhaustive=False), "wall_s": round(time.time() - t0, 3), "violations": 1}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print(text)
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    sys.exit(1)


def fresh():
    """cargo decides by modification times, which a checkout or copy may not move
    forward: forget its build of everything that depends on /repo when the sources differ"""
    h = hashlib.sha256()
    for top in ("/repo/monoasm", "/repo/monoasm_macro", os.path.join(ROOT, "core"), os.path.join(ROOT, "mc")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    p = os.path.join(ROOT, "build", "sources.sha256")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    new = h.hexdigest()
    if os.path.exists(p) and open(p).read() == new:
        return
    for prof in ("debug", "rel"):
        fp = os.path.join(ROOT, "build", "target", prof, ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("monoasm", "mc-", "mccore")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    open(p, "w").write(new)


def generate(prop, tier):
    g = os.path.join(ROOT, "build", "gen", prop)
    subprocess.check_call([sys.executable, os.path.join(ROOT, "tools", "gen.py"), prop, tier, g])
    return g


def scrape(tier):
    """names the macro binds in its expansion (C20 uses them as the caller's variable names)"""
    import re
    e = env()
    e["MC_GEN"] = generate("C01", "quick")
    p = subprocess.run(["cargo", "rustc", "--offline", "--bin", "enc", "--", "-Zunpretty=expanded"], cwd=os.path.join(ROOT, "mc"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    txt = p.stdout
    # only the generated invocations
    k = txt.find("FORMS0")
    txt = txt[k:] if k >= 0 else ""
    k = txt.find("pub static FORMS:")
    txt = txt[:k] if k >= 0 else txt
    names = set()
    for rx in (r"\blet (?:mut )?([a-z_]\w*)", r"\b(?:Ok|Some|Err)\((?:mut )?([a-z_]\w*)\)", r"\bfor ([a-z_]\w*) in", r"\b([a-z_]\w*) @", r"[{,]\s*([a-z_]\w*) =>"):
        names |= set(re.findall(rx, txt))
    bad = {"_", "mut", "ref", "self", "j", "a", "args", "true", "false"}
    return json.dumps(sorted(n for n in names if n not in bad and not n.startswith("__"))[:40])


def give_up(errs, err):
    sys.stderr.write(err[-4000:] + "\n" + "\n".join(x[3] for x in errs[:3]))
    print("check: cannot build", file=sys.stderr)
    sys.exit(2)


def exe_of(b, profile):
    return os.path.join(ROOT, "build", "target", "debug" if profile == "dev" else profile, b)


def prof_args(profile):
    return ["--profile", profile] if profile != "dev" else []


def build(prop, tier, t0, profile="dev"):
    b = BIN[prop]
    e = env()
    if b == "scope":
        os.environ["C20_SCRAPED"] = scrape(tier)
    if b in GENERATED:
        e["MC_GEN"] = generate(prop, tier)
    rc, errs, err = cargo(["build", "--bin", b] + prof_args(profile), e)
    if rc == 0:
        return exe_of(b, profile)
    bad = [x for x in errs if x[0]]
    may = [x for x in bad if open(x[0]).read().splitlines()[x[1] - 1].endswith("// MAY")]
    if may and may == bad:
        # these may be refused at compile time
        rc = strip(e, prop, b, profile, bad)
        if rc is not None:
            return rc
    bad = [x for x in bad if x not in may]
    if bad and prop in COMPILE_DECIDES:
        # valid statements the macro refuses at compile time (or turns into invalid code)
        f, line, msg, rend = bad[0]
        src = open(f).read().splitlines()[line - 1]
        violation(prop, tier, t0, "a supported statement is refused at compile time: %s\n%s\n%s" % (msg, src[:400], rend[:1500]),
                  {"states": 1, "transitions": len(bad), "traces_validated_against_impl": 0, "samples": [src[:300]]})
    if bad and all("/build/gen/" in x[0] for x in bad):
        # another property's business: leave those statements out
        rc = strip(e, prop, b, profile, bad)
        if rc is not None:
            return rc
    give_up(errs, err)


def strip(e, prop, b, profile, bad):
    for _ in range(8):
        by = {}
        for f, line, _m, _r in bad:
            by.setdefault(f, set()).add(line)
        for f, ls in by.items():
            src = open(f).read().splitlines()
            for k in ls:
                src[k - 1] = "//"
            open(f, "w").write("\n".join(src) + "\n")
        rc, errs, err = cargo(["build", "--bin", b] + prof_args(profile), e)
        if rc == 0:
            return exe_of(b, profile)
        bad = [x for x in errs if x[0]]
        if not bad:
            return None
    return None


def build_refuse(prop, tier, t0, profile):
    """C14: give every candidate to the compiler; remove the refused ones until the file compiles"""
    g = generate(prop, tier)
    cand = [l for l in open(os.path.join(g, "cand.txt")).read().splitlines() if l]
    n = len(cand)
    base = open(os.path.join(g, "forms.rs")).read().rstrip("\n").split("\n")
    lines = base[:]
    per, names = 100, []
    where = {}
    for k in range(0, n, per):
        nm = "CAND%d" % (k // per)
        names.append(nm)
        lines.append("static %s: &[Form] = &[" % nm)
        for c in cand[k:k + per]:
            lines.append(c)
            where[len(lines)] = c
        lines.append("];")
    lines.append("pub static CAND: &[&[Form]] = &[%s];" % ",".join(names))
    e = env()
    e["MC_GEN"] = g
    refused = 0
    for rnd in range(10):
        open(os.path.join(g, "forms.rs"), "w").write("\n".join(lines) + "\n")
        rc, errs, err = cargo(["build", "--bin", "refuse"] + prof_args(profile), e)
        if rc == 0:
            return exe_of("refuse", profile), n, refused
        hit = {x[1] for x in errs if x[0] and x[1] in where and lines[x[1] - 1] != "//"}
        other = {x[1] for x in errs if x[0] and x[1] not in where}
        for k in hit:
            lines[k - 1] = "//"
        for k in other:  # a supported statement that does not compile: another property's business
            if k > 0 and lines[k - 1].startswith("Form{"):
                lines[k - 1] = "//"
        refused += len(hit)
        if not hit and not other:
            give_up(errs, err)
    give_up(errs, err)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    fresh()
    rc = 0
    for profile in PROFILES.get(prop, ["dev"]):
        e = env({"MC_PROFILE": profile})
        if BIN[prop] == "refuse":
            exe, n, refused = build_refuse(prop, tier, t0, profile)
            e.update(C14_TRIED=str(n), C14_REFUSED=str(refused))
        else:
            exe = build(prop, tier, t0, profile)
            e.update({k: v for k, v in os.environ.items() if k.startswith("C20_")})
        r = subprocess.run([exe] + sys.argv[1:], env=e)
        rc = r.returncode if r.returncode in (0, 1) else 2
        if rc:
            break
    sys.exit(rc)


if __name__ == "__main__":
    main()
