"""gen.py PROP TIER OUTDIR: generate the real monoasm! invocations a property's
exploration needs, one per line, into OUTDIR/forms.rs."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import *

HDR = "// generated by tools/gen.py\nuse crate::form::*; use mccore::x86::Op; use monoasm::*; use monoasm_macro::monoasm;\n#[allow(unused)]\n"


NOOUT = ["pub static OUT: &[&[Form]] = &[];"]


def chunked(name, typ, lines, per=400):
    """split a table into several functions/statics to keep rustc parallel"""
    out = []
    names = []
    for k in range(0, max(1, len(lines)), per):
        n = "%s%d" % (name, k // per)
        names.append(n)
        out.append("static %s: &[%s] = &[" % (n, typ))
        out += lines[k:k + per]
        out.append("];")
    out.append("pub static %s: &[&[%s]] = &[%s];" % (name, typ, ",".join(names)))
    return out


def rip_label():
    return [form_line(f, ("[rip + lab]", "rip", None, "")).replace("{monoasm!", "{let lab=a.lab;monoasm!") for f in forms(aliases=False) if is_mem(f)]


def gen(prop, tier):
    import lit
    if prop == "C01":
        fs = [f for f in forms() if not is_sse(f)]
        return chunked("FORMS", "Form", table(fs, FEW) + jump_lines() + lit.spelled([f for f in forms(aliases=False) if not is_sse(f)], False)) + NOOUT
    if prop == "C02":
        fs = [f for f in forms() if is_sse(f)]
        return chunked("FORMS", "Form", table(fs, shapes()) + lit.spelled(fs, False)) + NOOUT
    if prop == "C03":
        fs = [f for f in forms(aliases=False) if is_mem(f)]
        return chunked("FORMS", "Form", table(fs, shapes()) + lit.addresses() + lit.spelled(fs, False)) + NOOUT
    if prop == "C04":
        fs = [f for f in forms(aliases=False) if has_imm(f)]
        inside, outside = lit.immediates()
        return chunked("FORMS", "Form", table(fs, FEW) + inside) + chunked("OUT", "Form", outside)
    if prop == "C13":
        return chunked("FORMS", "Form", lit.lines(tier)) + NOOUT
    if prop == "C06":
        return chunked("FORMS", "Form", rip_label())
    if prop == "C16":
        import blk
        tpl, pairs, lpairs = blk.c16(tier)
        few = FEW[:3]
        return chunked("FORMS", "Form", table(forms(), few) + jump_lines() + rip_label()) + tpl + ["pub fn tpl() -> &'static [(&'static str, fn(&mut JitMemory, &Args))] { TPL }", "pub fn ltpl() -> &'static [(&'static str, fn(&mut JitMemory, &Args))] { LTPL }"] + chunked("PAIRS", "Pair", pairs, 60) + chunked("LPAIRS", "Pair", lpairs, 60)
    if prop == "C20":
        import blk, json
        sc = os.environ.get("C20_SCRAPED", "[]")
        cap, cap2, side, mid = blk.c20(tier, json.loads(sc))
        return chunked("CAP", "Form", cap, 200) + chunked("PRED", "Form", cap2, 200) + ["use crate::{first, last, t};"] + chunked("SIDE", "Form", side) + chunked("MID", "Form", mid)
    if prop == "C14":
        import bad
        fs = [f for f in forms(aliases=False)]
        rt = table(fs, shapes() if tier == "thorough" else FEW + [("[R(a.b) + R(a.i)]", "b", 0, "")])
        # shift counts in a run-time register
        rt += [l.replace(", cl;", ", R(a.r1);").replace(', cl",', ', R(a.r1)",') for l in rt if "K::Cl" in l]
        rt += ['Form{n:"%s",f:|j,a|{monoasm!(&mut *j, %s;);},op:Op::Lea,w:8,sw:0,o:[K::R(0),K::M{rip:false,sc:%d,sg:%d},K::N]},' % (t, t, sc, sg) for t, sc, sg in ()]
        return chunked("FORMS", "Form", rt), bad.candidates(tier)
    if prop == "C05":
        fs = [f for f in forms() if f[0].startswith(("set", "cmov"))]
        return chunked("FORMS", "Form", table(fs, FEW) + [l for l in jump_lines() if "Op::Jcc" in l])
    if prop == "C15":
        return chunked("FORMS", "Form", table(forms(aliases=False), FEW) + jump_lines())
    if prop == "C10":
        return chunked("FORMS", "Form", table(forms(aliases=False), FEW[:3]) + jump_lines() + rip_label())
    if prop == "C19":
        return chunked("FORMS", "Form", lit.words())
    if prop in ("C12", "C07", "C08", "C09", "C11"):
        return chunked("FORMS", "Form", [])
    raise SystemExit("gen: no generator for " + prop)


if __name__ == "__main__":
    prop, tier, out = sys.argv[1:4]
    os.makedirs(out, exist_ok=True)
    g = gen(prop, tier)
    if isinstance(g, tuple):
        with open(os.path.join(out, "cand.txt"), "w") as fh:
            fh.write("\n".join(g[1]) + "\n")
        g = g[0]
    body = HDR + "\n".join(g) + "\n"
    p = os.path.join(out, "forms.rs")
    if not os.path.exists(p) or open(p).read() != body:
        open(p, "w").write(body)
