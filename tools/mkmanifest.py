import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "exhaustive operand-space exploration of the real macro and encoder against a reference decoder model"
H = "stateless bounded-exhaustive exploration of API histories on the real code in lockstep with a reference model"
X = "exhaustive native execution of the generated code against a reference interpreter, within bounds"
DEC = "Trusts the reference x86-64 decoder (replayed against objdump on the explored encodings) and rustc."
MOD = "Trusts the reference model of the API; every explored history runs on the implementation and everything observable is compared after each step."
CHECKS = {
 "C01": (E, "All mnemonics, operand forms and register choices are enumerated completely. " + DEC),
 "C02": (E, "All SSE mnemonics, forms, register choices and memory operand classes. " + DEC),
 "C03": (E, "All bases, indexes, scales and displacement classes in every instruction with a memory operand. " + DEC),
 "C04": (E, "All 8/16-bit values and all width boundaries (thorough: all 2^32 values for representative forms), overflow checks on and off. " + DEC),
 "C05": (X, "All spellings x all 32 flag states x operand values, executed by the processor. Trusts the condition table of the reference model and the CPU."),
 "C06": (H, "Complete within the stated depth per alphabet. " + MOD),
 "C07": (H, "Complete within the stated depth per alphabet. " + MOD),
 "C08": (H, "Complete within the stated depth per alphabet. " + MOD),
 "C09": (H, "Complete within the stated depth per alphabet. " + MOD),
 "C10": ("exhaustive enumeration of (operation, distance from a region end) and short histories there, on the real code", "Every distance within the window and every operation of the alphabet; guard bytes and panics are observed on the implementation, overflow checks on and off."),
 "C11": (H, "Complete within the stated depth per alphabet. " + MOD),
 "C12": ("exhaustive exploration of histories with the kernel's page protections checked in every state", "Protections are read from the kernel for every page of every region after every operation, plus fetch/store probes. Trusts /proc/self/maps."),
 "C13": (E, "Every literal spelling in every operand position against its run-time spelling. " + DEC),
 "C14": (E, "All tuples of operand kinds outside the supported forms are given to the compiler, all out-of-range operand values to the encoder, overflow checks on and off. " + DEC),
 "C15": (X, "All programs up to the length bound and all instructions x boundary values, executed natively. Trusts the reference interpreter and the CPU."),
 "C16": ("exhaustive exploration of statement sequences and contexts on the real macro and encoder", "All ordered pairs of the statement set in one block and in several, in every context. Compares the implementation with itself."),
 "C17": ("exhaustive exploration of all interleavings of operation scripts under a controlled scheduler", "All API-level schedules of the scripts on one thread and on several threads, compared with the solo run."),
 "C18": (H, "Complete within the stated depth; the dump text is compared with the bytes the model recorded. Trusts objdump."),
 "C19": (H, "Complete within the stated depth per alphabet. " + MOD),
 "C20": (E, "All instruction forms x variable names (fixed list plus every name in the current expansion) x preceding statements; evaluation counters in every operand position. " + DEC),
}
sys.path.insert(0, os.path.join(ROOT, "tools"))
import check
done = [c for c in CHECKS if c in check.BIN]
m = {"version": 1, "setup_cmd": "true", "checks": [
    {"property": c, "quick_cmd": "./check.sh " + c, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + c, "technique": CHECKS[c][0], "level": "model_checking", "level_note": CHECKS[c][1]} for c in done],
    "not_applicable": [{"property": c, "reason": "check under construction"} for c in CHECKS if c not in done],
    "notes": "No hooks in /repo are needed; the checks use the public API only."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(done))
