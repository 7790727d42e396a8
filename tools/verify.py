"""Runs the deductive verifier on the contracts of one check."""

import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import time

from cxx2verus import Dump, Unsupported
from vgen import Gen, Restart

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
CPPDUMP = os.path.join(BUILD, "cppdump")
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"


class ExtractionError(Exception):
    pass


def clang_args(repo, asserts=False):
    return ["--", "-std=c++17", f"-I{repo}/src", f"-I{repo}/libs", "-UNDEBUG" if asserts else "-DNDEBUG", "-resource-dir", CLANG_RES]


def dump_tu(repo, tu, asserts=False):
    path = os.path.join(repo, "src", tu)
    if not os.path.exists(path):
        raise ExtractionError(f"source file src/{tu} is gone")
    r = subprocess.run([CPPDUMP, os.path.join(repo, "src"), path] + clang_args(repo, asserts),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractionError(f"cannot parse src/{tu}: " + r.stderr.decode(errors="replace")[-2000:])
    return json.loads(r.stdout)


def load_dump(repo, tus, asserts=False):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        d = Dump(list(ex.map(lambda t: dump_tu(repo, t, asserts), tus)))
    path = os.path.join(VERIF, "specs", "baseline.json")
    if os.path.exists(path):
        base = json.load(open(path))
        here = set(tus)
        keep = {n: v for n, v in base["functions"].items()
                if any(x[0] in here or x[0].endswith(".h") for x in v)}
        d.recover(dict(records=base["records"], functions=keep))
    return d


BROADCAST = "broadcast use {{crate::pre::lemma_seq_find, crate::pre::lemma_seq_rfind, crate::pre::lemma_seq_count, crate::pre::lemma_seq_filter, vstd::seq::group_seq_axioms, vstd::seq_lib::group_seq_properties{extra}}};\n"


def split_function(name, t, n):
    """the obligations of a large function in parts of n: every part asserts its own and assumes those of the others,
    the function itself assumes them all and proves the postconditions"""
    lines = t.split("\n")
    start = next(i for i, l in enumerate(lines) if re.match(r"proof fn %s\(" % name, l))
    obs = [i for i, l in enumerate(lines) if i > start and re.match(r"\s*assert\(.*//@(ob|inv) ", l)]
    out = list(lines)
    parts = []
    for i in obs:
        out[i] = re.sub(r"assert\((.*)//@(?:ob|inv) ", r"assume(\1// other part ", lines[i], 1)
    for k in range(0, len(obs), n):
        part = list(out[start:])
        part[0] = part[0].replace(name + "(", f"{name}__p{k // n}(", 1)
        for i in obs[k:k + n]:
            part[i - start] = lines[i]
        part = [l for l in part if "//@ens" not in l and l.strip() != "ensures"]
        parts.append((f"{name}__p{k // n}", "\n".join(part)))
    return [(name, "\n".join(out))] + parts


def assemble(gen, unit, vacuity=False, only=None, split=False):
    """one crate; every function sits in its own module so that the verifier works on them in parallel.
    Functions outside `only` keep their contract but not their body (they were discharged in an earlier round)"""
    use = "use vstd::prelude::*;\nuse vstd::multiset::*;\n"
    parts = ["#![allow(unused)]\nuse vstd::prelude::*;\nverus! {\n"]
    parts.append("pub mod pre {\n" + use)
    parts.append(open(os.path.join(VERIF, "specs", "prelude.rs")).read())
    parts.append("}\npub mod types {\n" + use + "use super::pre::*;\n")
    parts.append(gen.decls())
    parts.append(unit.get("types", ""))
    parts.append("}\npub mod spec {\n" + use + "use super::pre::*;\nuse super::types::*;\n")
    for f in unit.get("include", ()):
        parts.append(open(os.path.join(VERIF, "specs", f)).read())
    parts.append(unit.get("spec", ""))
    extra = "".join(", crate::spec::" + b for b in unit.get("broadcast", ()))
    parts.append("}\npub mod ufs {\n" + use + "use super::pre::*;\nuse super::types::*;\nuse super::spec::*;\n")
    parts.extend(gen.ufs.values())
    parts.append("}\npub mod code {\n")
    for fid in gen.order:
        name = gen.fn_name(gen.done[fid]["f"])
        parts.append(f"pub use {name}::*;")
    parts.append("}\n")
    # modules must sit at top level of `code`
    mods = []
    for fid in gen.order:
        name = gen.fn_name(gen.done[fid]["f"])
        t = gen.text(gen.done[fid])
        there = gen.done[fid]["contract"].get("elsewhere")
        if there:
            gen.notes.add(f"contract of {gen.done[fid]['key']} is discharged in unit {there}")
        if there or only is not None and name not in only:
            head, body = t.rsplit("\n{\n", 1)
            head = re.sub(r"(^|\n)(proof fn %s\()" % name, r"\1#[verifier::external_body]\n\2", head)
            t = head.replace("//@ens", "// ens") + "\n{ unimplemented!() }"
        own = gen.done[fid]["contract"].get("broadcast")
        fn_extra = extra if own is None else "".join(", crate::spec::" + b for b in own)
        t = t.replace("@@END@@", "assert(false); //@vac" if vacuity else "")
        n = gen.done[fid]["contract"].get("split")
        split_up = split and n and "unimplemented!()" not in t
        for mod, t in split_function(name, t, n) if split_up else [(name, t)]:
            t = re.sub(r"(^|\n)proof fn ", r"\1pub proof fn ", t)
            mods.append(f"pub mod {mod} {{\n" + use + "use crate::pre::*;\nuse crate::types::*;\nuse crate::spec::*;\n"
                        "use crate::ufs::*;\nuse crate::code::*;\n" + BROADCAST.format(extra=fn_extra) + t + "\n}")
    parts[-1] = "\n".join(mods) + "\n}\n"
    parts.append("} // verus!\n")
    return "\n".join(parts)


VERIFIER_MESSAGES = ("assertion failed", "postcondition not satisfied", "precondition not satisfied",
                     "unable to prove", "split ", "could not prove", "decreases not satisfied",
                     "loop invariant", "while loop", "function body check", "possible ", "assert_")


class Result:
    def __init__(self):
        self.errors = []
        self.frontend = []
        self.resource = []
        self.verified = 0
        self.nerrors = 0
        self.time_ms = 0
        self.smt_ms = 0
        self.raw = ""
        self.crash = None
        self.fn_ms = {}
        self.fn_ok = {}


def run_verus(path, unit, extra=()):
    cmd = ["verus", "--crate-type=lib", "--output-json", "--time-expanded", "--multiple-errors", "60",
           "--rlimit", str(unit.get("rlimit", 60)), "--num-threads", "8",
           "--error-format=json", path] + list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=unit.get("timeout", 600), cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        res = Result()
        res.crash = "timeout"
        return res
    res = Result()
    res.wall = time.time() - t0
    res.raw = r.stderr.decode(errors="replace")
    src = open(path).read().split("\n")
    for line in res.raw.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        spans = []
        for s in m.get("spans", []):
            spans.append((s["line_start"], s.get("label"), s["is_primary"], src[s["line_start"] - 1].strip()
                          if s["file_name"].endswith(os.path.basename(path)) else s["file_name"]))
        if m["message"].startswith("aborting due to"):
            continue
        if "rlimit" in m["message"]:
            res.resource.append((m["message"], spans))
        elif m.get("code") or not m["message"].startswith(VERIFIER_MESSAGES):
            res.frontend.append((m["message"], spans))
        else:
            res.errors.append((m["message"], spans))
    try:
        j = json.loads(r.stdout.decode())
        vr = j["verification-results"]
        res.verified = vr.get("verified", 0)
        res.nerrors = vr.get("errors", 0)
        if vr.get("encountered-vir-error"):
            res.crash = "front end error"
        tm = j.get("times-ms", {})
        res.time_ms = tm.get("total", 0)
        res.smt_ms = tm.get("smt", {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
        res.json = j
        for m in (tm.get("smt", {}) or {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                nm = base_name(f["function"].split("::")[-1])
                res.fn_ms[nm] = res.fn_ms.get(nm, 0) + f.get("time", 0)
                res.fn_ok[nm] = res.fn_ok.get(nm, True) and bool(f.get("success"))
    except (ValueError, KeyError):
        res.crash = "no result"
    return res


def base_name(fn):
    return re.sub(r"__p\d+$", "", fn)


def fn_at(src_lines, line):
    for i in range(line - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", src_lines[i])
        if m:
            return base_name(m.group(1))
    return "?"


def classify(res, path):
    """-> invariant failures {fn: set(id)}, other failures [(fn, label, text, message)]"""
    src = open(path).read().split("\n")
    inv, other = {}, []
    for msg, spans in res.errors:
        if msg.startswith("aborting due to"):
            continue
        lines = [s for s in spans]
        hit = None
        for (ln, label, prim, text) in lines:
            m = re.search(r"//@inv (\S+) (\d+) ", src[ln - 1]) if ln - 1 < len(src) else None
            if m and prim:
                hit = (fn_at(src, ln), f"{m.group(1)}#{m.group(2)}")
        if hit:
            inv.setdefault(hit[0], set()).add(hit[1])
            continue
        if not lines:
            other.append(("?", "tool", "", msg))
            continue
        prim = [s for s in lines if s[2]] or lines
        fn = fn_at(src, prim[0][0])
        text = prim[0][3]
        label = "obligation"
        for s in lines:
            m = re.search(r"//@(ob|req|ens|vac)\b(.*)", s[3] if isinstance(s[3], str) else "")
            if m:
                label = {"ob": "check", "req": "precondition", "ens": "postcondition", "vac": "vacuity"}[m.group(1)] + m.group(2)
                text = s[3]
        # a postcondition error carries the clause as secondary span, the body as primary
        if "postcondition" in msg or "precondition" in msg:
            for s in lines:
                fn2 = fn_at(src, s[0])
                if s[2] and "postcondition" in msg:
                    fn = fn2
        if "precondition" in msg:
            call = [s for s in lines if "//@req" not in s[3]]
            if call:
                fn = fn_at(src, call[0][0])
                label += " at call: " + call[0][3][:120]
        other.append((fn, label, text, msg))
    return inv, other


def generate(dump, unit):
    # a helper that is gone (inlined by hand, renamed) is covered through its callers
    probe = Gen(dump, dict(unit, contracts={}))
    missing = []
    for key, c in unit["contracts"].items():
        try:
            probe.resolve(key)
        except Unsupported:
            if c.get("top"):
                raise
            missing.append(key)
    if missing:
        unit["contracts"] = {k: v for k, v in unit["contracts"].items() if k not in missing}
        unit["_missing"] = missing
    while True:
        gen = Gen(dump, unit)
        try:
            for key in unit["contracts"]:
                gen.translate(gen.resolve(key))
            return gen
        except Restart:
            continue


def front_candidates(res, path):
    src = open(path).read().split("\n")
    cand, rest = {}, []
    for msg, spans in res.frontend:
        hit = None
        for (ln, label, prim, text) in spans:
            m = re.search(r"//@inv(?:assume)? (\S+) (\d+) ", src[ln - 1]) if ln - 1 < len(src) else None
            if m and prim:
                hit = (fn_at(src, ln), f"{m.group(1)}#{m.group(2)}")
        if hit:
            cand.setdefault(hit[0], set()).add(hit[1])
        else:
            rest.append((msg, spans))
    return cand, rest


def verify_unit(unit, repo=REPO, workdir=None, keep=None, log=print):
    """-> dict(status, failures, stats)"""
    t0 = time.time()
    dump = load_dump(repo, unit["tus"], unit.get("asserts", False))
    unit = dict(unit)
    unit["_pruned"] = {}
    unit["_rec"] = {}
    workdir = workdir or os.path.join(BUILD, "work")
    os.makedirs(workdir, exist_ok=True)
    base = os.path.join(workdir, f"{unit['id']}_{os.getpid()}")
    rounds = 0
    smt = 0
    times = {}
    ok_fns, resource = set(), set()
    only = unit.get("_only")
    verified = 0
    failures = []
    # candidates that do not fit the types are dropped before large functions are split up
    typed = not any(c.get("split") for c in unit["contracts"].values())
    while True:
        gen = generate(dump, unit)
        src = assemble(gen, unit, only=only, split=typed)
        path = base + ".rs"
        open(path, "w").write(src)
        if keep:
            open(keep if rounds == 0 else keep.replace(".rs", ".last.rs"), "w").write(src)
        res = run_verus(path, unit, () if typed else ("--no-verify",))
        if not typed and not res.frontend and not res.crash:
            typed = True
            continue
        rounds += 1
        smt += res.smt_ms
        for k, v in res.fn_ms.items():
            times[k] = times.get(k, 0) + v
        if res.frontend and not res.crash:
            # a candidate invariant that does not even fit the types of this loop is dropped
            cand, rest = front_candidates(res, path)
            if rest or not cand:
                res.crash = "front end: " + "; ".join(m for m, _ in rest[:3])
            else:
                for fn, ids in cand.items():
                    unit["_pruned"].setdefault(fn, set()).update(ids)
                continue
        if res.crash:
            return dict(status="error", reason=res.crash, raw=res.raw, gen=gen, path=path, unit=unit,
                        errors=res.frontend + res.errors, wall=time.time() - t0)
        inv, other = classify(res, path)
        nres = {fn_at(src.split("\n"), sp[0][0]) for _, sp in res.resource if sp}
        if rounds == 1:
            verified = res.verified
        for fn, ok in res.fn_ok.items():
            if ok:
                ok_fns.add(fn)
        if rounds > 40:
            failures += [(fn, "invariant", str(ids), "no fixed point") for fn, ids in inv.items()]
            failures += other
            break
        # failures of functions without open invariant candidates are final
        failures += [o for o in other if o[0] not in inv]
        resource |= {fn for fn in nres if fn not in inv}
        if not inv:
            break
        only = set(inv)
        for fn, ids in inv.items():
            unit["_pruned"].setdefault(fn, set()).update(ids)
            log(f"  pruned {fn}: {sorted(ids)}")
    names = {gen.fn_name(gen.done[i]["f"]) for i in gen.order if not gen.done[i]["contract"].get("elsewhere")}
    bad = {f[0] for f in failures}
    missing = names - ok_fns - bad - resource
    if unit.get("_only"):
        missing &= set(unit["_only"])
    if missing:
        return dict(status="error", reason="no verdict for " + ", ".join(sorted(missing)), raw=res.raw, gen=gen,
                    path=path, unit=unit, errors=res.errors, wall=time.time() - t0)
    out = dict(status="failed" if failures else "undecided" if resource else "proved", resource=sorted(resource), failures=failures, gen=gen, rounds=rounds, unit=unit,
               proved=sorted(names - bad), verified=verified, smt_ms=smt, raw=res.raw, src=assemble(gen, unit),
               path=path, wall=time.time() - t0, times=times)
    out["pruned"] = {k: sorted(v) for k, v in unit["_pruned"].items()}
    return out


def vacuity(unit, out):
    """every function's end must be reachable: assert(false) there has to fail"""
    gen = out["gen"]
    src = assemble(gen, out["unit"], vacuity=True)
    path = out["path"].replace(".rs", "_vac.rs")
    open(path, "w").write(src)
    res = run_verus(path, dict(unit, rlimit=unit.get("rlimit", 60)))
    if res.crash:
        return None, res.crash
    lines = src.split("\n")
    failing = set()
    for msg, spans in res.errors:
        for (ln, label, prim, text) in spans:
            if "//@vac" in lines[ln - 1]:
                failing.add(fn_at(lines, ln))
        if "rlimit" in msg or "Resource limit" in msg:
            for (ln, *_r) in spans:
                failing.add(fn_at(lines, ln))
    names = {gen.fn_name(gen.done[i]["f"]) for i in gen.order if not gen.done[i]["contract"].get("elsewhere")}
    allowed = {gen.fn_name(gen.done[i]["f"]) for i in gen.order if gen.done[i]["contract"].get("noreturn")}
    os.unlink(path)
    return sorted(names - failing - allowed), None
