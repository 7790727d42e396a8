"""Builds and runs the search program of a check against the sources of /repo."""

import os
import re
import subprocess

from verify import VERIF, BUILD

GROUPS = {
    "config": ["config/ParseConfig.cpp", "config/ParseKeySequence.cpp", "config/get_key_name.cpp",
               "client/unix/StringTyperImpl.cpp", "client/unix/StringTyperGeneric.cpp"],
    "runtime": ["runtime/Stage.cpp", "runtime/MultiStage.cpp", "runtime/MatchKeySequence.cpp"],
    "server": ["server/ServerState.cpp"],
}


def build(pid, repo, workdir):
    """-> (path, None) or (None, reason)"""
    src = os.path.join(VERIF, "harness", pid + ".cpp")
    if not os.path.exists(src):
        return None, "no search program"
    head = open(src).read()
    m = re.search(r"// sources:(.*)", head)
    groups = m.group(1).split() if m else []
    m = re.search(r"// flags:(.*)", head)
    flags = m.group(1).split() if m else []
    files = []
    for g in groups:
        files += GROUPS.get(g, [g])
    os.makedirs(workdir, exist_ok=True)
    exe = os.path.join(workdir, "search")
    objs, procs = [], []
    base = ["g++", "-std=c++17", "-O1", "-g", "-w", "-I" + os.path.join(repo, "src"),
            "-I" + os.path.join(VERIF, "harness"), "-fno-access-control"] + flags
    for i, f in enumerate([src] + [os.path.join(repo, "src", f) for f in files]):
        o = os.path.join(workdir, f"o{i}.o")
        objs.append(o)
        procs.append((f, subprocess.Popen(base + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = None
    for f, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            bad = f"{f}: {out[-1500:]}"
    if bad:
        return None, bad
    r = subprocess.run(base + objs + ["-o", exe, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return None, r.stdout.decode(errors="replace")[-1500:]
    return exe, None


def run(pid, repo, workdir, seed, seconds):
    """-> dict(found=bool|None, text, reason)"""
    exe, reason = build(pid, repo, workdir)
    if exe is None:
        return dict(found=None, text="", reason=reason)
    try:
        r = subprocess.run([exe, str(seed), str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=seconds * 4 + 60, cwd=workdir)
    except subprocess.TimeoutExpired:
        return dict(found=None, text="", reason="search program did not finish")
    out = r.stdout.decode(errors="replace")
    fails = [l for l in out.split("\n") if l.startswith("FAIL ")]
    if r.returncode == 0:
        m = re.search(r"TRIED (\d+)", out)
        return dict(found=False, text=out, tried=int(m.group(1)) if m else 0)
    if fails:
        return dict(found=True, text="\n".join(fails), raw=out, cmd=[exe, str(seed), str(seconds)])
    # sanitizer report, assertion or crash on a generated input
    return dict(found=True, text=f"crash (status {r.returncode}): " + out[-3000:], raw=out)
