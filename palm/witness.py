"""Compile-fail witnesses: programs that misuse the crate must not type-check.

Each witness is a body with one offending part. It is compiled twice against
the current source: with the offending part it must be rejected with one of
the expected errors, and without it (the twin) it must be accepted. Nothing
is run; the deciding step is the type and borrow checker.
"""
import json
import os
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

from . import build

PRELUDE = """#![allow(unused, dead_code, unused_mut)]
extern crate palmtree;
extern crate typenum;
use palmtree::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};
fn use_it<T>(_t: T) {}
fn is_send<T: Send>() {}
fn is_sync<T: Sync>() {}
type T0 = StdPalmTree<u32, String>;
fn make() -> T0 { PalmTree::load((0..9).map(|i| (i, String::new()))) }
"""


def compile_one(src, lib, deps, workdir, name):
    p = os.path.join(workdir, name + ".rs")
    with open(p, "w") as f:
        f.write(src)
    r = build.run(["rustc", "+nightly", p, "--edition", "2021", "--crate-type", "lib", "--emit", "metadata",
                   "-o", os.path.join(workdir, name + ".rmeta"), "--error-format=json",
                   "--extern", "palmtree=" + lib] + deps)
    errs = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error" and not m["message"].startswith("aborting"):
            code = (m.get("code") or {}).get("code")
            lines = [s["line_start"] for s in m.get("spans", []) if s.get("is_primary") and s["file_name"] == p]
            errs.append((code, lines, m["message"]))
    return r.returncode, errs


def run(report, witnesses, positives):
    """witnesses: (key, what, items, good, bad, codes); `bad` is appended to `good` in the same body.
    positives: (key, what, items, body)."""
    try:
        lib, deps = build.compile_repo(True)
    except build.CompileError as e:
        report.undecide("build", "the crate does not compile: " + str(e)[-400:])
        return
    work = tempfile.mkdtemp(prefix="palm-witness-")
    try:
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for i, (key, what, items, body) in enumerate(positives):
                src = PRELUDE + items + "\nfn witness() {\n" + body + "\n}\n"
                jobs.append(("pos", key, what, None, ex.submit(compile_one, src, lib, deps, work, "p%d" % i), None))
            for i, (key, what, items, good, bad, codes) in enumerate(witnesses):
                if isinstance(bad, tuple):      # items-level: (twin items, bad items)
                    s_good = PRELUDE + items + bad[0]
                    s_bad = PRELUDE + items + bad[1]
                else:
                    s_good = PRELUDE + items + "\nfn witness() {\n" + good + "\n}\n"
                    s_bad = PRELUDE + items + "\nfn witness() {\n" + good + "\n" + bad + "\n}\n"
                a = ex.submit(compile_one, s_good, lib, deps, work, "g%d" % i)
                b = ex.submit(compile_one, s_bad, lib, deps, work, "b%d" % i)
                jobs.append(("neg", key, what, codes, a, b))
            n_pos = n_neg = 0
            for kind, key, what, codes, a, b in jobs:
                ra, ea = a.result()
                if kind == "pos":
                    n_pos += 1
                    if ra == 0:
                        report.ok(key, what)
                    else:
                        report.violation(key, "%s: legitimate program rejected: %s" % (what, ea[:1]))
                    continue
                rb, eb = b.result()
                n_neg += 1
                if ra != 0:
                    # the twin documents what must keep compiling; without it the witness proves nothing
                    if all(c in ("E0425", "E0432", "E0433", "E0412", "E0599", "E0107", "E0061") for c, _, _ in ea):
                        report.undecide(key, "the API this witness uses is gone: %s" % (ea[:1],))
                    else:
                        report.violation(key + "#twin", "%s: the legitimate twin is rejected: %s" % (what, ea[:1]))
                elif rb == 0:
                    report.violation(key, "%s: the offending program is accepted" % what)
                elif not any(c in codes for c, _, _ in eb):
                    report.undecide(key, "%s: rejected for another reason: %s" % (what, eb[:1]))
                else:
                    report.ok(key, "%s: rejected with %s" % (what, eb[0][0] or "a lifetime error"))
            report.analysed["programs that must be rejected"] = n_neg
            report.analysed["programs that must be accepted"] = n_pos
    finally:
        shutil.rmtree(work)
