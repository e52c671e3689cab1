"""Driver library: build units from /repo's working tree, run the explorations, judge, replay, report."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
CORES = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """the check could not do its work (exit 2)"""


class Unit:
    def __init__(self, name, src, defs=(), flags=("-O2",), std="c++23", cxx="g++-14", libs=(), strict=True, link=True, text=None, extra=(), timeout=600, single=False):
        self.name, self.src, self.defs, self.flags, self.std, self.cxx = name, src, list(defs), list(flags), std, cxx
        self.libs, self.strict, self.link, self.text, self.extra, self.timeout = list(libs), strict, link, text, list(extra), timeout
        self.single = single
        self.ok = None
        self.log = ""
        self.exe = None


SMOKE = r"""
#include <cthash/cthash.hpp>
#include <iostream>
int main(int argc, char ** argv) {
	const std::string_view in{argv[0]};
	std::cout << cthash::sha224{}.update(in).final() << cthash::sha256{}.update(in).final() << cthash::sha384{}.update(in).final() << cthash::sha512{}.update(in).final();
	std::cout << cthash::sha512t<224>{}.update(in).final() << cthash::sha512t<256>{}.update(in).final();
	std::cout << cthash::sha3_224{}.update(in).final() << cthash::sha3_256{}.update(in).final() << cthash::sha3_384{}.update(in).final() << cthash::sha3_512{}.update(in).final();
	std::cout << cthash::shake128{}.update(in).final<256>() << cthash::shake256{}.update(in).final<256>();
	std::cout << cthash::xxhash32{}.update(in).final() << cthash::xxhash64{}.update(in).final() << (argc > 5) << "\n";
}
"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.build = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(self.replays, f))
        self.states = self.transitions = self.validated = self.outcomes = 0
        self.samples, self.violations, self.assumptions, self.jobs = [], [], [], []
        self.skipped, self.unreplayed = [], []
        self.extra = {}
        self.exhaustive_note = None
        self.errors = []
        self.lines = []
        self.pool = cf.ThreadPoolExecutor(CORES)

    # ------------------------------------------------------------------ building
    def command(self, u, out=None):
        src = u.src
        if u.text is not None:
            src = os.path.join(self.build, u.name + ".cpp")
            with open(src, "w") as f:
                f.write(u.text)
        elif not os.path.isabs(src):
            src = os.path.join(VERIF, "harness", src)
        u.path = src
        u.exe = os.path.join(self.build, u.name) if u.link else os.path.join(self.build, u.name + ".o")
        cmd = [u.cxx, "-std=" + u.std, "-g0", "-w", "-fno-diagnostics-color"] + (["-I" + self.single_shim()] if u.single else []) + ["-I" + INC, "-I" + VERIF] + u.flags + ["-D" + d for d in u.defs]
        cmd += ["-o", out or u.exe, src] + u.extra + (["-pthread"] + u.libs if u.link else ["-c"])
        return cmd

    def single_shim(self):
        """an include directory where every modular header is replaced by the single one"""
        top = os.path.join(self.build, "single")
        if not os.path.isdir(top):
            for d, _, files in os.walk(os.path.join(INC, "cthash")):
                to = os.path.join(top, os.path.relpath(d, INC))
                os.makedirs(to, exist_ok=True)
                for f in files:
                    with open(os.path.join(to, f), "w") as o:
                        o.write('#include "%s"\n' % os.path.join(INC, "cthash-single-header.hpp"))
                        if f == "simple.hpp":  # not part of the single header
                            o.write('#include "%s"\n' % os.path.join(d, f))
        return top

    def compile_one(self, u):
        cmd = self.command(u)
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=u.timeout, errors="replace")
            u.ok, u.log, u.rc = p.returncode == 0, p.stdout, p.returncode
        except subprocess.TimeoutExpired:
            u.ok, u.log, u.rc = False, "compile timeout after %d s" % u.timeout, None
        u.seconds = time.time() - t
        u.cmd = cmd
        return u

    def environment_failure(self, u):
        return u.rc is None or u.rc < 0 or re.search(r"Killed|internal compiler error|virtual memory exhausted|No space left|out of memory|Cannot allocate", u.log)

    def compile(self, units, what="uses of the public interface that this property covers do not compile"):
        """compile all; a strict unit that does not compile although the library itself does is a violation"""
        smoke = Unit("smoke", None, text=SMOKE, flags=("-O0",), link=False)
        list(self.pool.map(self.compile_one, [smoke] + list(units)))
        if not smoke.ok:
            raise CheckError("the library does not compile at all:\n" + smoke.log[-3000:])
        good = []
        for u in units:
            if u.ok:
                good.append(u)
                continue
            if self.environment_failure(u):
                raise CheckError("compiling %s failed for a reason of the environment:\n%s" % (u.name, u.log[-2000:]))
            if not u.strict:
                self.note("unit %s does not compile and is left out: %s" % (u.name, first_error(u.log)))
                continue
            self.violation("compile-" + u.name, what + ": " + first_error(u.log), "command: %s\n\n%s" % (" ".join(u.cmd), u.log[:20000]), src=u.path)
        return good

    # ------------------------------------------------------------------ running
    def run(self, u, args=(), timeout=900, job_timeout=None, env=None, parallel=CORES):
        if self.violations and not self.thorough and time.time() - self.t0 > 240:
            self.skipped.append(u.name)  # the answer is known
            return None
        job_timeout = job_timeout or (400 if self.thorough else 240)
        cmd = [u.exe] + list(args) + (["--thorough"] if self.thorough else []) + ["-j", str(parallel), "--timeout", str(job_timeout)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout if not self.thorough else timeout * 20, errors="replace", env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s did not end within %d s" % (u.name, timeout))
        seen = 0
        for line in p.stdout.splitlines():
            if not line.startswith("{"):
                continue
            try:
                r = json.loads(line)
            except ValueError:
                continue
            seen += 1
            self.record(u, r, args, env, p.stderr)
        if seen == 0:
            raise CheckError("harness %s reported nothing (exit %s): %s" % (u.name, p.returncode, (p.stdout + p.stderr)[-2000:]))
        return p

    def run_all(self, units, **kw):
        for u in units:
            self.run(u, **kw)

    def record(self, u, r, args, env, stderr):
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.validated += r["validated"]
        self.outcomes += r["outcomes"]
        self.jobs.append({"job": u.name + ":" + r["job"], "states": r["states"], "transitions": r["transitions"], "validated": r["validated"], "distinct_outcomes": r["outcomes"], "status": r["status"]})
        for s in r["samples"]:
            if len(self.samples) < 24:
                self.samples.append(r["job"] + ": " + s)
        if r["status"] == "ok":
            return
        if r["status"] == "killed":
            raise CheckError("job %s of %s was killed (memory?)" % (r["job"], u.name))
        if len(self.violations) >= 6 and not self.thorough:
            self.unreplayed.append(u.name + ":" + r["job"])  # enough of them are confirmed
            return
        # replay the job alone before believing it
        confirmed, last = None, ""
        for attempt in range(3):
            if r["status"] == "hang":  # the harness has already run it alone
                confirmed = (r, stderr, " ".join([u.exe] + list(args) + ["--only", r["job"], "-j", "1"]))
                break
            cmd = [u.exe] + list(args) + ["--only", r["job"], "-j", "1", "--timeout", "300"] + (["--thorough"] if self.thorough else [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", env=dict(os.environ, **(env or {})))
            last = p.stdout + p.stderr
            for line in p.stdout.splitlines():
                if line.startswith("{"):
                    try:
                        q = json.loads(line)
                    except ValueError:
                        continue
                    if q["status"] in ("fail", "crash", "hang"):
                        confirmed = (q, p.stderr, " ".join(cmd))
            if confirmed:
                break
        if not confirmed:
            raise CheckError("job %s of %s failed once and never again when replayed: %s" % (r["job"], u.name, json.dumps(r)[:1500]))
        q, err, cmd = confirmed
        if q["status"] == "fail":
            head = q["fails"][0] if q["fails"] else "?"
        elif q["status"] == "hang":
            head = "does not end: " + q["where"]
        else:
            head = "crash/abort (code %d) at: %s" % (q["code"], q["where"])
            m = re.search(r"(.*failed assertion.*|.*Assertion.*failed.*|.*ERROR: AddressSanitizer.*|.*runtime error:.*|.*MemorySanitizer.*)", err + last)
            if m:
                head += " | " + m.group(1).strip()[:300]
        body = "job: %s\nstatus: %s\nposition: %s\n\nfailures:\n%s\n\nbuilt with: %s\nreplay with: %s\n\nstderr:\n%s" % (r["job"], q["status"], q["where"], "\n".join(q["fails"]), " ".join(u.cmd), cmd, err[-6000:])
        self.violation(u.name + "-" + r["job"], head, body, src=u.path)

    # ------------------------------------------------------------------ reporting
    def note(self, s):
        self.lines.append(s)
        print("note: " + s)

    def violation(self, key, head, body, src=None):
        """key identifies the specific failing case for the known findings file"""
        self.violations.append({"key": key, "head": head, "body": body, "src": src})

    def known(self):
        out = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.strip())
                if m and m.group(1) == self.prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
        return out

    def finish(self, technique_note=""):
        known, hit, left = self.known(), set(), []
        for v in self.violations:
            for i, (rx, what) in enumerate(known):
                if rx.search(v["key"] + " " + v["head"]):
                    hit.add(i)
                    break
            else:
                left.append(v)
        for i in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[i][1]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated, "distinct_outcomes": self.outcomes, "samples": self.samples or ["(no sample recorded)"], "jobs": len(self.jobs)}
        cov.update(self.extra)
        if technique_note:
            cov["explanation"] = technique_note
        slow = sorted(self.jobs, key=lambda j: -j["transitions"])[:40]
        cov["largest_jobs"] = slow
        if self.skipped:
            self.note("not run because violations were already known: " + ", ".join(self.skipped))
        if self.unreplayed:
            self.note("%d more jobs failed and were not replayed: %s" % (len(self.unreplayed), ", ".join(self.unreplayed)[:600]))
        if self.lines:
            cov["notes"] = self.lines
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(left)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s %s: states=%d transitions=%d validated=%d outcomes=%d jobs=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.transitions, self.validated, self.outcomes, len(self.jobs), time.time() - self.t0))
        keep = bool(left)
        for k, v in enumerate(left):
            if k == 25:
                print("  ... and %d more" % (len(left) - k))
                break
            name = "%s-%s" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", v["key"])[:80])
            path = os.path.join(self.replays, name + ".txt")
            with open(path, "w") as f:
                f.write("property: %s\nwhat: %s\n%s\n" % (self.prop, v["head"], v["body"]))
                if v["src"] and v["src"].startswith(self.build):
                    f.write("\n--- source ---\n" + open(v["src"]).read()[:200000])
            print("  " + v["head"][:700])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not keep and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.build, ignore_errors=True)
        return 1 if left else 0


def first_error(log):
    m = re.search(r"^.*(?:error:|undefined reference).*$", log, re.M)
    return m.group(0).strip()[:400] if m else log.strip()[:400]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    from props import registry
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = None
    try:
        ctx = Ctx(a.property, a.tier, seed)
        note = registry.CHECKS[a.property](ctx)
        rc = ctx.finish(note or "")
    except CheckError as e:
        if ctx and ctx.violations:  # what was found before the check broke down is still true
            rc = ctx.finish("incomplete: " + str(e)[:300])
            if rc == 1:
                sys.exit(1)
        print("CHECK-ERROR property=%s: %s" % (a.property, e))
        sys.exit(2)
    sys.exit(rc)
