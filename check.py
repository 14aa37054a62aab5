#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree.

1. Extract the functions under contract from /repo mechanically, splice the contracts in, and
   have Verus discharge every obligation (proof/, extract/).
2. Run the same contracts in executable form against the real crate over generated inputs
   (harness/). This is bounded; it supplies the concrete failing input when an obligation fails
   and stands in, labelled as such, when the verifier cannot take the changed code.

exit 0: held on everything explored. exit 1: VIOLATION line. Anything else: no answer.
"""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
DEADLINE = time.time() + 800        # a check has 900 s
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")

sys.path.insert(0, VERIF)
from units import UNITS, PROPS  # noqa: E402


def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=ENV, **kw)
    except subprocess.TimeoutExpired as e:
        class R:  # noqa: E306
            returncode = -9
            stdout = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
            stderr = "timeout"
        return R()


def build(crate, target, binary):
    """Build a tool of ours; returns its path or None."""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, target))
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, crate), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    path = os.path.join(BUILD, target, "release", binary)
    if r.returncode != 0:
        return None, r.stdout[-4000:]
    return path, ""


HARNESS = {"C": ("harness", "harness", "cinereus-contract-search"), "H": ("harness-html", "harness-html", "hotmeal-contract-search")}

# ---------------------------------------------------------------- the proof
TAG = re.compile(r"@([CH]\d\d)")


def line_tags(lines, n):
    if 1 <= n <= len(lines):
        l = lines[n - 1]
        k = l.rfind("// @")
        if k >= 0:
            return set(TAG.findall(l[k:]))
    return set()


def strip_ws(s):
    return re.sub(r"\s+", "", s)


class Unit:
    """One Verus run."""

    def __init__(self, name, extractor, work):
        self.name = name
        self.ok = False            # every obligation discharged
        self.undecided = None      # reason when the verifier gave no answer
        self.failed = []           # dicts: tags, fn, line, text, message
        self.report = {}
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.total_ms = 0
        self.queries = []
        self.clauses = {}
        self.elsewhere = set()     # functions another unit verifies
        self.trusted = []
        self.raw = ""
        spec = UNITS[name]
        spec = spec if isinstance(spec, dict) else dict(template=spec)
        self.safety = spec.get("safety", "C11")     # the property that promises the code does not panic
        self.modules = spec.get("modules", [])      # verify only these; the others are verified by the units they belong to
        tpl = os.path.join(VERIF, "proof", spec["template"])
        out = os.path.join(work, name + ".rs")
        rep = os.path.join(work, name + ".report.json")
        self.out = out
        srcs = [a for d in spec.get("src", ["cinereus/src"]) for a in ("--src", os.path.join(REPO, d))]
        r = sh([extractor, *srcs, "--template", tpl, "--out", out, "--report", rep], timeout=120)
        if r.returncode != 0:
            self.undecided = "extraction: " + (r.stderr.strip() or "failed")[:2000]
            return
        self.report = json.load(open(rep))
        self.text = open(out).read()
        self.lines = self.text.split("\n")
        self.overlay = self.overlay_lines(tpl)
        self.scan()
        began = time.time()
        self.run_verus()
        if self.failed and not self.undecided and time.time() < DEADLINE - 300 and time.time() - began < 90:
            # an obligation that fails may only have been too hard: once more with more fuel
            again = ["--rlimit", "40"]
            first = self.failed
            self.failed = []
            self.run_verus(again)
            if self.undecided:
                self.undecided = None
                self.failed = first

    def here(self, n):
        """Is this line of the generated file in a module this unit verifies?"""
        if not self.modules:
            return True
        for i in range(min(n, len(self.lines)) - 1, -1, -1):
            m = re.match(r"(?:pub )?mod (\w+) \{", self.lines[i])
            if m:
                return m.group(1) in self.modules
        return False

    def overlay_lines(self, tpl):
        seen = set()
        todo = [tpl]
        while todo:
            p = todo.pop()
            for l in open(p):
                m = re.match(r"\s*//@include (\S+)", l)
                if m:
                    todo.append(os.path.join(os.path.dirname(p), m.group(1)))
                elif l.strip() and not l.strip().startswith("//@"):
                    seen.add(strip_ws(l))
        return seen

    def scan(self):
        """Assumptions and tagged clauses, counted mechanically."""
        fn = None
        inside = not self.modules
        for i, l in enumerate(self.lines):
            m = re.match(r"(?:pub )?mod (\w+) \{", l)
            if m and self.modules:
                inside = m.group(1) in self.modules
            m = re.match(r"\s*//@begin (.*) (\S+)$", l)
            if m and not inside:
                self.elsewhere.add(m.group(1))
            for t in line_tags(self.lines, i + 1) if inside else ():
                self.clauses.setdefault(t, []).append(l.split("//")[0].strip().rstrip(","))
            if re.search(r"external_body|assume_specification|\badmit\(|\bassume\(|external_fn_specification|#\[verifier::external", l) and not l.strip().startswith("//"):
                k = i
                while k < len(self.lines) and not re.search(r"\b(fn|struct|type)\b|assume_specification|\bassume\(|\badmit\(", self.lines[k]):
                    k += 1
                self.trusted.append(self.lines[k].strip()[:140])

    def fn_at(self, n):
        """(function, source location) of a line of the generated file"""
        loc = ""
        for i in range(min(n, len(self.lines)) - 1, -1, -1):
            l = self.lines[i].strip()
            if l.startswith("//@src") and not loc:
                loc = l[7:].strip()
            m = re.match(r"//@begin (.*) (\S+)$", l)
            if m:
                return m.group(1), loc or m.group(2)
            if l.startswith("//@endfn"):
                loc = ""
                break
        for i in range(min(n, len(self.lines)) - 1, -1, -1):
            m = re.search(r"\bfn (\w+)", self.lines[i])
            if m and not self.lines[i].strip().startswith("//"):
                return m.group(1), ""
        return "?", ""

    def run_verus(self, extra=()):
        cmd = ["verus", "--edition", "2024", "--triggers-mode", "silent", os.path.basename(self.out), "--output-json", "--time-expanded",
               "--error-format=json", "--multiple-errors", "20", "--num-threads", "8", *[a for m in self.modules for a in ("--verify-module", m)], *extra]
        self.cmd = " ".join(cmd)
        t = time.time()
        r = sh(cmd, timeout=max(5, min(300, DEADLINE - 130 - time.time())), cwd=os.path.dirname(self.out))
        self.total_ms += int((time.time() - t) * 1000)
        self.raw = r.stderr
        try:
            d = json.loads(r.stdout)
            res = d["verification-results"]
        except Exception:
            self.undecided = "verus gave no result: " + r.stderr[-1500:]
            return
        smt = d.get("times-ms", {}).get("smt", {})
        self.smt_ms += smt.get("smt-run", 0)
        self.queries = [(q["function"], q["success"], q["time"]) for m in smt.get("smt-run-module-times", []) for q in m.get("function-breakdown", [])]
        self.verified = res.get("verified", 0)
        self.errors = res.get("errors", 0)
        must = {m for m in re.findall(r"\bfn (must_fail_\w+)", self.text) if self.here(self.text[:self.text.index("fn " + m)].count("\n") + 1)}
        hit = set()
        hard = []
        compile_errors = []
        for l in r.stderr.split("\n"):
            if not l.startswith("{"):
                continue
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") not in ("error", "error: internal compiler error"):
                continue
            msg = m["message"]
            if msg.startswith("aborting due to"):
                continue
            if m.get("code"):
                compile_errors.append(m.get("rendered") or msg)
                continue
            spans = [s for s in m["spans"] if os.path.basename(s["file_name"]) == os.path.basename(self.out)]
            prim = [s for s in spans if s["is_primary"]] or spans
            if not prim:
                compile_errors.append(m.get("rendered") or msg)
                continue
            line = prim[0]["line_start"]
            fn, loc = self.fn_at(line)
            if fn.startswith("must_fail_"):
                hit.add(fn)
                continue
            known = re.match(r"assertion failed|precondition not satisfied|postcondition not satisfied|invariant not satisfied|loop invariant|possible |decreases not|could not prove|unable to prove|assert_forall|recommendation|failed |cannot prove|possible arithmetic|possible division|constructed value may fail|while loop|function body check|assertion not|unreached|loop ensures|value may|bitvector|termination", msg)
            if "Resource limit" in msg or "rlimit" in msg:
                hard.append(f"{fn}: resource limit exceeded")
                continue
            if not known:
                compile_errors.append(m.get("rendered") or msg)
                continue
            tags = set()
            for s in spans:
                for n in range(s["line_start"], min(s["line_end"], s["line_start"] + 3) + 1):
                    tags |= line_tags(self.lines, n)
            text = self.lines[line - 1].strip()
            # an invariant of the proof that the code's own `continue` or loop end does not keep is a supporting one
            helper = "invariant" in msg and any(strip_ws(self.lines[s["line_start"] - 1]) in self.overlay for s in spans)
            if not tags and not helper and strip_ws(self.lines[line - 1]) not in self.overlay and loc:
                tags = {self.safety}       # a safety obligation of the code itself
            if not tags and msg.startswith("decreases not"):
                tags = {self.safety}
            self.failed.append(dict(tags=sorted(tags), fn=fn, loc=loc, line=line, text=text, message=msg, rendered=m.get("rendered", "")))
        if res.get("encountered-vir-error") or (compile_errors and not self.verified):
            self.undecided = "verus does not accept the code: " + (compile_errors[0] if compile_errors else "")[:1500]
            return
        if compile_errors:
            self.undecided = "verus reported: " + compile_errors[0][:1500]
            return
        if hard:
            self.undecided = "; ".join(hard)
        if must - hit and not hard:
            self.undecided = "vacuity guard: " + ", ".join(sorted(must - hit)) + " was accepted, so a contract is contradictory"
        self.must_fail = sorted(must)
        self.errors = max(0, self.errors - len(hit))
        self.ok = not self.failed and not self.undecided and self.errors == 0 and self.verified > 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = PROPS[prop]
    evdir = os.path.join(VERIF, "evidence")
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "cases"), exist_ok=True)
    os.makedirs(evdir, exist_ok=True)

    extractor, err = build("extract", "extract", "contract-extract")
    if not extractor:
        print("cannot build the extractor:\n" + err)
        return 2
    units = [Unit(u, extractor, work) for u in spec["units"]]

    # ---- verdict of the proof
    # A supporting invariant that no longer fits means the code has another shape than the proof was
    # written for: what fails next to it in the same function says nothing about the property.
    for u in units:
        misfit = {f["fn"] for f in u.failed if not f["tags"]}
        for f in u.failed:
            if f["tags"] and f["fn"] in misfit:
                f["tags"] = []
    failed = [(u, f) for u in units for f in u.failed if prop in f["tags"]]
    other = [(u, f) for u in units for f in u.failed if prop not in f["tags"]]
    # ("-": the code may panic or break a dependency's contract there, which no property of the unit is about)
    blocked = [(u, f) for u, f in other if not f["tags"] or f["tags"] == ["-"]]
    undecided = [f"{u.name}: {u.undecided}" for u in units if u.undecided]
    undecided += [f"{u.name}: {f['fn']}: {f['message']} ({f['text']})" for u, f in blocked]
    complete = bool(units) and not spec.get("partial")
    if failed:
        proof = "failed"
    elif undecided or not units:
        proof = "undecided"
    else:
        proof = "proved" if not other else "proved (obligations of other properties fail)"

    # ---- the executable contract, bounded
    search = None
    serr = ""
    if spec.get("search", True):
        exe, serr = build(*HARNESS[prop[0]])
        if exe:
            secs = spec.get("seconds", 8)
            if tier == "thorough":
                secs = 240
            elif failed or undecided:
                secs = max(10, min(60, int(DEADLINE - 60 - time.time())))
            r = sh([exe, "run", "--property", prop, "--seconds", str(secs), "--seed", str(seed), "--threads", "8", "--out", os.path.join(work, "cases")],
                   timeout=secs + 60)
            try:
                search = json.loads(r.stdout.strip().split("\n")[-1])
            except Exception:
                serr = "search gave no result: " + (r.stderr[-1500:] or r.stdout[-500:])

    # ---- report
    replay = None
    code = 0
    nfi = ""
    replays = os.path.join(VERIF, ".build", "replay")
    os.makedirs(replays, exist_ok=True)
    obl = "".join(
        f"obligation of {f['fn']} ({f['loc']}): {f['message']}\n    {f['text']}\n{f['rendered']}\n" for u, f in failed)
    if search and search.get("found"):
        src = os.path.join(work, "cases", prop + ".case")
        replay = os.path.join(replays, prop + ".case")
        shutil.copy(src, replay)
        with open(os.path.join(replays, prop + ".obligations.txt"), "w") as f:
            f.write(obl or f"proof verdict: {proof}\n" + "\n".join(undecided))
        code = 1
    elif failed:
        replay = os.path.join(replays, prop + ".obligation.txt")
        with open(replay, "w") as f:
            f.write(f"property {prop}: obligations that the verifier discharges on the unchanged tree now fail\n\n" + obl
                    + "\nverifier command: " + "; ".join(u.cmd for u, _ in failed[:1]) + "\n")
        code = 1
        nfi = " no-failing-input-found"
    if code == 0 and proof == "undecided" and not search:
        print(f"{prop}: no answer: {'; '.join(undecided)} {serr}")
        code = 2

    funcs = {}
    for u in units:
        for f in u.report.get("functions", []):
            if f["name"] in u.elsewhere:
                continue
            funcs[f["name"]] = f
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(getattr(u, "cmd", "") for u in units),
        "back_end": "Verus (SMT: Z3)",
        "proof_verdict": proof,
        "undecided": undecided,
        "failed_obligations": [f"{f['fn']} {f['loc']}: {f['message']}: {f['text']}" for _, f in failed][:20],
        "property_clauses": sorted({c for u in units for c in u.clauses.get(prop, [])}),
        "functions_under_contract": sorted(f"{f['name']} ({f['file']}:{f['line']}) {f['body']}" for f in funcs.values()),
        "functions_not_under_contract": sorted(set.intersection(*[set(u.report.get("not_under_contract", [])) for u in units])) if units else [],
        "extraction_rewrites": {u.name: u.report.get("rewrites", {}) for u in units},
        "vacuity_guards": sorted({m for u in units for m in getattr(u, "must_fail", [])}),
        "solver_ms": sum(u.smt_ms for u in units),
        "slowest_queries": sorted(((q[2], q[0]) for u in units for q in u.queries), reverse=True)[:5],
        "trusted_base": sorted({t for u in units for t in u.trusted}) + spec.get("trusted", []),
        "not_covered_by_the_proof": spec.get("gap", ""),
        "explanation": "proof: Verus obligations generated from /repo's current source; bounded_search: executable form of the same contract on the real crate, bounded, not counted as proof",
    }
    if search:
        cov["bounded_search"] = {k: search.get(k) for k in ("evaluations", "nontrivial", "exhaustive")}
        cov["evaluations"] = search.get("evaluations", 0)
        cov["distinct_nontrivial"] = search.get("nontrivial", 0)
        cov["rule"] = spec.get("rule", "random and small-exhaustive documents, attribute lists, patches or submission histories through the real hotmeal sources over stand-in dependencies; non-trivial: the case exercises the property" if prop.startswith("H") else "random and small-exhaustive tree pairs, configurations and matchings; non-trivial: the property's premises hold and the case exercises it")
        cov["samples"] = search.get("samples", [])[:2]
    if serr:
        cov["search_error"] = serr[:500]
    level = "proof" if proof.startswith("proved") and spec["level"] == "proof" else "exploration" if search else "other"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if code == 1 else 0)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    known(prop)
    print(f"{prop}: proof {proof}: {discharged}/{obligations} obligations discharged by Verus/Z3; "
          + (f"bounded search: {search.get('evaluations')} cases" if search else "no search " + serr[:200]))
    for x in undecided[:5]:
        print("  undecided: " + x.split("\n")[0][:300])
    for u, f in failed[:5]:
        print(f"  failed obligation: {f['fn']} {f['loc']}: {f['message']}: {f['text']}")
    if code == 1:
        if search and search.get("found"):
            print("  " + str(search.get("message", ""))[:400])
        print(f"VIOLATION property={prop} replay={replay}{nfi}")
    return code


def known(prop):
    """Known findings that are not repaired would be announced here; repaired ones suppress nothing."""
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={prop} "):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())


if __name__ == "__main__":
    sys.exit(main())
