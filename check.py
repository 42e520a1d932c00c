#!/usr/bin/env python3
"""check.py PROPERTY — decide one property of /repo's current working tree.

1. Extract the functions of /repo/src into the verifier's dialect and attach the contracts (extract/, contracts/).
2. Let Verus (Z3) discharge every obligation.
3. An obligation that fails is turned into a concrete input by searching with the real crate against an
   independent oracle (harness/); what is found is the replay.
Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
"""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
EXTRACT = f"{HERE}/extract/target/release/extract"
HARNESS = f"{HERE}/harness"
CONTRACTS = f"{HERE}/contracts"
MODULES = ["lexer", "obj", "mtl"]
RLIMIT = "40"

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def limits(mem):
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, timeout, cwd=None, mem=None, env=None):
    """Run; returns (code, stdout, stderr, timed_out)."""
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lambda: limits(mem), env=env)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace"), True


# ------------------------------------------------------------------------------------------------
# The proof
# ------------------------------------------------------------------------------------------------

TAG = re.compile(r"\[(C\d\d)\]")
VACUITY = """
// Must be rejected: it would be accepted if the assumptions were contradictory.
mod vp_vacuity { use vstd::prelude::*; use vstd::string::*; use crate::prelude::*; use crate::lexspec::*; use crate::objspec::*;
verus! {
proof fn vp_vacuity(a: &str, b: &str)
    ensures false,
{ broadcast use {axiom_str_size, axiom_str_ext}; assert(str_of(a@) == a); assert(a.spec_bytes().len() + b.spec_bytes().len() >= 0); }
} }
"""
VC_ERRORS = [
    ("postcondition", re.compile(r"postcondition not satisfied|unable to prove post|could not show termination of.*ensures")),
    ("bounds", re.compile(r"index in bounds|index out of bounds|out of bounds")),
    ("precondition", re.compile(r"precondition not (satisfied|met)")),
    ("invariant", re.compile(r"invariant not satisfied|loop ensures|loop invariant")),
    ("overflow", re.compile(r"arithmetic (underflow|overflow)|possible division by zero|overflow")),
    ("termination", re.compile(r"decreases|termination")),
    ("unreachable", re.compile(r"unreachable")),
    ("assertion", re.compile(r"assertion failed|assertion not satisfied|bitvector|split assertion|unable to prove assertion")),
    ("rlimit", re.compile(r"resource limit|rlimit")),
]


NO_MEASURE = re.compile(r"must have a decreases clause")

# Calls that the verifier knows completely and that need no argument of their own.
ARITHMETIC = {"min", "max", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub"}


class Proof:
    def __init__(self, work):
        self.work = work
        self.opaque = []          # functions whose body the verifier cannot read
        self.diverge = []         # functions whose loops or recursion have no measure: their termination is not shown
        self.notes = []
        self.failures = []        # failed obligations
        self.report = None
        self.state = "none"       # accepted | failed | unavailable
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.functions = []
        self.cmd = ""
        self.text = ""

    def run(self):
        gen, rep = f"{self.work}/verified.rs", f"{self.work}/extract.json"
        seed = []
        for attempt in range(8):
            rc, out, err, late = sh([EXTRACT, f"{REPO}/src", CONTRACTS, gen, rep] + self.opaque + ["may-diverge:" + f for f in self.diverge], 60)
            if rc != 0:
                self.state = "unavailable"
                self.notes.append("extraction failed: " + (err or out).strip()[-800:])
                return self
            self.report = json.load(open(rep))
            with open(gen, "a") as f:
                f.write(VACUITY)
            self.lines = open(gen).read().split("\n")
            verus = ["verus", gen, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--rlimit", RLIMIT, "--multiple-errors", "6", "--error-format=json"]
            self.cmd = " ".join(verus)
            rc, out, err, late = sh(verus + seed, 400 if not seed else 200, cwd=self.work)
            self.text = err
            if late:
                self.state = "unavailable"
                self.notes.append("the verifier gave no answer within 400 s")
                return self
            try:
                res = json.loads(out[out.index("{"):])
            except ValueError:
                res = {}
            vr = res.get("verification-results", {})
            diags = self.diagnostics(err)
            real = [d for d in diags if not d["vacuity"]]
            if real and all(d["class"] == "rlimit" for d in real) and not seed:
                # the solver gave up, nothing else failed: once more with another seed
                seed = ["--smt-option", "smt.random_seed=7", "--smt-option", "sat.random_seed=7"]
                continue
            hard = [d for d in diags if d["class"] == "construct"]
            endless = sorted({d["fn"] for d in diags if NO_MEASURE.search(d["message"]) and d["fn"]} - set(self.diverge))
            if endless:
                self.diverge += endless
                continue
            if vr.get("encountered-vir-error") or hard or "verified" not in vr:
                # Something the verifier cannot read: set the body of that function aside and keep its contract.
                bad = sorted({d["fn"] for d in hard if d["fn"]} - set(self.opaque))
                msgs = "; ".join(d["message"] for d in hard[:3]) or err.strip()[-400:]
                if not bad:
                    self.state = "unavailable"
                    self.notes.append("the verifier cannot read the extracted text: " + msgs)
                    return self
                self.notes.append(f"outside the verifier's reach: {', '.join(bad)}: {msgs}")
                self.opaque += bad
                continue
            self.verified = vr.get("verified", 0)
            self.errors = max(0, vr.get("errors", 0) - (1 if any(d["vacuity"] for d in diags) else 0))
            times = res.get("times-ms", {}).get("smt", {})
            self.smt_ms = times.get("smt-run", times.get("total", 0))
            for m in times.get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    self.functions.append({"function": f["function"], "ms": f["time"], "rlimit": f.get("rlimit"), "success": f.get("success")})
            vac = [d for d in diags if d["vacuity"]]
            self.failures = [d for d in diags if not d["vacuity"]] + [
                {"message": "nothing shows that this loop or recursion ends", "class": "termination", "fn": f, "tags": ["C01"], "where": "", "rendered": "", "vacuity": False}
                for f in self.diverge if f not in self.opaque]
            if not vac:
                self.state = "unavailable"
                self.notes.append("the assumptions are contradictory: a false lemma was accepted")
                return self
            self.state = "failed" if self.failures else "accepted"
            return self
        self.state = "unavailable"
        self.notes.append("too many functions outside the verifier's reach")
        return self

    def fn_at(self, line):
        over = [f for f in self.report["fns"] if f["lines"][0] <= line <= f["lines"][1]]
        return max(over, key=lambda f: f["lines"][0], default=None)

    def diagnostics(self, err):
        out = []
        for l in err.split("\n"):
            l = l.strip()
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error" or d.get("message", "").startswith("aborting due to"):
                continue
            msg = d["message"]
            spans = d.get("spans", [])
            for c in d.get("children", []):
                spans = spans + c.get("spans", [])
            kind = next((k for k, r in VC_ERRORS if r.search(msg)), None)
            if d.get("code"):
                kind = None
            primary = next((s for s in d.get("spans", []) if s.get("is_primary")), None)
            lines = [(s["line_start"], s["line_end"], s.get("label") or "") for s in spans if s.get("file_name", "").endswith("verified.rs")]
            text = "\n".join(self.lines[a - 1] for a, b, _ in lines for a in range(a, min(b, a + 60) + 1) if a - 1 < len(self.lines))
            fn = None
            # The function whose body is at fault: the one the primary span or any span's body lies in.
            cands = [self.fn_at(a) for a, _, _ in lines]
            if primary and primary.get("file_name", "").endswith("verified.rs"):
                fn = self.fn_at(primary["line_start"])
            if kind == "postcondition":
                fn = next((c for c in cands if c), fn)
            fn = fn or next((c for c in cands if c), None)
            tags = sorted(set(TAG.findall(text)))
            vac = "vp_vacuity" in text or any(self.lines[max(0, a - 6):a + 3].__str__().find("vp_vacuity") >= 0 for a, _, _ in lines)
            out.append({"message": msg, "class": kind or "construct", "fn": fn["fn"] if fn else None, "tags": tags, "where": text.strip()[:600],
                        "rendered": (d.get("rendered") or "")[:3000], "vacuity": vac})
        return out

    def shape_changed(self, fn):
        """Whether the function has other locals, loops, closures or calls than the contract was written for."""
        base = BASELINE.get(fn)
        cur = next((f for f in self.report["fns"] if f["fn"] == fn), None)
        if not base or not cur:
            return True
        return any(sorted(base[k]) != sorted(cur[k]) if isinstance(base[k], list) else base[k] != cur[k] for k in ("names", "loops", "closures")) \
            or sorted(c for c in base["placed"] if c.split("@")[0] not in ARITHMETIC) != sorted(c for c in cur["placed"] if c.split("@")[0] not in ARITHMETIC) \
            or sorted(c for c in base["calls"] if c not in ARITHMETIC) != sorted(c for c in cur["calls"] if c not in ARITHMETIC)

    def attributed(self, prop):
        """The failed obligations that speak about this property, and whether each is conclusive."""
        out = []
        for f in self.failures:
            fn_tags = TAGS.get(f["fn"], set())
            if f["class"] in ("overflow", "bounds", "unreachable", "termination") or (f["class"] == "precondition" and not f["tags"]):
                props = {"C01"} | (fn_tags if f["class"] == "precondition" else set())
            else:
                props = set(f["tags"]) or fn_tags
            if prop in props:
                f = dict(f)
                f["conclusive"] = (f["class"] != "rlimit" and f["fn"] in BASELINE and not self.shape_changed(f["fn"])
                                   and not any(c in self.unreadable() for c in self.calls(f["fn"])))
                out.append(f)
        return out

    def unreadable(self):
        """Last names of functions without a contract or with their body set aside."""
        return {f["fn"].split("::")[-1] for f in self.report["fns"] if not f["contract"]} - BASE_UNCONTRACTED

    def calls(self, fn):
        return next((f["calls"] for f in self.report["fns"] if f["fn"] == fn), [])


def load_baseline():
    try:
        return json.load(open(f"{CONTRACTS}/baseline.json"))
    except OSError:
        return {}


def contract_tags():
    """Which properties the contract of each function speaks about."""
    tags, clauses = {}, {}
    for m in MODULES:
        cur = None
        for l in open(f"{CONTRACTS}/{m}.vc"):
            if l.startswith("@fn "):
                cur = f"{m}::{l.split()[1]}"
                tags[cur] = set()
            elif l.startswith("@items"):
                cur = None
            elif cur:
                t = TAG.findall(l)
                tags[cur].update(t)
                for x in set(t):
                    clauses.setdefault(x, []).append(cur)
    for f in os.listdir(CONTRACTS):
        if f.endswith(".rs"):
            for l in open(f"{CONTRACTS}/{f}"):
                for x in set(TAG.findall(l)):
                    clauses.setdefault(x, []).append(f)
    return tags, clauses


BASE = load_baseline()
BASELINE = BASE.get("fns", {})
BASE_UNCONTRACTED = set(BASE.get("uncontracted", []))
TAGS, CLAUSES = contract_tags()


def trusted_base():
    """Everything the proof takes on trust, read off the verified text."""
    out = []
    for f in sorted(os.listdir(CONTRACTS)):
        if not f.endswith((".rs", ".vc")):
            continue
        text = open(f"{CONTRACTS}/{f}").read()
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]", text):
            out.append(f"{f}: assumed contract of {m.group(1).strip()}")
        for m in re.finditer(r"(?:broadcast )?axiom fn (\w+)", text):
            out.append(f"{f}: axiom {m.group(1)}")
        for m in re.finditer(r"external_body\]\s*\n\s*pub (?:fn|struct) (\w+)", text):
            out.append(f"{f}: external body {m.group(1)}")
        for m in re.finditer(r"\b(assume|admit)\(", text):
            out.append(f"{f}: {m.group(1)}")
    return out + [
        "Verus 0.2026.09.13, its vstd library and Z3",
        "the extractor's rewrites (listed in DESIGN.md): each replaces an expression by the one that defines it",
        "rustc compiles the functions with the meaning Verus gives them",
    ]


# ------------------------------------------------------------------------------------------------
# Failing inputs
# ------------------------------------------------------------------------------------------------

def unescape(s):
    """The text that a Rust string or character literal stands for."""
    def one(m):
        e = m.group(1)
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0] == "u":
            return chr(int(e[2:-1].replace("_", ""), 16))
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(e, e)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", one, s, flags=re.S)


def literals():
    """Words, numbers and whole texts written in the source, with those that the baseline does not have."""
    words, nums, texts = set(), set(), set()
    files = [f"{REPO}/src/{m}.rs" for m in MODULES] + [f for f in sorted(glob.glob(f"{REPO}/src/**/*.rs", recursive=True)) if os.path.basename(f)[:-3] not in MODULES]
    for f in files:
        try:
            t = open(f).read()
        except OSError:
            continue
        t = t.split("#[cfg(test)]")[0]
        t = re.sub(r"//[^\n]*", "", t)
        for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
            s = unescape(s)
            texts.add(s)
            words.update(w for w in re.split(r"[ \n\r\t\\]+", s) if w)
        for s in re.findall(r"b?'([^'\\\n]|\\(?:[^ux]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))'", t):
            texts.add(unescape(s))
        for s in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)", t):
            try:
                nums.add(int(s.replace("_", ""), 0))
            except ValueError:
                pass
        for s in re.findall(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)", t):
            x = float(s.replace("_", ""))
            words.update(repr(y) for y in (x, -x, 2 * x, x / 2, x + 1, x - 1, -2 * x))
        for a, b in re.findall(r"(\d+)\s*<<\s*(\d+)", t):
            if int(b) < 64:
                nums.add(int(a) << int(b))
        for a, b in re.findall(r"(?<![\w.])(\d[\d_]*)\s*\*\s*(\d[\d_]*)(?![\d.])", t):
            nums.add(int(a.replace("_", "")) * int(b.replace("_", "")))
        for a, b in re.findall(r"(?<![\w.])(\d+)\w*\.pow\((\d+)\)", t):
            if int(b) < 64:
                nums.add(int(a) ** int(b))
        for sign, bits in re.findall(r"\b([ui])(8|16|32|64|128)\b", t):
            k = int(bits) - (sign == "i")
            nums.update((1 << k) + d for d in (-1, 0, 1, 2))
            texts.update(f"-{(1 << k) + d}" for d in (-1, 0, 1))
    return words, nums, texts


def shifts(nn):
    """Whether the source shifts by, or takes the power of, something with a name."""
    t = "".join(open(f).read().split("#[cfg(test)]")[0] for f in glob.glob(f"{REPO}/src/**/*.rs", recursive=True))
    return bool(nn) and re.search(r"<<|>>\s*\w|\.pow\(", t) is not None


def dictionary(path):
    words, nums, texts = literals()
    nw, nn, nt = words - set(BASE.get("words", [])), nums - set(BASE.get("numbers", [])), texts - set(BASE.get("texts", []))
    if shifts(nn):
        nn |= {1 << n for n in nn if 4 <= n <= 20}
    for n in nn:
        if n < 0x110000 and not 0xD800 <= n < 0xE000:
            nt.add(chr(n))
        if 0x80 <= n < 0xC0:
            nt.add(chr(n + 0x40))                     # two bytes, the second of which is n
            nt.add(chr(0x2000 + n - 0x80))            # three bytes, the last of which is n
        if 0xC2 <= n < 0xE0:
            nt.add(chr((n & 0x1F) << 6))              # two bytes, the first of which is n
        if 0xE1 <= n < 0xF0 and n != 0xED:
            nt.add(chr((n & 0xF) << 12))
    with open(path, "w") as f:
        for w in sorted(words):
            f.write(f"w {w}\n")
        for w in sorted(nw):
            f.write(f"w {w}\n" * 12)
        for n in sorted(nn):
            f.write(f"n {n}\n" * 3)
        for t in sorted(nt):
            if 0 < len(t) < 40:
                f.write(f"t {t.encode('utf8', 'surrogatepass').hex()}\n")


class Harness:
    def __init__(self, work):
        self.work, self.bin, self.note, self.lexer = work, None, "", True

    def build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{self.work}/target")  # always built afresh
        for extra in ([], ["--no-default-features"]):
            rc, out, err, late = sh(["cargo", "build", "--release", "--offline", "-q"] + extra, 300, cwd=HARNESS, env=env)
            if rc == 0:
                self.bin = f"{self.work}/vp_harness"
                shutil.copy(f"{self.work}/target/release/vp_harness", self.bin)
                shutil.rmtree(f"{self.work}/target", ignore_errors=True)
                self.lexer = not extra
                return self
            self.note = err.strip()[-1500:]
        return self

    def one(self, prop, seed, count, secs, small, bulk, dic, current="-", stop=None):
        cmd = [self.bin, "search", prop, str(seed), str(count), str(secs), str(small), str(bulk), dic, current]
        with tempfile.TemporaryFile(dir=self.work) as f:
            p = subprocess.Popen(cmd, cwd=self.work, stdout=f, stderr=subprocess.DEVNULL, preexec_fn=lambda: limits(6 << 30))
            end, late = time.time() + secs + 90, False
            while p.poll() is None:
                if time.time() > end or (stop and stop.is_set()):
                    late = time.time() > end
                    p.kill()
                    p.wait()
                    break
                try:
                    p.wait(0.2)
                except subprocess.TimeoutExpired:
                    pass
            rc = p.returncode
            f.seek(0)
            out = f.read().decode("utf8", "replace")
        rows = []
        for l in out.split("\n"):
            if l.startswith("{"):
                try:
                    rows.append(json.loads(l))
                except ValueError:
                    pass
        if stop and any(r.get("found") for r in rows):
            stop.set()      # one failing input is enough
        return rc, rows, late

    def search(self, prop, secs, small, bulk, workers=7):
        """Returns (found or None, statistics)."""
        dic = f"{self.work}/dict"
        dictionary(dic)
        stop = threading.Event()
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            jobs = [ex.submit(self.one, prop, SEED * 1000 + k, 10**9, secs, small if k == 0 else 1, bulk if k == workers - 1 else 0, dic, "-", stop) for k in range(workers)]
            res = [j.result() for j in jobs]
        stats = {"evaluations": 0, "distinct": 0, "accepted": 0, "samples": [], "enumerated": 0, "large": 0, "depth": 0}
        found = None
        for k, (rc, rows, late) in enumerate(res):
            hit = [r for r in rows if r.get("found")]
            if hit and (found is None or len(hit[-1]["input"]) < len(found["input"])):
                found = hit[-1]
            for r in rows[-1:]:
                for key in ("evaluations", "distinct", "accepted", "enumerated", "large"):
                    stats[key] += r.get(key, 0)
                stats["depth"] = max(stats["depth"], r.get("depth", 0))
                stats["samples"] += r.get("samples", [])[:1]
        if found is None:
            for k, (rc, rows, late) in enumerate(res):
                if rc not in (0, 1) and not rows:
                    # The process was ended: find the input that ended it.
                    cur = f"{self.work}/current{k}"
                    self.one(prop, SEED * 1000 + k, 10**9, secs, small if k == 0 else 1, bulk if k == workers - 1 else 0, dic, cur)
                    stats["crashes"] = stats.get("crashes", 0) + 1
                    if os.path.exists(cur):
                        rc2, out2, _, late2 = sh([self.bin, "replay", prop, cur], 60, cwd=self.work, mem=6 << 30)
                        if rc2 not in (0, 1):
                            text = open(cur, encoding="utf8", errors="replace", newline="").read()
                            stats["crash_input"] = text
                            if prop == "C01":
                                found = {"found": True, "input": text, "detail": f"the process is ended with status {rc2}"}
                            break
        return found, stats


    def deep(self):
        """Very long inputs against an unoptimised build with the stack of an ordinary thread (2 MB): code whose stack grows with the input ends the process."""
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{self.work}/target-debug")
        rc, out, err, late = sh(["cargo", "build", "--offline", "-q"] + ([] if self.lexer else ["--no-default-features"]), 300, cwd=HARNESS, env=env)
        if rc != 0:
            return None, 0
        opt, self.bin = self.bin, f"{self.work}/vp_harness_debug"
        shutil.copy(f"{self.work}/target-debug/debug/vp_harness", self.bin)
        shutil.rmtree(f"{self.work}/target-debug", ignore_errors=True)
        cur = f"{self.work}/current-deep"
        rc, rows, late = self.one("C01", SEED, 0, 60, 1, 2, f"{self.work}/dict", cur)
        self.bin = opt
        hit = [r for r in rows if r.get("found")]
        if hit:
            return hit[-1], 0
        if rc not in (0, 1) and not late and os.path.exists(cur):
            return {"found": True, "input": open(cur, encoding="utf8", errors="replace", newline="").read(), "detail": f"the process is ended with status {rc} (unoptimised build, thread with a stack of 2 MB)"}, 0
        return None, sum(r.get("evaluations", 0) for r in rows[-1:])


def write_replay(kind, **kw):
    d = f"{HERE}/work/replay"
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(kw, sort_keys=True).encode()).hexdigest()[:10]
    path = f"{d}/{PROP}-{kind}-{h}.json"
    json.dump({"property": PROP, "kind": kind, **kw}, open(path, "w"), indent=1, ensure_ascii=False)
    return path


def known_findings():
    out = []
    try:
        for l in open(f"{HERE}/known_findings.txt"):
            m = re.match(r"known: property=(\S+) input=(\S+) (.*)", l)
            if m and m.group(1) == PROP:
                out.append((json.loads(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def main():
    os.makedirs(f"{HERE}/work", exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{PROP}-", dir=f"{HERE}/work")
    try:
        return decide(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(work):
    if not os.path.exists(EXTRACT):
        subprocess.run(["bash", f"{HERE}/setup.sh"], check=True, stdout=subprocess.DEVNULL)
    harness = Harness(work)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(harness.build)
        proof = ex.submit(Proof(work).run).result()
        hb.result()
    mine = proof.attributed(PROP) if proof.state == "failed" else []
    if proof.state != "accepted" and unchanged_tree():
        # Not a verdict about the code: the machinery itself is not working.
        say(f"ERROR: the proof is not accepted on the tree it was written for ({proof.state}): {'; '.join(proof.notes)[:600]} {[f['message'] + ' in ' + str(f['fn']) for f in proof.failures[:3]]}")
        return 2
    solid = proof.state == "accepted" and not proof.opaque
    bounded_only = PROP in BOUNDED
    violation, how, stats, found = None, "", {}, None
    if harness.bin is None:
        say(f"NOTE: the replay harness does not build against this tree: {harness.note[-300:]}")
    else:
        if solid and not bounded_only:
            secs, small, bulk = (4, 5000, 0) if TIER == "quick" else (120, 200000, 1)
        elif proof.state == "accepted" and not proof.opaque:
            secs, small, bulk = (15, 30000, 1) if TIER == "quick" else (240, 300000, 1)
        else:
            secs, small, bulk = (75, 60000, 1) if TIER == "quick" else (300, 300000, 1)
        found, stats = harness.search(PROP, secs, small, bulk)
        rounds = 20000 if TIER == "quick" else 1000000
        rc, out, _, _ = sh([harness.bin, "assume", str(SEED), str(rounds)], 120, cwd=work)
        stats["assumptions"] = f"the assumed contracts of the standard library held in {rounds} rounds of random samples" if rc == 0 else f"NOT CONFIRMED: {out.strip()[:300]}"
        if rc != 0:
            say(f"NOTE: an assumed contract is not confirmed: {out.strip()[:300]}")
        if PROP == "C01" and not solid and not found:
            found, n = harness.deep()
            stats["evaluations"] += n
    known = known_findings()
    if found and any(found["input"] == k[0] for k in known):
        found = None
    for k in known:
        say(f"KNOWN-FINDING: property={PROP} {k[1]}")
    obligation = mine[0] if mine else (proof.failures[0] if proof.failures else None)
    if found:
        path = write_replay("input", input=found["input"], detail=found["detail"],
                            how_to_replay=f"cd {HARNESS} && cargo run --release --offline -- replay {PROP} FILE (a file with exactly this input)",
                            failed_obligation={k: obligation[k] for k in ("fn", "class", "message", "where", "rendered")} if obligation else None)
        violation = f"VIOLATION property={PROP} replay={path}"
        how = f"{found['detail']} on input {json.dumps(found['input'][:300], ensure_ascii=False)}"
    elif any(f["conclusive"] for f in mine):
        other = explained_elsewhere(harness) if harness.bin else None
        if other:
            say(f"NOTE: the failed obligation is a violation of {other[0]}, not of {PROP}: {other[1]['detail'][:300]}")
        else:
            f = next(f for f in mine if f["conclusive"])
            path = write_replay("obligation", failed_obligation={k: f[k] for k in ("fn", "class", "message", "where", "rendered")}, verifier_output=proof.text[-20000:])
            violation = f"VIOLATION property={PROP} replay={path} no-failing-input-found"
            how = f"{f['message']} in {f['fn']}: {f['where'][:300]}"
    wall = time.time() - T0
    evidence(proof, stats, harness, solid, mine, violation, wall)
    for n in proof.notes:
        say("NOTE:", n[:500])
    if violation:
        say(how)
        say(violation)
        return 1
    if solid:
        say(f"{PROP}: all {proof.verified} obligations discharged in {proof.smt_ms / 1000:.1f} s of solver time; {stats.get('evaluations', 0)} inputs replayed on the real crate agree; {wall:.0f} s")
    else:
        bad = "; ".join(f"{f['class']} in {f['fn']}" for f in proof.failures[:4])
        say(f"{PROP}: BOUNDED for this tree: the proof does not go through as written ({proof.state}; {bad or '; '.join(proof.notes)[:200]}), and no input breaks the property among {stats.get('evaluations', 0)} tried; {wall:.0f} s")
    return 0


ALL = [f"C{k:02d}" for k in range(1, 21)]
BOUNDED = set()


def unchanged_tree():
    try:
        return all(hashlib.sha256(open(f"{REPO}/src/{m}.rs", "rb").read()).hexdigest() == h for m, h in BASE.get("sources", {"-": ""}).items())
    except OSError:
        return False


def explained_elsewhere(harness):
    """A concrete violation of another property that explains why an obligation fails."""
    dic = f"{harness.work}/dict"
    others = [p for p in ALL if p != PROP]
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        jobs = {p: ex.submit(harness.one, p, SEED, 10**9, 20, 6000, 0, dic) for p in others}
        for p, j in jobs.items():
            rc, rows, late = j.result()
            hit = [r for r in rows if r.get("found")]
            if hit:
                for q in jobs.values():
                    q.cancel()
                return p, hit[-1]
    return None


def evidence(proof, stats, harness, solid, mine, violation, wall):
    fns = (proof.report or {}).get("fns", [])
    under = [f["fn"] for f in fns if f["contract"]]
    cov = {
        "obligations": proof.verified + proof.errors,
        "discharged": proof.verified,
        "checker_cmd": proof.cmd,
        "trusted_base": trusted_base(),
        "back_end": "Verus with Z3",
        "solver_seconds": round(proof.smt_ms / 1000, 2),
        "proof_state": proof.state,
        "contract_clauses_of_this_property": len(CLAUSES.get(PROP, [])),
        "functions_that_carry_them": sorted(set(CLAUSES.get(PROP, []))),
        "functions_under_contract": under,
        "functions_without_contract": [f["fn"] for f in fns if not f["contract"]],
        "functions_set_aside": proof.opaque,
        "left_out_by_extraction": (proof.report or {}).get("dropped", []),
        "rewrites": (proof.report or {}).get("rewrites", {}),
        "assumed_contracts_sampled": stats.get("assumptions", "not run"),
        "vacuity": "a false lemma over the same assumptions was rejected" if proof.state in ("accepted", "failed") else "not established",
        "bounded": not solid or PROP in BOUNDED,
        "failed_obligations": [{k: f[k] for k in ("fn", "class", "message", "tags", "where")} for f in proof.failures[:10]],
        "notes": proof.notes,
        "replayed_inputs": stats.get("evaluations", 0),
        "replayed_distinct": stats.get("distinct", 0),
        "replayed_accepted_by_the_parser": stats.get("accepted", 0),
        "samples": [s[:300] for s in stats.get("samples", [])[:4]],
        "evaluations": stats.get("evaluations", 0),
        "distinct_nontrivial": stats.get("distinct", 0),
        "rule": "inputs tried on the real crate against the independent oracle; non-trivial: distinct and longer than three characters",
        "explanation": "level is proof when every obligation was discharged on this run; otherwise the search with the stated counts stands in and is bounded",
    }
    level = "proof" if solid and PROP not in BOUNDED else "other"
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": ["inputs are shorter than isize::MAX bytes, as every Rust allocation is", "allocation does not fail", "the standard library's number syntax is taken as it is"]}
    json.dump(ev, open(f"{HERE}/evidence/{PROP}.json", "w"), indent=1, ensure_ascii=False)


if __name__ == "__main__":
    sys.exit(main())
