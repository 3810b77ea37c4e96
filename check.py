#!/usr/bin/env python3
"""Decide one property of sph-sp by bounded symbolic execution of its real C code.

usage: check.py PROPERTY [--only SUBSTR] [--keep] [--jobs N]

For every harness entry that is annotated with the property (harness/*.c), the harness together with the
library's current source (/repo/source/c-precompiled/sph-sp/main.c) is translated by goto-cc, reduced to the
functions reachable from the entry, symbolically executed by cbmc and decided by its SAT solver. Each
counterexample is replayed natively (gcc, sanitizers) on the real code and only reported if it reproduces.

exit 0: all obligations hold within the bounds. exit 1: VIOLATION. exit 2: no answer."""
import concurrent.futures as cf
import json, os, re, shlex, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CBMC_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
  "--undefined-shift-check", "--unwinding-assertions", "--no-malloc-may-fail", "--object-bits", "10"]
LOCK = threading.Lock()

def log(*a):
  with LOCK: print(*a, flush=True)

# all time spent in one quick check, the rest of its 900s is for reporting
DEADLINE = time.time() + (840 if TIER == "quick" else 10 ** 6)
STOP = threading.Event()
RUNNING = set()

class Stopped(Exception): pass

def run(cmd, timeout=None, **kw):
  left = DEADLINE - time.time()
  if STOP.is_set() or left <= 0: raise Stopped()
  timeout = min(timeout, left) if timeout else left
  p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
  with LOCK: RUNNING.add(p)
  try:
    out, err = p.communicate(timeout=timeout)
  except subprocess.TimeoutExpired:
    kill(p)
    p.communicate()
    if time.time() >= DEADLINE: raise Stopped()
    raise
  finally:
    with LOCK: RUNNING.discard(p)
  if STOP.is_set() and p.returncode < 0: raise Stopped()
  return subprocess.CompletedProcess(cmd, p.returncode, out, err)

# seconds after which a second solver joins
RACE = float(os.environ.get("VF_RACE", "45"))

def race(cmd, other, delay, timeout):
  """the result of the first command to finish, where the other is started after a delay.
     the hardness of a formula differs much between solvers"""
  end = time.time() + timeout
  ps = []
  try:
    while True:
      left = DEADLINE - time.time()
      if STOP.is_set() or left <= 0: raise Stopped()
      if not ps or (len(ps) == 1 and time.time() > end - timeout + delay):
        out, err = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        c = other if ps else cmd
        p = subprocess.Popen(c, stdout=out, stderr=err, start_new_session=True)
        with LOCK: RUNNING.add(p)
        ps.append((p, c, out, err))
      for p, c, out, err in list(ps):
        if p.poll() is None: continue
        if STOP.is_set() and p.returncode < 0: raise Stopped()
        if p.returncode in (0, 10) or all(x[0].poll() is not None for x in ps):
          out.seek(0)
          err.seek(0)
          return subprocess.CompletedProcess(c, p.returncode, out.read(), err.read())
      if time.time() > end: raise subprocess.TimeoutExpired(cmd, timeout)
      try: ps[-1][0].wait(timeout=0.05 if time.time() > end - timeout + 2 else 0.01)
      except subprocess.TimeoutExpired: pass
  finally:
    for p, c, out, err in ps:
      if p.poll() is None:
        kill(p)
        p.wait()
      out.close()
      err.close()
      with LOCK: RUNNING.discard(p)

def kill(p):
  try: os.killpg(p.pid, 9)
  except OSError: pass

def stop_all():
  STOP.set()
  with LOCK: ps = list(RUNNING)
  for p in ps: kill(p)

def load_queries(prop, tier):
  """annotations: /*@ {json} @*/ in front of an entry function"""
  out = []
  for f in sorted(os.listdir(HARNESS)):
    if not f.endswith(".c"): continue
    text = open(os.path.join(HARNESS, f)).read()
    for m in re.finditer(r"/\*@(.*?)@\*/", text, re.S):
      a = json.loads(m.group(1))
      props = a["property"] if isinstance(a["property"], list) else [a["property"]]
      if prop not in props: continue
      variants = a.get(tier, a.get("quick", [""])) if tier == "thorough" else a.get("quick", [""])
      if tier == "thorough" and a.get("thorough") is not None:
        # thorough covers the quick variants as well, unless it says otherwise
        variants = list(dict.fromkeys(a.get("quick", [""]) + a["thorough"]))
      for v in variants:
        defs = [d for d in v.split() if not d.startswith("unwind=")]
        unwind = ([int(d[7:]) for d in v.split() if d.startswith("unwind=")] + [a.get("unwind", 8)])[0]
        out.append({"file": f, "entry": a["entry"], "defs": defs, "unwind": unwind,
          "unwindset": a.get("unwindset", []), "flags": a.get("flags", []), "about": a.get("about", ""),
          "timeout": a.get("timeout", 400 if tier == "quick" else 5400), "replay_timeout": a.get("replay_timeout", 20),
          "libs": a.get("libs", []), "stubs": a.get("stubs", ""), "shadow": a.get("shadow"), "replace": a.get("replace", {}), "partial": a.get("partial", {})})
  return out

class Query:
  def __init__(self, q, build, i):
    self.q = q
    self.name = "%s%s" % (q["entry"], "".join("_" + d.replace("-D", "").replace("=", "") for d in q["defs"]))
    self.dir = os.path.join(build, "%02d_%s" % (i, re.sub(r"\W", "_", self.name)[:80]))
    os.makedirs(self.dir, exist_ok=True)
    self.src = os.path.join(HARNESS, q["file"])
    self.res = {"entry": q["entry"], "defines": q["defs"], "bounds": q["about"]}
    self.procs = []

  def includes(self):
    # a shadow directory replaces included files of the library by models
    shadow = ["-I" + os.path.join(HARNESS, self.q["shadow"])] if self.q["shadow"] else []
    return shadow + ["-I" + HARNESS, "-I" + REPO + "/source/c/foreign", "-I" + REPO + "/source/c/foreign/sph-sc-lib",
      "-I" + REPO + "/source/c-precompiled"]

  def env(self):
    e = dict(os.environ)
    e["CPATH"] = INC
    return e

  def encode(self):
    gb = os.path.join(self.dir, "full.gb")
    out = os.path.join(self.dir, "entry.gb")
    r = run(["goto-cc", "-DVF_CBMC", "-c", "-o", gb, self.src, "-funsigned-char", "-std=c17", "-w"] +
      self.includes() + self.q["defs"], env=self.env(), timeout=120)
    if r.returncode:
      raise Inconclusive("translation failed: " + (r.stderr + r.stdout).decode("utf8", "replace")[-1500:])
    for f, g in self.q["replace"].items():
      # calls of the function f go to the model g of the harness
      r = run(["goto-instrument", "--replace-calls", f + ":" + g, gb, gb], timeout=120)
      if r.returncode: raise Inconclusive("replacing %s failed: %s" % (f, r.stderr.decode()[-500:]))
    txt = run(["goto-instrument", "--show-goto-functions", gb], timeout=120).stdout.decode("utf8", "replace")
    funcs = {}
    files = {}
    cur = None
    for line in txt.splitlines():
      m = re.match(r"^(\S.*) /\* (\S+) \*/$", line)
      if m:
        cur = m.group(2)
        funcs[cur] = []
        continue
      if cur is None: continue
      s = line.strip()
      if s.startswith("//"):
        if cur not in files:
          m = re.search(r" file (\S+) ", s)
          if m: files[cur] = m.group(1)
      else: funcs[cur].append(re.sub(r" // .*$", "", line))
    tok = re.compile(r"(?<![\w:$\"])[A-Za-z_]\w*(?![\w:]|::)")
    names = set(funcs)
    if self.q["entry"] not in names: raise Inconclusive("entry not found")
    refs = {f: {t for t in tok.findall(re.sub(r'"(?:[^"\\\\]|\\\\.)*"', "", "\n".join(b))) if t in names} for f, b in funcs.items()}
    seen = set()
    todo = [self.q["entry"], "__CPROVER_initialize", "__CPROVER__start"]
    while todo:
      f = todo.pop()
      if f in seen or f not in funcs: continue
      seen.add(f)
      todo += refs[f]
    drop = [f for f in funcs if f not in seen and funcs[f]]
    cmd = ["goto-instrument"] + sum([["--remove-function-body", f] for f in drop], []) + [gb, out]
    r = run(cmd, timeout=120)
    if r.returncode: raise Inconclusive("reduction failed: " + r.stderr.decode()[-500:])
    os.remove(gb)
    # endless loops, for example of worker threads, that the harness leaves after at most so many rounds
    for f, n in self.q["partial"].items():
      loops = run(["goto-instrument", "--show-loops", out], timeout=120).stdout.decode("utf8", "replace")
      loops = re.findall(r"^Loop (%s\.\d+):" % re.escape(f), loops, re.M)
      if not loops: continue
      r = run(["goto-instrument", "--unwindset", ",".join("%s:%d" % (l, n) for l in loops), "--partial-loops", out, out], timeout=120)
      if r.returncode: raise Inconclusive("unwinding %s failed: %s" % (f, r.stderr.decode()[-500:]))
    self.gb = out
    self.res["functions_encoded"] = sorted(f for f in seen if files.get(f, "").startswith(REPO))

  def cbmc(self, extra, unwind, timeout):
    cmd = ["cbmc", self.gb, "--function", self.q["entry"], "--unwind", str(unwind), "--json-ui", "--verbosity", "9"]
    for u in self.q["unwindset"]: cmd += ["--unwindset", u]
    cmd += CBMC_FLAGS + self.q["flags"] + extra
    t = time.time()
    try:
      r = race(cmd, cmd + ["--sat-solver", "cadical"], RACE, timeout)
    except subprocess.TimeoutExpired:
      raise Inconclusive("cbmc time limit of %ds reached" % timeout)
    wall = time.time() - t
    try:
      data = json.loads(r.stdout.decode("utf8", "replace"))
    except ValueError:
      raise Inconclusive("cbmc gave no usable output (%s): %s" % (r.returncode, r.stderr.decode()[-500:]))
    st = {"wall_s": round(wall, 2), "solver_s": 0.0, "sat_calls": 0}
    result = None
    errors = []
    for d in data:
      if "messageText" in d:
        m = d["messageText"]
        if d.get("messageType") == "ERROR": errors.append(m)
        x = re.match(r"(\d+) variables, (\d+) clauses", m)
        if x:
          st["variables"] = max(int(x.group(1)), st.get("variables", 0))
          st["clauses"] = max(int(x.group(2)), st.get("clauses", 0))
        x = re.match(r"Runtime Solver: ([\d.e+-]+)s", m)
        if x:
          st["solver_s"] += float(x.group(1))
          st["sat_calls"] += 1
        x = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if x: st["vccs"], st["vccs_after_simplification"] = int(x.group(1)), int(x.group(2))
        x = re.match(r"size of program expression: (\d+) steps", m)
        if x: st["steps"] = int(x.group(1))
      if "result" in d: result = d["result"]
    if result is None:
      raise Inconclusive("cbmc gave no result: " + "; ".join(errors)[-600:])
    st["solver_s"] = round(st["solver_s"], 3)
    return result, st

  def native_command(self, out, flags):
    """shell command that builds the replay program"""
    flags = flags + ["-DVF_ENTRY=" + self.q["entry"]] + self.includes() + self.q["defs"]
    src = self.src
    cmd = ""
    if self.q["replace"]:
      # models take the place of functions in the calls of the generated code
      cmd = shlex.join(["gcc", "-g", "-O0", "-S", "-o", out + ".s", src] + flags) + " && "
      for f, g in self.q["replace"].items():
        cmd += "sed -i -E 's/^(\\s*(call|jmp)\\s+)%s(@PLT)?$/\\1%s/' %s && " % (f, g, shlex.quote(out + ".s"))
      src = out + ".s"
    return cmd + shlex.join(["gcc", "-g", "-O1", "-o", out, src, os.path.join(HARNESS, "replay_rt.c")] + flags +
      ["-lm", "-lpthread"] + self.q["libs"])

  def native(self):
    """build the replay program from the same harness"""
    if hasattr(self, "bins"): return self.bins
    self.bins = []
    for i, init in enumerate(["pattern", "zero"]):
      b = os.path.join(self.dir, "replay_" + init)
      flags = ["-funsigned-char", "-std=c17", "-w", "-fno-math-errno", "-fno-strict-aliasing", "-fsanitize=address",
        "-fsanitize=bounds,shift,integer-divide-by-zero,null,object-size,pointer-overflow",
        "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=" + init]
      # cbmc obligations for conversions are confirmed by the corresponding run-time check
      if "--conversion-check" in self.q["flags"]: flags.append("-fsanitize=float-cast-overflow")
      cmd = ["/bin/sh", "-c", self.native_command(b, flags)]
      r = run(cmd, env=self.env(), timeout=300)
      if r.returncode: raise Inconclusive("replay build failed: " + r.stderr.decode("utf8", "replace")[-1500:])
      self.bins.append(b)
    return self.bins

  def replay(self, values, dest=None):
    """run the real code on the counterexample's values. returns (reproduced, text)"""
    vf = os.path.join(self.dir, "values.txt")
    with open(vf, "w") as f:
      for name, width, v in values: f.write("%s %d %s\n" % (name, width, v))
    last = ""
    for b in self.native():
      for fill in ("a5", "00", "ff", "01"):
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
          "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "VF_FILL": fill})
        try:
          r = run([b, vf], timeout=self.q["replay_timeout"], env=e, cwd=self.dir)
        except subprocess.TimeoutExpired:
          return True, "hang: the real code did not finish within %ds" % self.q["replay_timeout"], fill, b
        text = (r.stdout + r.stderr).decode("utf8", "replace")
        if r.returncode == 0 or r.returncode == 4:
          last = "fill %s: exit %d %s" % (fill, r.returncode, text[-300:])
          continue
        return True, "exit %d\n%s" % (r.returncode, text[:3000]), fill, b
    return False, last, None, None

  def trace_values(self, prop, unwind):
    # unwinding obligations are created while executing, they can not be selected
    select = [] if ".unwind." in prop or ".recursion" in prop else ["--property", prop]
    result, st = self.cbmc(["--trace"] + select, unwind, self.q["timeout"])
    for p in result:
      if p["property"] == prop and p["status"] == "FAILURE":
        vals = []
        for s in p.get("trace", []):
          if s.get("stepType") == "input" and s.get("inputID", "").startswith("vf_"):
            v = s["values"][0]
            vals.append((s["inputID"], v["width"], str(int(v["binary"], 2))))
        return vals, p
    return None, None

  def decide(self):
    t = time.time()
    self.encode()
    unwind = self.q["unwind"]
    for attempt in range(4):
      result, st = self.cbmc(["--slice-formula"] if not self.q.get("noslice") else [], unwind, self.q["timeout"])
      fails = [p for p in result if p["status"] == "FAILURE" and not p["description"].startswith("WITNESS")]
      # of the conversions only those that are undefined are obligations
      fails = [p for p in fails if not ("type conversion" in p["description"] and "on float to" not in p["description"])]
      unw = [p for p in fails if ".unwind." in p["property"] or ".recursion" in p["property"] or "unwinding" in p["description"]]
      nobody = [p for p in fails if ".no-body." in p["property"]]
      real = [p for p in fails if p not in unw and p not in nobody]
      witness = [p for p in result if p["description"].startswith("WITNESS")]
      self.res.update(st)
      self.res["unwind"] = unwind
      self.res["obligations"] = len(result) - len(witness)
      self.res["witnesses"] = len(witness)
      if nobody and not real:
        raise Inconclusive("functions without body: " + ", ".join(sorted({p["property"] for p in nobody})))
      # replay the real failures, property assertions first
      real.sort(key=lambda p: (0 if p["description"].startswith("VF") else 1))
      unconfirmed = []
      found = []
      for p in (real[:6] if real else unw[:3]):
        vals, full = self.trace_values(p["property"], unwind)
        if vals is None:
          unconfirmed.append((p, "no trace"))
          continue
        ok, text, fill, b = self.replay(vals)
        if ok:
          found.append({"prop": p, "values": vals, "text": text, "fill": fill, "bin": b, "trace": full})
          if not known_finding(p): break
        else: unconfirmed.append((p, text))
      self.res["wall_total_s"] = round(time.time() - t, 2)
      if found: return ("violation", found)
      if unw and not real:
        # the loops are longer than the bound but do not hang: the bound is raised
        unwind = unwind * 2
        continue
      if real:
        raise Inconclusive("counterexample does not reproduce on the real code: " +
          "; ".join("%s (%s) %s" % (p["description"], p["property"], x) for p, x in unconfirmed))
      bad = [p for p in result if p["status"] not in ("SUCCESS", "FAILURE")]
      if bad: raise Inconclusive("undecided: " + ", ".join(p["property"] for p in bad[:5]))
      vac = [p for p in witness if p["status"] != "FAILURE"]
      if vac or not witness: raise Inconclusive("vacuous: unreachable " + ", ".join(p["description"] for p in vac))
      if TIER == "thorough" or os.environ.get("VF_WITNESS"):
        # the encoding agrees with the real code on a solver-chosen full execution
        vals, full = self.trace_values(witness[0]["property"], unwind)
        if vals is not None:
          ok, text, fill, b = self.replay(vals)
          if ok: raise Inconclusive("execution that the solver considers good fails natively: " + text)
          self.res["witness_replayed"] = True
      self.res["wall_total_s"] = round(time.time() - t, 2)
      return ("holds", None)
    raise Inconclusive("unwinding bound %d not sufficient" % unwind)

class Inconclusive(Exception): pass

def load_known():
  out = []
  p = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(p):
    for line in open(p):
      m = re.match(r"finding: property=(\S+) assertion=\"([^\"]*)\" (.*)", line.strip())
      if m: out.append(m.groups())
  return out
KNOWN = load_known()
def known_finding(p):
  for prop, assertion, text in KNOWN:
    if p["description"] == "VF " + assertion: return (prop, assertion, text)
  return None

def main():
  global INC
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument("property", nargs="?")
  ap.add_argument("--selftest", action="store_true", help="check that the tools are present")
  ap.add_argument("--only", default="")
  ap.add_argument("--keep", action="store_true")
  ap.add_argument("--jobs", type=int, default=8)
  a = ap.parse_args()
  if a.selftest or not a.property:
    for c in (["cbmc", "--version"], ["goto-cc", "--version"], ["goto-instrument", "--version"], ["gcc", "--version"]):
      r = run(c, timeout=60)
      log(" ".join(c), r.stdout.decode().splitlines()[:1])
      if r.returncode: sys.exit(2)
    sys.exit(0)
  t0 = time.time()
  build = os.path.join(VERIF, ".build", "%s_%d" % (a.property, os.getpid()))
  shutil.rmtree(build, ignore_errors=True)
  os.makedirs(build)
  INC = os.path.join(build, "include")
  os.makedirs(INC)
  os.symlink(REPO + "/source/c/foreign/sph-sc-lib/sph-sp", os.path.join(INC, "sph"))
  try:
    code = decide_property(a, build, t0)
  finally:
    if not a.keep: shutil.rmtree(build, ignore_errors=True)
  sys.exit(code)

def decide_property(a, build, t0):
  qs = load_queries(a.property, TIER)
  if not qs:
    log("no harness for", a.property)
    return 2
  qs = [Query(q, build, i) for i, q in enumerate(qs)]
  if a.only: qs = [q for q in qs if a.only in q.name]
  violations, errors, known = [], [], []
  def one(q):
    try:
      return q, q.decide()
    except Inconclusive as e:
      return q, ("error", str(e))
    except subprocess.TimeoutExpired as e:
      return q, ("error", "time limit: " + str(e.cmd)[:200])
    except Stopped:
      return q, ("stopped", "") if STOP.is_set() else ("error", "the time limit of the check is reached")
  with cf.ThreadPoolExecutor(a.jobs) as ex:
    for q, (verdict, info) in (f.result() for f in cf.as_completed([ex.submit(one, q) for q in qs])):
      r = q.res
      r["verdict"] = verdict
      log("%-10s %-60s %6.1fs solver %6.1fs vars %s obligations %s" % (verdict, q.name[:60], r.get("wall_total_s", r.get("wall_s", 0)),
        r.get("solver_s", 0), r.get("variables"), r.get("obligations")))
      if verdict == "error":
        errors.append((q, info))
        log("  " + info[:2500])
      elif verdict == "violation":
        for f in info:
          k = known_finding(f["prop"])
          if k and k[0] == a.property: known.append((q, f, k))
          else:
            violations.append((q, f))
            # one violation decides the check
            stop_all()
  for q, f, k in known:
    line = "KNOWN-FINDING: property=%s %s" % (a.property, k[2])
    log(line)
  code = 0
  vlist = []
  for i, (q, f) in enumerate(violations):
    d = os.path.join(VERIF, "replays", a.property, q.name[:80])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "values.txt"), "w") as o:
      for v in f["values"]: o.write("%s %d %s\n" % v)
    with open(os.path.join(d, "report.txt"), "w") as o:
      o.write("property %s\nharness %s entry %s defines %s\nobligation %s: %s\nlocation %s\n\nnative replay (fill %s):\n%s\n" % (
        a.property, q.q["file"], q.q["entry"], " ".join(q.q["defs"]), f["prop"]["property"], f["prop"]["description"],
        json.dumps(f["trace"].get("sourceLocation", {}) if f.get("trace") else {}), f["fill"], f["text"]))
    with open(os.path.join(d, "replay.sh"), "w") as o:
      o.write("#!/bin/sh\n# rebuilds the harness with the real code in %s and runs it on the counterexample (exit nonzero: reproduced)\n" % REPO +
        "d=$(mktemp -d); ln -s %s/source/c/foreign/sph-sc-lib/sph-sp $d/sph\n" % REPO +
        "export CPATH=$d; " + q.native_command("@", ["-funsigned-char", "-std=c17", "-w", "-fno-strict-aliasing",
          "-fsanitize=address,bounds,shift,integer-divide-by-zero", "-fno-sanitize-recover=all",
          "-ftrivial-auto-var-init=" + f["bin"].split("_")[-1]]).replace("@.s", "$d/r.s").replace("-o @ ", "-o $d/r ") +
        " && VF_FILL=%s ASAN_OPTIONS=detect_leaks=0 timeout 20 $d/r %s\n" % (f["fill"], os.path.join(d, "values.txt")) +
        "e=$?; rm -r \"$d\"; exit $e\n")
    log("  %s: %s" % (f["prop"]["description"], f["text"].strip().replace("\n", "\n    ")[:600]))
    log("VIOLATION property=%s replay=%s" % (a.property, os.path.join(d, "replay.sh")))
    vlist.append({"query": q.name, "obligation": f["prop"]["description"], "replay": os.path.join(d, "replay.sh")})
    code = 1
  if errors and not violations: code = 2
  write_evidence(a, qs, t0, vlist, errors, known)
  log("%s %s: %s in %.1fs" % (a.property, TIER, {0: "holds", 1: "VIOLATED", 2: "no answer"}[code], time.time() - t0))
  return code

def write_evidence(a, qs, t0, vlist, errors, known):
  funcs = sorted({f for q in qs for f in q.res.get("functions_encoded", [])})
  stubs = sorted({q.q["stubs"] for q in qs if q.q["stubs"]})
  ev = {"property": a.property, "tier": TIER, "seed": SEED, "level": "other",
    "coverage": {
      "explanation": "Bounded symbolic execution of the real C code (goto-cc and cbmc, SAT). Each query covers every value "
        "of the symbolic inputs within the stated bounds; unwinding assertions show that no loop exceeds its bound; the witness "
        "obligation of each query is satisfiable, so no query is vacuous. Nothing is claimed outside the bounds.",
      "functions_encoded": funcs,
      "queries": [q.res for q in qs],
      "queries_discharged": sum(1 for q in qs if q.res.get("verdict") == "holds"),
      "queries_total": len(qs),
      "obligations_discharged": sum(q.res.get("obligations", 0) for q in qs if q.res.get("verdict") == "holds"),
      "sat_calls": sum(q.res.get("sat_calls", 0) for q in qs),
      "solver_s": round(sum(q.res.get("solver_s", 0) for q in qs), 2),
      "witness_executions_replayed_natively": sum(1 for q in qs if q.res.get("witness_replayed")),
      "no_answer": [{"query": q.name, "reason": e} for q, e in errors],
      "known_findings": [k[2] for q, f, k in known],
    },
    "assumptions": ["cbmc 6.11 semantics for C on x86-64 (IEEE-754 doubles, round to nearest)",
      "library code runs single-threaded except where a query models schedules"] + stubs,
    "violations": vlist,
    "wall_s": round(time.time() - t0, 2)}
  if a.only: return
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f: json.dump(ev, f, indent=1)

if __name__ == "__main__": main()
