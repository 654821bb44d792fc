"""Shared machinery of the checks: building /repo's working tree, running harnesses, reporting.

Nothing here reads /verif/seeded or /opt/vp.  The tree under test is mirrored (git ls-files -co) into
/verif/.build/<content hash>/src and built there with the repository's own Makefiles.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
GUARD = "MOSML_VERIFY"
NCPU = os.cpu_count() or 4
SKIP = re.compile(r"src/(test/|(mosmllib|compiler|lex|mosmlpm)/test/|mosmlb/tests/|dynlibs/\w+/(test\w*|smlside)\.sml$|doc/|notes/"
                  r"|compiler\.cminusminus/|convert/|launch\.w32/|config\.w32/)")

# a shell that starts a check in the background lets it ignore some signals, which every program started here would inherit
signal.pthread_sigmask(signal.SIG_SETMASK, [])
for _s in set(signal.Signals) - {signal.SIGKILL, signal.SIGSTOP, signal.SIGINT, signal.SIGPIPE}:
    try:
        signal.signal(_s, signal.SIG_DFL)
    except (OSError, ValueError):
        pass
signal.signal(signal.SIGINT, signal.default_int_handler)


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def _manifest():
    out = subprocess.run(["git", "-C", REPO, "-c", f"safe.directory={REPO}", "ls-files", "-z", "-co", "--exclude-standard", "src"],
                         stdout=subprocess.PIPE, check=True).stdout.decode("utf-8", "surrogateescape")
    names = sorted(n for n in set(out.split("\0")) if n and not SKIP.match(n))
    h, keep = hashlib.sha256(), []
    for n in names:
        p = f"{REPO}/{n}"
        if not (os.path.isfile(p) or os.path.islink(p)):
            continue
        keep.append(n)
        data = os.readlink(p).encode() if os.path.islink(p) else open(p, "rb").read()
        h.update(n.encode("utf-8", "surrogateescape") + b"\0" + hashlib.sha256(data).digest())
        h.update(b"x" if os.access(p, os.X_OK) else b"-")
    h.update(open(__file__, "rb").read())
    h.update(VERIF.encode())
    return keep, h.hexdigest()[:20]


class BuildError(Exception):
    pass


class Inst:
    """One built tree.  bin/mosml, bin/mosmlc, ... in .inst/bin; lib in .inst/lib/mosml."""

    def __init__(self, root):
        self.root, self.src, self.inst = root, f"{root}/src", f"{root}/inst"
        self.bin, self.lib = f"{self.inst}/bin", f"{self.inst}/lib/mosml"
        self.camlrunm = f"{self.bin}/camlrunm"
        self.env = {"PATH": f"{self.bin}:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                    "HOME": "/root", "LC_ALL": "C", "TZ": "UTC"}

    def tool(self, name):
        return f"{self.bin}/{name}"

    # -- a runtime with the verification hooks on, optionally with AddressSanitizer
    def hooked_runtime(self, asan=False, extra=""):
        tag = "hook" + ("-asan" if asan else "") + ("-" + hashlib.md5(extra.encode()).hexdigest()[:6] if extra else "")
        out = f"{self.root}/camlrunm-{tag}"
        with open(f"{self.root}.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(out):
                return out
            d = f"{self.root}/rt-{tag}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copytree(f"{self.src}/config", f"{d}/config", symlinks=True)
            shutil.copytree(f"{self.src}/tools", f"{d}/tools", symlinks=True)
            shutil.copytree(f"{self.src}/runtime", f"{d}/runtime", symlinks=True)
            for f in os.listdir(f"{self.src}"):
                if f.startswith("Make"):
                    shutil.copy(f"{self.src}/{f}", d)
            for f in os.listdir(f"{d}/runtime"):
                if f.endswith(".o") or f == "camlrunm":
                    os.remove(f"{d}/runtime/{f}")
            flags = f"-D{GUARD} {extra}"
            if asan:
                flags += " -fsanitize=address -fno-omit-frame-pointer -g"
            cc = f"gcc {flags}"
            r = subprocess.run(["make", "-j8", "-C", f"{d}/runtime", "camlrunm", f"PREFIX={self.inst}", f"CC={cc}",
                                "STRIP=true", f"LD={cc} -rdynamic -Wl,-rpath,{self.lib}"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(self.env))
            if r.returncode:
                raise BuildError(f"hooked runtime {tag}:\n" + r.stdout.decode("latin-1")[-3000:])
            shutil.copy(f"{d}/runtime/camlrunm", out + ".tmp")
            os.rename(out + ".tmp", out)
            shutil.rmtree(d, ignore_errors=True)
        return out


def _make(root, d, args, out, par):
    cmd = ["make"] + (["-j8"] if par else []) + ["-C", f"{root}/src/{d}", *args, f"PREFIX={root}/inst", "CC=gcc"]
    env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root", "LC_ALL": "C", "TZ": "UTC"}
    out.write(("+ " + " ".join(cmd) + "\n").encode())
    out.flush()
    if subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env).returncode:
        raise BuildError(f"make failed in {d}")


def _build(root, names, par):
    shutil.rmtree(root, ignore_errors=True)
    for n in names:
        d = f"{root}/{n}"
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy(f"{REPO}/{n}", d, follow_symlinks=False)
        if not os.path.islink(d):
            os.utime(d, (1600000000, 1600000000))
    with open(f"{root}/build.log", "wb") as out:
        m = lambda d, *a, p=par: _make(root, d, a, out, p)
        m("config", "all", p=False)
        m("runtime", "all")
        shutil.copy(f"{root}/src/runtime/camlrunm", f"{root}/src/camlrunm")
        for d in ("bin", "lib/mosml", "include/mosml", "share/mosml/tools"):
            os.makedirs(f"{root}/inst/{d}")
        m("runtime", "install", p=False)
        os.makedirs(f"{root}/gdbm", exist_ok=True)
        os.symlink("/usr/lib/x86_64-linux-gnu/libgdbm.so", f"{root}/gdbm/libgdbm.a")
        gd = [f"GDBMLIBDIR={root}/gdbm", "GDBMINCDIR=/usr/include"]

        def dynlibs():      # C only: needs the installed runtime headers
            m("dynlibs/interface", "all", p=False)
            m("dynlibs/mregex", "all", p=False)
            m("dynlibs/mregex", "install", p=False)
            m("dynlibs/mgdbm", "all", *gd, p=False)
            m("dynlibs/mgdbm", "install", *gd, p=False)
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            side = ex.submit(dynlibs) if par else None
            m("mosmlyac", "all")
            m("mosmllib", "all")
            for d in ("compiler", "toolssrc", "lex", "launch"):
                m(d, "all")
            m("mosmlb", "all", p=False)
            m("mosmlpm", "all", p=False)
            for d in ("launch", "mosmlyac", "mosmllib", "compiler", "toolssrc", "lex"):
                m(d, "install", p=False)
            m(".", "basisdynlib", p=False)
            m(".", "basisdynlib_install", p=False)
            if side:
                side.result()
            else:
                dynlibs()


def build():
    """Builds /repo's working tree (or finds the build of exactly this content) and returns an Inst."""
    os.makedirs(CACHE, exist_ok=True)
    names, key = _manifest()
    root = f"{CACHE}/{key}"
    with open(f"{root}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(f"{root}/ok"):
            t = time.time()
            try:
                _build(root, names, True)
            except BuildError:
                try:
                    _build(root, names, False)
                except BuildError as e:
                    tail = open(f"{root}/build.log", "rb").read().decode("latin-1")[-3000:]
                    raise BuildError(f"{e}\n{tail}")
            open(f"{root}/ok", "w").write(f"{time.time() - t:.1f}\n")
            log(f"built the working tree in {time.time() - t:.1f} s")
        os.utime(f"{root}/ok")
    # drop old builds, keeping the three most recent
    olds = sorted((d for d in os.listdir(CACHE) if os.path.exists(f"{CACHE}/{d}/ok")),
                  key=lambda d: os.path.getmtime(f"{CACHE}/{d}/ok"), reverse=True)
    for d in olds[int(os.environ.get("VERIF_KEEP", "3")):]:
        if d != key and time.time() - os.path.getmtime(f"{CACHE}/{d}/ok") > 1800:
            shutil.rmtree(f"{CACHE}/{d}", ignore_errors=True)
            try:
                os.remove(f"{CACHE}/{d}.lock")
            except OSError:
                pass
    return Inst(root)


# ------------------------------------------------------------------ running

class Res:
    def __init__(self, rc, out, err, timed_out, cmd):
        self.rc, self.out, self.err, self.timed_out, self.cmd = rc, out, err, timed_out, cmd

    @property
    def died(self):
        return self.timed_out or self.rc < 0


T0, HUNG = time.time(), []       # HUNG: harnesses found not to finish


def run(cmd, cwd=None, env=None, input=None, timeout=120, merge=False, binary=False, mem=6000000):
    """Runs cmd (list, or shell string) in its own process group with a limit on its address space (kB); kills the group at the end."""
    if isinstance(cmd, str):
        argv = ["/bin/bash", "-c", f"ulimit -v {mem}; {cmd}" if mem else cmd]
    else:
        argv = cmd
        if mem and "asan" not in argv[0]:
            argv = ["/bin/sh", "-c", f'ulimit -v {mem}; exec "$0" "$@"', *argv]
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE, start_new_session=True)
    if isinstance(input, str):
        input = input.encode("latin-1")
    to = False
    if os.environ.get("VERIF_TIER", "quick") == "quick" and "--thorough" not in sys.argv:   # leave time to report a hang
        timeout = min(timeout, 60 if HUNG else 280 if time.time() - T0 < 500 else 100)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    err = err or b""
    if not binary:
        out, err = out.decode("latin-1"), err.decode("latin-1")
    return Res(p.returncode, out, err, to, cmd if isinstance(cmd, list) else argv)


def pmap(f, items, workers=None):
    with concurrent.futures.ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(f, items))


# ------------------------------------------------------------------ a check

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.fails = {}          # key -> detail
        self.nfail = 0
        self.samples = []
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        try:
            self.inst = build()
        except BuildError as e:
            log(f"BUILD ERROR: {e}")
            shutil.rmtree(self.work, ignore_errors=True)
            sys.exit(2)
        self.env = dict(self.inst.env)

    # ---- findings
    def fail(self, key, detail=""):
        """Records that the property is broken at `key` (a specific input, call site or history)."""
        self.nfail += 1
        if key not in self.fails:
            if len(self.fails) < 20000:
                self.fails[key] = detail

    def sample(self, x, n=6):
        if len(self.samples) < n:
            self.samples.append(x)

    # ---- SML harnesses
    def dir(self, name):
        d = f"{self.work}/{name}"
        os.makedirs(d, exist_ok=True)
        return d

    def write(self, path, text):
        with open(path, "wb") as h:
            h.write(text if isinstance(text, bytes) else text.encode("latin-1"))
        return path

    def compile(self, name, text, units=(), opts="", must=True):
        """Compiles one SML program (plus library units given as sources) with mosmlc; returns the executable."""
        d = self.dir(name)
        for fn, body in units:
            self.write(f"{d}/{fn}", body)
        self.write(f"{d}/{name}.sml", text)
        us = " ".join(fn for fn, _ in units)
        r = run(f"mosmlc {opts} {us} -toplevel {name}.sml -o {name}.exe 2>&1", cwd=d, env=self.env, timeout=300)
        if r.rc != 0 or not os.path.exists(f"{d}/{name}.exe"):
            if must:
                self.fail(f"harness-does-not-compile:{name}",
                          f"mosmlc (of the tree under test) fails on a harness program it compiles on the reference tree:\n{errors_of(r.out)}")
            return None
        if r.out.strip() and "Warning" not in r.out:
            log(f"note: mosmlc on {name}: {r.out.strip()[:500]}")
        return f"{d}/{name}.exe"

    def harness(self, exe, args=(), timeout=300, cwd=None, runtime=None, env=None, input=None, done="DONE"):
        """Runs a compiled harness.  A harness must end with a line that starts with DONE; any other end is a violation,
        confirmed by a second run on its own."""
        if exe is None:
            return None
        cmd = [runtime or self.inst.camlrunm, exe, *map(str, args)]
        e = dict(self.env)
        e.update(env or {})
        if len(HUNG) > 16:
            return None
        for attempt in (1, 2):
            if attempt == 2 and HUNG:
                break
            r = run(cmd, cwd=cwd or os.path.dirname(exe), env=e, input=input, timeout=timeout * attempt if self.thorough else min(timeout * attempt, 140 * attempt))
            if not r.timed_out and r.rc == 0 and re.search(rf"^{done}", r.out, re.M):
                return r
        if r.timed_out:
            HUNG.append(exe)
        last = (r.out.strip().splitlines() or [""])[-1][:300]
        why = "did not finish" if r.timed_out else f"ended with status {r.rc}"
        self.fail(f"harness-died:{os.path.basename(exe)}:{' '.join(map(str, args))}",
                  f"{' '.join(cmd)}\n{why} (twice); last output line: {last}\nstderr: {r.err[-2000:]}")
        return r

    def shards(self, exe, n=None, timeout=300, extra=(), **kw):
        """Runs `exe k n extra...` for k in 0..n-1 in parallel, returns the results."""
        n = n or NCPU
        return [r for r in pmap(lambda k: self.harness(exe, [k, n, *extra], timeout=timeout, **kw), range(n), NCPU) if r]

    def take(self, results):
        """Collects 'MISMATCH <key>\\t<detail>', 'COUNT name value' and 'SAMPLE text' lines of self-checking harnesses."""
        counts = {}
        for r in results:
            for line in r.out.splitlines():
                if line.startswith("MISMATCH "):
                    key, _, det = line[9:].partition("\t")
                    self.fail(key, det)
                elif line.startswith("COUNT "):
                    _, k, v = line.split()
                    counts[k] = counts.get(k, 0) + int(v.replace("~", "-"))
                elif line.startswith("SAMPLE "):
                    self.sample(line[7:])
        return counts

    # ---- enumerated cases: one SML expression of type string each, judged in Python
    def cases(self, name, prelude, items, shard=1500, opts="", timeout=200):
        """items: (key, SML expression of type string, expected Python str).  The value (or `!ExnName` when it raises)
        is printed in String.toString form.  Returns the number of cases compared."""
        items = list(items)
        groups = [items[i:i + shard] for i in range(0, len(items), shard)]

        def go(g):
            i, its = g
            t = [CASE_PRELUDE, prelude]
            t += [f"val _ = out_ (fn () => {code})" for _, code, _ in its]
            r = self.harness(self.compile(f"{name}{i}", "\n".join(t) + "\nval _ = print \"DONE\\n\"\n", opts=opts), timeout=timeout)
            if r is None:
                return 0
            lines = r.out.split("\n")
            for (key, code, want), got in zip(its, lines):
                want = smlesc(want)
                if got != want:
                    self.fail(key, f"{code}\n  expected {want}\n  got      {got}")
            if not (len(lines) == len(its) + 2):
                self.fail(f"lines:{name}{i}", f"{len(its)} results expected, {len(lines) - 2} lines printed")
            return len(its)
        return sum(pmap(go, list(enumerate(groups))))

    # ---- the end
    def finish(self, coverage, assumptions=()):
        known = load_known(self.pid)
        new = {k: v for k, v in self.fails.items() if k not in known}
        for k, desc in known.items():
            if k in self.fails:
                log(f"KNOWN-FINDING: property={self.pid} {k} {desc}")
        cov = dict(coverage)
        cov.setdefault("samples", self.samples)
        cov["known_findings_seen"] = sorted(k for k in known if k in self.fails)
        rc = 0
        rd = f"{EVID}/replay"
        path = f"{rd}/{self.pid}.txt"
        if os.path.exists(path):
            os.remove(path)
        if new:
            rc = 1
            os.makedirs(rd, exist_ok=True)
            with open(path, "w", encoding="utf-8", errors="replace") as h:
                h.write(f"property {self.pid}: {len(new)} distinct failing cases ({self.nfail} in all)\n"
                        f"rerun: cd {VERIF} && VERIF_TIER={self.tier} python3 {os.path.relpath(sys.argv[0], VERIF) if os.path.isabs(sys.argv[0]) else sys.argv[0]}\n\n")
                for i, (k, v) in enumerate(new.items()):
                    if i >= 200:
                        break
                    h.write(f"case: {k}\n{v}\n\n")
            for k, v in list(new.items())[:3]:
                log(f"  broken: {str(k)[:200]}: {str(v)[:300]}")
            log(f"VIOLATION property={self.pid} replay={path}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(f"{EVID}/{self.pid}.json", "w") as h:
            json.dump(ev, h, indent=1, default=str)
        if not os.environ.get("VERIF_KEEP_WORK"):
            shutil.rmtree(self.work, ignore_errors=True)
        else:
            log("work dir kept:", self.work)
        brief = {k: v for k, v in cov.items() if isinstance(v, int)}
        log(f"{self.pid} {self.tier}: {'VIOLATED' if new else 'held'} {brief} in {time.time() - self.t0:.1f} s")
        sys.exit(rc)


def errors_of(out):
    """The compiler's messages without its warnings."""
    blocks = re.split(r"(?m)^(?=File )", out)
    keep = [b for b in blocks if "Warning" not in b]
    return "".join(keep)[-3000:] if "".join(keep).strip() else out[-1500:]


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> :: <description>'; 'fixed:' lines suppress nothing."""
    res = {}
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(rf"finding: property={pid} key=(.*?) :: (.*)$", line.rstrip("\n"))
            if m:
                res[m[1]] = m[2]
    return res


# ------------------------------------------------------------------ text helpers

def smlint(n):
    return str(n).replace("-", "~")


def pyint(s):
    return int(s.replace("~", "-"))


CASE_PRELUDE = r"""
fun out_ f = print (String.toString (f () handle e => "!" ^ exnName e) ^ "\n")
fun i2s (n : int) = Int.toString n
fun b2s true = "true" | b2s false = "false"
fun o2s LESS = "LESS" | o2s EQUAL = "EQUAL" | o2s GREATER = "GREATER"
fun s2s (s : string) = "\"" ^ String.toString s ^ "\""
fun c2s (c : char) = "#\"" ^ Char.toString c ^ "\""
fun op2s f NONE = "NONE" | op2s f (SOME x) = "SOME " ^ f x
fun l2s f xs = let fun h [] = "]" | h [x] = f x ^ "]" | h (x::xr) = f x ^ "," ^ h xr in "[" ^ h xs end
fun p2s (f, g) (x, y) = "(" ^ f x ^ "," ^ g y ^ ")"
fun u2s () = "()"
val log_ = ref "" 
fun tr s = log_ := !log_ ^ s ^ ";"
fun tr2 f a = (log_ := ""; let val r = f a handle e => "!" ^ exnName e in r ^ "|" ^ !log_ end)
"""


def smlesc(s):
    """SML String.toString of a latin-1 Python str."""
    o = []
    for ch in s:
        c = ord(ch)
        if ch in '"\\':
            o.append("\\" + ch)
        elif ch in "\a\b\t\n\v\f\r":
            o.append("\\" + "abtnvfr"[c - 7])
        elif c < 32:
            o.append("\\^" + chr(c + 64))
        elif c < 127:
            o.append(ch)
        else:
            o.append("\\%03d" % c)
    return "".join(o)


def sl(xs, f=None):
    """SML list literal / the l2s form of a Python sequence."""
    return "[" + ",".join((f or smlint)(x) for x in xs) + "]"


def smlstr(s):
    """Python str (latin-1) -> SML string literal."""
    o = []
    for ch in s:
        c = ord(ch)
        if ch in '"\\':
            o.append("\\" + ch)
        elif 32 <= c < 127:
            o.append(ch)
        else:
            o.append("\\%03d" % c)
    return '"' + "".join(o) + '"'


def rows(c, name, text, expected, args=(), **kw):
    """Compiles and runs an SML program that prints one 'key<TAB>result' line per enumerated point; `expected` yields
    (key, result) in any order.  Every line is compared; both sides must have the same keys.  Returns the number compared."""
    r = c.harness(c.compile(name, text + '\nval _ = print "DONE\\n"\n'), args, **kw)
    if r is None:
        return 0
    got = {}
    for line in r.out.split("\n"):
        if "\t" in line:
            k, _, v = line.partition("\t")
            got[k] = v
    n = 0
    for k, v in expected:
        n += 1
        g = got.pop(k, None)
        if g != v and v != "unspecified":
            c.fail(k, f"expected {v}\n  got      {g}")
    for k in list(got)[:20]:
        c.fail("unexpected:" + k, got[k])
    return n
