#!/usr/bin/env python3
"""B12: OS.FileSys performs the operation asked for and reports what the system holds.

All sequences of file system operations up to a depth over a small tree (with links, loops, unreadable directories),
run by FileSys in one copy of the tree and by Python's os module in another, as an unprivileged user; every operation's
result, every query on every path and the two trees are compared.  All histories of two directory streams."""
import ctypes, itertools, json, os, shutil, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

PRE = r"""
open FileSys
val I = Int.toString
val args = CommandLine.arguments ()
fun lines f = let val is = TextIO.openIn (hd args)
                  fun go () = case TextIO.inputLine is of NONE => () | SOME l => (f (String.fields (fn c => c = #"\t") (String.substring (l, 0, size l - 1))); go ())
              in go () end
fun arg s = valOf (String.fromString s)
fun g f = f () handle OS.SysErr (_, NONE) => "!-" | OS.SysErr (_, SOME e) => "!" ^ OS.errorMsg e | IO.Io _ => "!Io" | Path.Path => "!Path" | Time.Time => "!Time" | e => "!!" ^ exnName e
fun b true = "t" | b false = "f"
"""
SEQ = PRE.replace("IO.Io _", "Io _").replace("Path.Path", "Path.Path") + r"""
val root = fullPath (List.nth (args, 1))
val paths = List.map arg (String.fields (fn c => c = #"\t") (List.nth (args, 2)))
fun strip p = if String.isPrefix root p then "@" ^ String.extract (p, size root, NONE) else p
fun q f = String.toString (g f)
fun uq f = g (fn () => (f (); "ok"))
fun time t = let val s = Time.toSeconds t in if s < 1500000000 then I s else "now" end
val modes = [[], [A_READ], [A_WRITE], [A_EXEC], [A_READ, A_WRITE], [A_EXEC, A_READ], [A_WRITE, A_EXEC], [A_READ, A_WRITE, A_EXEC]]
fun list p = let val d = openDir p
                 fun go l = case readDir d of NONE => l | SOME s => go (s :: l)
                 val l = go [] before closeDir d
             in String.concatWith "," (Listsort.sort String.compare l) end
val ids = ref [] : (file_id * string) list ref
fun id p = let val i = fileId p
           in case List.find (fn (j, _) => i = j) (!ids) of
                  SOME (j, n) => if hash j = hash i andalso compare (i, j) = EQUAL then n else "badhash"
                | NONE => let val n = I (length (!ids))
                              fun opp LESS = GREATER | opp GREATER = LESS | opp EQUAL = EQUAL
                              val ok = List.all (fn (j, _) => compare (i, j) <> EQUAL andalso compare (j, i) = opp (compare (i, j))) (!ids)
                          in ids := (i, n) :: !ids; if ok then n else "badcompare" end
           end
fun observe () =
    (print (q (fn () => strip (getDir ())) ^ "\n"); ids := [];
     List.app (fn p => print (String.concatWith "|" [q (fn () => b (isDir p)), q (fn () => b (isLink p)), q (fn () => readLink p), q (fn () => I (fileSize p)), q (fn () => time (modTime p)),
                              q (fn () => String.concat (List.map (fn m => b (access (p, m))) modes)), q (fn () => strip (fullPath p)), q (fn () => strip (realPath p)), q (fn () => id p), q (fn () => list p)] ^ "\n")) paths)
val _ = lines (fn l => case l of
    ["B", d] => (chDir root; chDir d)
  | ["mk", n] => print (uq (fn () => mkDir (arg n)) ^ "\n")
  | ["rm", n] => print (uq (fn () => rmDir (arg n)) ^ "\n")
  | ["rem", n] => print (uq (fn () => remove (arg n)) ^ "\n")
  | ["cd", n] => print (uq (fn () => chDir (arg n)) ^ "\n")
  | ["ren", m, n] => print (uq (fn () => rename {old = arg m, new = arg n}) ^ "\n")
  | ["st", n, s] => print (uq (fn () => setTime (arg n, if s = "now" then NONE else SOME (Time.fromSeconds (valOf (Int.fromString s))))) ^ "\n")
  | ["cr", n, s] => print (uq (fn () => let val os = TextIO.openOut (arg n) in TextIO.output (os, s); TextIO.closeOut os end) ^ "\n")
  | ["E"] => observe ()
  | _ => raise Fail "script")
val _ = print "DONE\n"
"""
STREAMS = PRE.replace("IO.Io _", "Io _") + r"""
val depth = valOf (Int.fromString (List.nth (args, 2)))
val nops = 8
fun run code =
    let val s = Array.fromList [openDir (List.nth (args, 1)), openDir (List.nth (args, 1))]
        fun step (0, _, acc) = String.concatWith "," (rev acc)
          | step (n, c, acc) =
            let val k = c mod nops
                val st = Array.sub (s, k mod 2)
                val r = case k div 2 of
                            0 => g (fn () => case readDir st of NONE => "-" | SOME x => x)
                          | 1 => g (fn () => (rewindDir st; "r"))
                          | 2 => g (fn () => (closeDir st; "c"))
                          | _ => g (fn () => (closeDir st; Array.update (s, k mod 2, openDir (List.nth (args, 1))); "o"))
            in step (n-1, c div nops, r :: acc) end
        val r = step (depth, code, [])
    in Array.app closeDir s; print r; print "\n" end
val [lo, hi] = List.map (valOf o Int.fromString) (List.drop (args, 3))
fun loop i = if i >= hi then () else (run i; loop (i+1))
val _ = loop lo
val _ = print "DONE\n"
"""
MISC = PRE.replace("IO.Io _", "Io _") + r"""
fun show s = print (String.toString s ^ "\n")
val _ = lines (fn l => case l of
    ["list", p] => show (g (fn () => let val d = openDir (arg p)
                                  fun go l = case readDir d of NONE => l | SOME s => go (s :: l)
                                  val l = go [] before closeDir d
                              in String.concatWith "/" (Listsort.sort String.compare l) end))
  | ["link", p] => show (g (fn () => readLink (arg p)))
  | ["size", p] => show (g (fn () => I (fileSize (arg p))))
  | ["time", p, t] => show (g (fn () => (setTime (arg p, SOME (Time.fromSeconds (valOf (Int.fromString t)))); I (Time.toSeconds (modTime (arg p))))))
  | ["full", p] => show (g (fn () => fullPath (arg p)))
  | ["cd", p] => show (g (fn () => (chDir (arg p); "ok")))
  | ["dir"] => show (g getDir)
  | ["tmp"] => show (g (fn () => let val n = tmpName () and m = tmpName () in b (n <> m andalso Path.isAbsolute n andalso not (access (n, [])) andalso not (access (m, []))) end))
  | ["id", p, p'] => show (g (fn () => b (fileId (arg p) = fileId (arg p')) ^ (case compare (fileId (arg p), fileId (arg p')) of LESS => "<" | EQUAL => "=" | GREATER => ">")))
  | _ => raise Fail "script")
val _ = print "DONE\n"
"""
SHIM = r"""
#include <sys/stat.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
int stat(const char *p, struct stat *b)
{
  unsigned long long d, i;
  if (sscanf(p, "/ID/%llx/%llx", &d, &i) == 2) { memset(b, 0, sizeof *b); b->st_dev = d; b->st_ino = i; return 0; }
  return fstatat(AT_FDCWD, p, b, 0);
}
"""
libc = ctypes.CDLL(None, use_errno=True)
libc.realpath.restype = ctypes.c_char_p


def realpath(p):
    buf = ctypes.create_string_buffer(8192)
    r = libc.realpath(os.fsencode(p), buf)
    if r is None:
        e = ctypes.get_errno()
        raise OSError(e, os.strerror(e))
    return os.fsdecode(r)


def g(f):
    try:
        return f()
    except OSError as e:
        return "!" + os.strerror(e.errno)


PATHS = ["", ".", "..", "/", "f", "f/", "f/z", "d", "d//g", "d/../f", "d/./e2", "e", "l", "l/", "m", "m/", "x", "y/a", "w/h", "z", "z/k", "n", "d/n", "e/f", "nox", "q3/f"]
NAMES = ["f", "d", "e", "l", "m", "x", "y", "w", "n", "d/g", "d/n", "z/k", "w/h", "f/z", "e/f", "m/g"]
RENS = [("f", "n"), ("f", "l"), ("f", "d"), ("f", "e"), ("d", "n"), ("d", "e"), ("e", "d"), ("d", "f"), ("d", "d/n"), ("l", "n"), ("l", "f"), ("x", "n"), ("m", "e"), ("m", "n"), ("n", "f"), ("f", "f"), ("f", "w/h"), ("w/h", "n"), ("w", "n"),
        ("d/g", "n"), ("d/g", "f"), ("f", "d/g"), ("f", "m/n"), ("d/e2", "e"), ("e", "d/e2"), ("z", "n"), ("nox", "q"), ("", "n"), ("f", ""), ("f", "n/"), ("e", "n/")]
OPS = [("mk", n) for n in NAMES + ["", "n/", "d/../n"]] + [("rm", n) for n in NAMES + [".", "", "d/e2", "e/."]] + [("rem", n) for n in NAMES + ["", "nox"]] + [("cr", n, s) for n in NAMES for s in ("hello world",)] + \
    [("ren", *r) for r in RENS] + [("st", n, s) for n in ("f", "l", "d", "x", "w/h", "nox") for s in ("1234567890", "86399")] + [("st", "f", "now")] + [("cd", n) for n in ["d", "m", "f", "w", "z", "x", "y", "..", "/", "", "e", "n"]]
CORE = [("mk", "n"), ("rm", "n"), ("rm", "e"), ("rem", "f"), ("rem", "l"), ("cr", "n", "abc"), ("cr", "l", "through"), ("cr", "x", "dangling"), ("ren", "d", "n"), ("ren", "e", "d/n"), ("ren", "f", "e/f"), ("ren", "n", "d/e2"), ("cd", "d"), ("cd", "m"), ("cd", "n"), ("rem", "n"),
        ("st", "l", "77777"), ("ren", "m", "n"), ("rem", "../f"), ("mk", "../q3")]


def make(d):
    os.mkdir(d)
    p = lambda n: f"{d}/{n}"
    for n in ("d", "d/e2", "e", "w", "z", "q3"):
        os.mkdir(p(n))
    for n, t in (("f", "12345"), ("d/g", ""), ("w/h", "h" * 1000), ("z/k", "k"), ("nox", "#!/bin/sh\n")):
        with open(p(n), "w") as f:
            f.write(t)
    for n, t in (("l", "f"), ("m", "d"), ("x", "nowhere"), ("y", "y"), ("q3/f", "../d/../l")):
        os.symlink(t, p(n))
    os.chmod(p("d/g"), 0)
    os.chmod(p("w/h"), 0o555)
    os.chmod(p("w"), 0o555)
    os.chmod(p("z"), 0)
    for i, n in enumerate(("f", "d/g", "w/h", "nox", "d/e2", "e", "w", "z", "d", "q3")):
        os.utime(p(n), (1000000 + i, 1000100 + i))
    for i, n in enumerate(("l", "m", "x", "y", "q3/f")):
        os.utime(p(n), (1000200 + i, 1000300 + i), follow_symlinks=False)
    os.utime(p("q3"), (1000009, 1000109))


def do(op):
    k, n = op[0], op[1]
    if k == "mk":
        os.mkdir(n, 0o777)
    elif k == "rm":
        os.rmdir(n)
    elif k == "rem":
        os.unlink(n)
    elif k == "cd":
        os.chdir(n)
    elif k == "ren":
        os.rename(n, op[2])
    elif k == "st":
        os.utime(n, None if op[2] == "now" else (int(op[2]), int(op[2])))
    elif k == "cr":
        try:
            with open(n, "w") as f:
                f.write(op[2])
        except OSError:
            return "!Io"
    return "ok"


def when(t):
    return str(int(t)) if t < 1500000000 else "now"


def observe(root):
    strip = lambda p: "@" + p[len(root):] if p.startswith(root) else p
    out = [smlesc(g(lambda: strip(os.getcwd())))]
    ids = {}
    R, W, X = os.R_OK, os.W_OK, os.X_OK
    for p in PATHS:
        t = lambda x: "t" if x else "f"
        st = lambda: os.stat(p)

        def fid():
            s = st()
            return str(ids.setdefault((s.st_dev, s.st_ino), len(ids)))

        def real():
            r = realpath(p)
            return strip(r) if p.startswith("/") else strip(os.path.relpath(r, os.getcwd()))
        out.append("|".join(smlesc(g(f)) for f in (
            lambda: t(stat.S_ISDIR(st().st_mode)), lambda: t(stat.S_ISLNK(os.lstat(p).st_mode)), lambda: os.readlink(p), lambda: str(st().st_size), lambda: when(st().st_mtime),
            lambda: "".join(t(os.access(p, m)) for m in (0, R, W, X, R | W, R | X, W | X, R | W | X)), lambda: strip(realpath(p)), real, fid, lambda: ",".join(sorted(os.listdir(p) if p else os.listdir("")) if p else os.listdir("/nonexistent")))))
    return out


def snapshot(d):
    """what the tree holds, seen with all rights"""
    out = []
    for r, ds, fs in os.walk(d):
        for n in sorted(ds + fs):
            p = f"{r}/{n}"
            s = os.lstat(p)
            x = os.readlink(p) if stat.S_ISLNK(s.st_mode) else open(p, "rb").read() if stat.S_ISREG(s.st_mode) else b""
            out.append((p[len(d):], oct(s.st_mode), when(s.st_mtime), when(s.st_atime) if stat.S_ISREG(s.st_mode) else "", x))
    return sorted(out)


def reference(base):
    """in a process of its own, without rights: builds both trees and runs the sequences on one"""
    with open(f"{base}/seqs") as f:
        seqs = [[tuple(o) for o in s] for s in json.load(f)]
    os.umask(0o022)
    if True:
        os.mkdir(f"{base}/ml")
        os.mkdir(f"{base}/py")
        script, want = [], []
        root = os.path.realpath(f"{base}/py")
        for i, ops in enumerate(seqs):
            for t in ("ml", "py"):
                os.makedirs(f"{base}/{t}/{i}/1/2/3")
                make(f"{base}/{t}/{i}/1/2/3/t")
            os.chdir(f"{base}/py/{i}/1/2/3/t")
            script.append(f"B\t{i}/1/2/3/t")
            for op in ops:
                script.append("\t".join((op[0], smlesc(op[1]), *op[2:])))
                want.append((i, g(lambda: do(op))))
            script.append("E")
            want += [(i, x) for x in observe(root)]
        os.chdir("/")
        with open(f"{base}/script", "w") as f:
            f.write("\n".join(script) + "\n")
        with open(f"{base}/want", "w") as f:
            json.dump(want, f)


def main():
    c = Check("B12")
    cov = {}
    os.umask(0o022)
    os.chmod(c.work, 0o755)
    uid = 65534 if os.getuid() == 0 else None
    pre = [] if uid is None else ["setpriv", f"--reuid={uid}", f"--regid={uid}", "--clear-groups"]
    rt = f"{c.work}/camlrunm"
    os.makedirs(f"{c.work}/py")
    for x in (os.path.abspath(__file__), os.path.join(VERIF, "lib", "vlib.py")):
        shutil.copy(x, f"{c.work}/py")
    shutil.copy(c.inst.camlrunm, rt)

    def exe(name, text):
        x = c.compile(name, text)
        if x is None:
            return None
        shutil.copy(x, f"{c.work}/{name}.x")
        os.chmod(f"{c.work}/{name}.x", 0o755)
        return f"{c.work}/{name}.x"

    def scratch(n):
        d = f"{c.work}/{n}"
        os.mkdir(d)
        os.chmod(d, 0o777)
        if uid is not None:
            os.chown(d, uid, uid)
        return d

    def ml(x, args, timeout=200, **kw):
        e = dict(c.env, LC_ALL="C", **kw)
        r = run(pre + [rt, x, *args], cwd=c.work, env=e, timeout=timeout)
        if r.timed_out or r.rc or not r.out.endswith("DONE\n"):
            c.fail(f"harness-died:{os.path.basename(x)}", f"status {r.rc}; stderr {r.err[-500:]}; last {r.out[-300:]}")
            return None
        return r.out[:-5].split("\n")[:-1]
    # 1. sequences
    if c.thorough:
        seqs = [(o,) for o in OPS] + list(itertools.product(OPS, repeat=2)) + list(itertools.product(CORE, repeat=3))
    else:
        few = CORE[:3] + CORE[5:8] + CORE[10:15]
        seqs = [(o,) for o in OPS] + list(dict.fromkeys(s for o in OPS for k in CORE for s in ((o, k), (k, o)))) + list(itertools.product(few, repeat=3))
    x = exe("seq", SEQ)
    K = 24
    parts = [seqs[k::K] for k in range(K)]

    def go(k):
        base = scratch(f"s{k}")
        with open(f"{base}/seqs", "w") as f:
            json.dump(parts[k], f)
        r = run([*pre, sys.executable, f"{c.work}/py/B12.py", "--reference", base], cwd=c.work, env=dict(c.env, LC_ALL="C"), timeout=300)
        if r.rc:
            raise RuntimeError(r.err[-2000:])
        with open(f"{base}/want") as f:
            want = json.load(f)
        got = ml(x, [f"{base}/script", f"{base}/ml", "\t".join(smlesc(p) for p in PATHS)])
        bad = []
        if got is not None:
            if len(got) != len(want):
                bad.append((f"lines:{k}", f"{len(want)} lines expected, {len(got)} printed"))
            for (i, w), o in zip(want, got):
                if w != o:
                    bad.append((f"seq:{parts[k][i]}", f"got {o}, expected {w}"))
            for i in range(len(parts[k])):
                a, b = snapshot(f"{base}/ml/{i}"), snapshot(f"{base}/py/{i}")
                if a != b:
                    bad.append((f"tree:{parts[k][i]}", f"left {[y for y in a if y not in b]}, expected {[y for y in b if y not in a]}"))
        for r, ds, fs in os.walk(base):
            for n in ds:
                if not os.path.islink(f"{r}/{n}"):
                    os.chmod(f"{r}/{n}", 0o755)
        shutil.rmtree(base)
        return len(want), bad
    n = 0
    if x:
        for m, bad in pmap(go, range(K)):
            n += m
            for k, d in bad:
                c.fail(k, d)
    cov["sequences"], cov["comparisons"] = len(seqs), n
    # 2. directory streams
    x = exe("streams", STREAMS)
    if x:
        for files in (0, 1, 2):
            d = scratch(f"dir{files}")
            for i in range(files):
                open(f"{d}/{'ab'[i]}{i}", "w").close()
            order = os.listdir(d)
            depth = 6 if c.thorough else 5 if files == 2 else 4
            total = 8 ** depth
            step = -(-total // NCPU)
            rs = pmap(lambda lo: ml(x, [f"{d}/x", d, depth, lo, min(total, lo + step)].__class__(map(str, [f"{d}/x", d, depth, lo, min(total, lo + step)]))), range(0, total, step))
            code = 0
            for r in rs:
                for line in r or []:
                    pos, open_, cc, exp = [0, 0], [True, True], code, []
                    for _ in range(depth):
                        k = cc % 8
                        cc //= 8
                        s, o = k % 2, k // 2
                        if o == 0:
                            if not open_[s]:
                                exp.append("!-")
                            elif pos[s] < files:
                                exp.append(order[pos[s]])
                                pos[s] += 1
                            else:
                                exp.append("-")
                        elif o == 1:
                            exp.append("r" if open_[s] else "!-")
                            pos[s] = 0
                        elif o == 2:
                            exp.append("c")
                            open_[s] = False
                        else:
                            exp.append("o")
                            open_[s], pos[s] = True, 0
                    if line != ",".join(exp):
                        c.fail(f"stream:{files}:{code}", f"got {line}, expected {','.join(exp)}")
                    code += 1
            cov["directory stream histories"] = cov.get("directory stream histories", 0) + code
    # 3. names, sizes, times, links, depths
    x = exe("misc", MISC)
    if x:
        d = scratch("names")
        rows = []
        big = f"{d}/big"
        os.mkdir(big)
        names = [bytes([b]).decode("latin-1") + t for b in range(1, 256) if b != 47 for t in ("", "x")] + [f"file{i}" for i in range(3000)] + ["é" * 100, "n" * 255, " ", "a b", "..x", "...", "-rf", ".hidden"]
        names = [n for n in dict.fromkeys(names) if n != "."]
        for n in names:
            open(os.path.join(os.fsencode(big), n.encode("latin-1")), "w").close()
        rows.append((f"list\t{smlesc(big)}", "/".join(sorted(names))))
        for n in names[:520] + names[-8:]:
            rows.append((f"size\t{smlesc(big + '/' + n)}", "0"))
        for k in (1, 2, 100, 1000, 4000, 4094, 4095):
            t = "/".join("t" * 99 for _ in range(50))[:k].rstrip("/") if k > 2 else "t" * k
            t = t + "t" * (k - len(t))
            os.symlink(t, f"{d}/ln{k}")
            rows.append((f"link\t{d}/ln{k}", t))
        prev = f"{d}/target"
        open(prev, "w").close()
        os.chmod(prev, 0o666)
        rd = os.path.realpath(d)
        for k in range(1, 46):
            os.symlink(os.path.basename(prev), f"{d}/chain{k}")
            prev = f"{d}/chain{k}"
            rows.append((f"full\t{prev}", g(lambda: realpath(prev))))
        if uid is not None:
            os.chown(f"{d}/target", uid, uid)
        for t in (0, 1, 59, 2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 7, 10**10 if False else 2**33, 1700000000):
            rows.append((f"time\t{d}/target\t{t}", str(t)))
        for k in (0, 1, 4095, 4096, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40):
            with open(f"{d}/sz{k}", "w") as f:
                f.truncate(k)
            rows.append((f"size\t{d}/sz{k}", str(k)))
        rows += [("size\t" + "p" * k, "!" + os.strerror(2 if k < 256 else 36)) for k in (1, 255, 256, 4095, 5000)]
        rows.append(("tmp", "t"))
        # file ids over several file systems
        objs = [p for p in ("/", "/proc", "/proc/self/status", "/proc/version", "/sys", "/dev/null", "/dev/shm", "/dev/zero", "/tmp", "/etc/passwd", d, f"{d}/target", f"{d}/chain3", "/proc/sys", "/bin/sh", "/bin/dash") if os.path.exists(p)]
        for p in objs:
            for q in objs:
                if "self" in p + q:
                    continue
                s, t = os.stat(p), os.stat(q)
                rows.append((f"id\t{p}\t{q}", "t=" if (s.st_dev, s.st_ino) == (t.st_dev, t.st_ino) else ("f<", "f>")))
        # directories deeper than a path may be long
        cur = ""
        deep = 0
        rows.append((f"cd\t{d}", "ok"))
        rows.append(("dir", rd))
        fd = os.open(d, os.O_RDONLY)
        comp = "D" * 200
        for k in range(22):
            os.mkdir(comp, 0o777, dir_fd=fd)
            nfd = os.open(comp, os.O_RDONLY, dir_fd=fd)
            os.close(fd)
            fd = nfd
            cur += "/" + comp
            rows.append((f"cd\t{comp}", "ok"))
            p = rd + cur
            rows.append(("dir", p if len(p) < 4096 else "!" + os.strerror(34)))
        os.close(fd)
        f = c.write(f"{c.work}/misc.txt", "".join(i + "\n" for i, _ in rows))
        os.chmod(f, 0o644)
        got = ml(x, [f])
        if got is not None:
            if len(got) != len(rows):
                c.fail("lines:misc", f"{len(rows)} lines expected, {len(got)} printed")
            for (i, w), o in zip(rows, got):
                if (o not in w) if isinstance(w, tuple) else o != smlesc(w):
                    c.fail(f"misc:{i[:120]}", f"got {o[:300]}, expected {str(w)[:300]}")
        cov["names, sizes, links, identities"] = len(rows)
        # identities that a system may give: every pair of devices and inode numbers
        so = c.write(f"{c.work}/shim.c", SHIM)[:-1] + "so"
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, f"{c.work}/shim.c"], check=True)
        idl = [(a, b) for a in (0, 1, 2, 21, 22, 0xfe00, 0xfe01, 2**20, 2**32 + 1, 2**44) for b in (0, 1, 2, 5, 2**17 - 1, 2**17, 2**17 + 5, 2**18 + 1, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**62, 2**63, 2**63 + 1, 2**64 - 1)]
        rows = [(f"id\t/ID/{a[0]:x}/{a[1]:x}\t/ID/{b[0]:x}/{b[1]:x}", "t=" if a == b else ("f<", "f>")) for a in idl for b in idl]
        f = c.write(f"{c.work}/ids.txt", "".join(i + "\n" for i, _ in rows))
        os.chmod(f, 0o644)
        got = ml(x, [f], LD_PRELOAD=so)
        if got is not None and got[0].startswith("!"):      # the runtime does not ask through stat: nothing to learn here
            got = None
        if got is not None:
            res = {}
            for (i, w), o in zip(rows, got):
                res[i] = o
                if o not in w if isinstance(w, tuple) else o != w:
                    c.fail(f"identity:{i}", f"got {o}, expected {w}")
            for i, o in res.items():
                k, a, b = i.split("\t")
                if o[1] != {"<": ">", ">": "<", "=": "="}[res[f"{k}\t{b}\t{a}"][1]]:
                    c.fail(f"identity-order:{i}", o)
        cov["identities"] = len(rows)
        subprocess.run(["rm", "-rf", "--one-file-system", d])
    c.sample("mkDir, rename, remove, setTime, chDir and create on files, links, loops and unreadable directories")
    c.finish({"histories": cov.get("sequences", 0) + cov.get("directory stream histories", 0), "sections": cov}, ["oracle: the same system calls through Python on a second tree", "run as user nobody" if uid else "run as the calling user"])


if __name__ == "__main__":
    reference(sys.argv[2]) if sys.argv[1:2] == ["--reference"] else main()
