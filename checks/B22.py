#!/usr/bin/env python3
"""B22: processes are started, spoken to, signalled and reaped faithfully; exit statuses, arguments and environment pass unchanged.

All interleavings of two conversations with child processes (start, write, read, close, kill, reap) against a model;
every exit status, every signal, all bytes in arguments and environment; all orders of atExit actions."""
import itertools, os, shutil, signal, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

TALK = r"""
open Unix
val args = CommandLine.arguments ()
fun lines f = let val is = TextIO.openIn (hd args)
                  fun go () = case TextIO.inputLine is of NONE => () | SOME l => (f (String.substring (l, 0, size l - 1)); go ())
              in go () end
fun cat () = if length args > 1 then execute ("/bin/cat", []) else executeInEnv ("/bin/cat", [], [])
fun run bin l =
    let val procs = Array.array (3, NONE) : (TextIO.instream, TextIO.outstream) proc option array
        val bprocs = Array.array (3, NONE) : (BinIO.instream, BinIO.outstream) proc option array
        fun P i = valOf (Array.sub (procs, i))
        fun B i = valOf (Array.sub (bprocs, i))
        fun str s = Byte.bytesToString s
        fun pack s = Byte.stringToBytes s
        fun op1 (c, i, n) =
            let val text = "p" ^ Int.toString i ^ "." ^ Int.toString n ^ "\n"
            in case c of
                #"S" => (if bin then Array.update (bprocs, i, SOME (cat ())) else Array.update (procs, i, SOME (cat ())); "s")
              | #"W" => (if bin then let val os = binOutstreamOf (B i) in BinIO.output (os, pack text); BinIO.flushOut os end
                         else let val os = if n mod 2 = 0 then #2 (streamsOf (P i)) else textOutstreamOf (P i) in TextIO.output (os, text); TextIO.flushOut os end; "w")
              | #"L" => if bin then str (BinIO.inputN (binInstreamOf (B i), 5))
                        else valOf (TextIO.inputLine (if n mod 2 = 0 then #1 (streamsOf (P i)) else textInstreamOf (P i)))
              | #"C" => (if bin then BinIO.closeOut (binOutstreamOf (B i)) else TextIO.closeOut (textOutstreamOf (P i)); "c")
              | #"R" => if bin then str (BinIO.inputAll (binInstreamOf (B i))) else TextIO.inputAll (textInstreamOf (P i))
              | #"K" => (if bin then kill (B i, Signal.kill) else kill (P i, Signal.kill); "k")
              | #"P" => if OS.Process.isSuccess (if bin then reap (B i) else reap (P i)) then "ok" else "bad"
              | _ => "?"
            end handle Fail _ => "Fail" | Io _ => "Io" | Size => "Size" | e => exnName e
        fun go n = if n >= size l then []
                   else op1 (String.sub (l, n), ord (String.sub (l, n+1)) - 48, n div 2 mod 10) :: go (n+2)
    in print (String.toString (String.concatWith "," (go 0)) ^ "\n") end
val _ = lines (fn l => run (String.sub (l, 0) = #"b") (String.extract (l, 1, NONE)))
val _ = print "DONE\n"
"""
EXIT = r"""
val [cmd] = CommandLine.arguments ()
val _ = print "out"
val _ = TextIO.output (TextIO.stdErr, "err")
val st = Process.system cmd
val _ = print (Bool.toString (Process.isSuccess st))
val _ = Process.exit st
"""
ATEXIT = r"""
val how :: tasks = CommandLine.arguments ()
val _ = List.app (fn s => Process.atExit (fn () => print s)) tasks
val _ = print "start,"
val _ = if how = "exit" then Process.exit Process.success else if how = "fail" then Process.exit Process.failure
        else if how = "terminate" then Process.terminate Process.success else ()
val _ = print "end,"
"""
ARGS = r"""
fun hex s = String.concat (List.map (fn c => StringCvt.padLeft #"0" 2 (Int.fmt StringCvt.HEX (ord c))) (explode s))
val _ = print (String.concatWith "," (List.map hex (CommandLine.arguments ())) ^ "\n")
val n :: vars = String.tokens (fn c => c = #"\n") (valOf (Process.getEnv "VARS"))
val _ = List.app (fn v => print ((case Process.getEnv v of NONE => "NONE" | SOME s => hex s) ^ "\n")) vars
val _ = print "DONE\n"
"""
EXEC = r"""
(* every line of the file: kind, command and arguments, environment; all in String.toString form *)
fun hex s = String.concat (List.map (fn c => StringCvt.padLeft #"0" 2 (Int.fmt StringCvt.HEX (ord c))) (explode s))
fun arg s = valOf (String.fromString s)
val is = TextIO.openIn (hd (CommandLine.arguments ()))
fun words s = List.map arg (String.fields (fn c => c = #" ") s)
fun go () = case TextIO.inputLine is of NONE => () | SOME l =>
    let val [k, cmd, args, env] = String.fields (fn c => c = #"\t") (String.substring (l, 0, size l - 1))
        val args = if args = "-" then [] else words args
        val p = if k = "x" then Unix.execute (arg cmd, args) else Unix.executeInEnv (arg cmd, args, if env = "-" then [] else words env)
        val (ins, outs) = Unix.streamsOf p
        val _ = TextIO.closeOut outs
        val s = TextIO.inputAll ins
    in print (s ^ (if OS.Process.isSuccess (Unix.reap p) then "ok" else "bad") ^ "\n"); go () end
    handle Fail s => (print "Fail\n"; go ())
val _ = go ()
val _ = print "DONE\n"
"""
SIGS = r"""
val names = [("abrt", Signal.abrt), ("alrm", Signal.alrm), ("bus", Signal.bus), ("fpe", Signal.fpe), ("hup", Signal.hup), ("ill", Signal.ill), ("int", Signal.int), ("kill", Signal.kill), ("pipe", Signal.pipe), ("quit", Signal.quit),
  ("segv", Signal.segv), ("term", Signal.term), ("usr1", Signal.usr1), ("usr2", Signal.usr2), ("chld", Signal.chld), ("cont", Signal.cont), ("stop", Signal.stop), ("tstp", Signal.tstp), ("ttin", Signal.ttin), ("ttou", Signal.ttou)]
fun line is = valOf (TextIO.inputLine is)
fun one helper (n, s) =
    let val p = Unix.execute (helper, ["wait"])
        val (ins, outs) = Unix.streamsOf p
        val _ = line ins
        val _ = Unix.kill (p, s)
        val got = if s = Signal.kill orelse s = Signal.stop then "" else line ins
        val _ = if s = Signal.stop then (Unix.kill (p, Signal.cont); TextIO.output (outs, line ins)) else ()
        val _ = TextIO.closeOut outs
        val rest = TextIO.inputAll ins
        val st = Unix.reap p
    in print (n ^ " " ^ Word.toString (Signal.toWord s) ^ " " ^ Bool.toString (Signal.fromWord (Signal.toWord s) = s) ^ " " ^ String.toString (got ^ rest) ^ " " ^ Bool.toString (OS.Process.isSuccess st) ^ "\n") end
(* untrapped: the process dies *)
fun two helper (n, s) =
    let val p = Unix.execute (helper, ["die"])
        val (ins, outs) = Unix.streamsOf p
        val _ = line ins
        val _ = Unix.kill (p, s)
        val rest = TextIO.inputAll ins
        val st = Unix.reap p
        val again = (Unix.reap p; "reaped twice") handle Fail _ => "Fail"
        val gone = (Unix.kill (p, s); "killed twice") handle Fail _ => "Fail"
    in print (n ^ " " ^ rest ^ Bool.toString (OS.Process.isSuccess st) ^ " " ^ again ^ " " ^ gone ^ "\n") end
val [h] = CommandLine.arguments ()
val _ = List.app (one h) names
val _ = List.app (two h) (List.filter (fn (n, _) => List.exists (fn m => m = n) ["abrt", "alrm", "bus", "fpe", "hup", "ill", "int", "kill", "pipe", "quit", "segv", "term", "usr1", "usr2"]) names)
val _ = print "DONE\n"
"""
BULK = r"""
fun chunk n = CharVector.tabulate (n, fn i => chr ((i * 7 + n) mod 251))
fun one (n, k) =
    let val p = Unix.execute ("/bin/cat", []) : (TextIO.instream, TextIO.outstream) Unix.proc
        val (ins, outs) = Unix.streamsOf p
        val s = chunk n
        fun go 0 = true
          | go k = (TextIO.output (outs, s); TextIO.flushOut outs; TextIO.inputN (ins, n) = s) andalso go (k-1)
        val r = go k
        val _ = TextIO.closeOut outs
        val e = TextIO.inputAll ins
    in print (Bool.toString (r andalso e = "" andalso OS.Process.isSuccess (Unix.reap p)) ^ "\n") end
val _ = List.app one [(1, 300), (100, 300), (4095, 50), (4096, 50), (4097, 50), (8192, 20), (30000, 10), (60000, 5)]
fun out n = let val p = Unix.execute ("/usr/bin/head", ["-c", Int.toString n, "/dev/zero"]) : (TextIO.instream, TextIO.outstream) Unix.proc
                val s = TextIO.inputAll (Unix.textInstreamOf p)
            in print (Bool.toString (size s = n andalso CharVector.foldr (fn (c, b) => b andalso c = #"\000") true s andalso OS.Process.isSuccess (Unix.reap p)) ^ "\n") end
val _ = List.app out [0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 1000000]
val _ = print "DONE\n"
"""
HELPER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
extern char **environ;
static void hex(char *s) { for (; *s; s++) printf("%02X", (unsigned char)*s); }
static void got(int s) { char b[32]; int n = sprintf(b, "got %d\n", s); if (write(1, b, n)) ; }
int main(int argc, char **argv)
{
  char c; int i;
  struct rlimit z = {0, 0};
  setrlimit(RLIMIT_CORE, &z);
  if (argc == 2 && !strcmp(argv[1], "wait")) {
    int s[] = {SIGABRT, SIGALRM, SIGBUS, SIGFPE, SIGHUP, SIGILL, SIGINT, SIGPIPE, SIGQUIT, SIGSEGV, SIGTERM, SIGUSR1, SIGUSR2, SIGCHLD, SIGCONT, SIGTSTP, SIGTTIN, SIGTTOU};
    for (i = 0; i < (int)(sizeof s / sizeof *s); i++) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = got; a.sa_flags = SA_RESTART; sigaction(s[i], &a, 0); }
    if (write(1, "ready\n", 6)) ;
    while (read(0, &c, 1) == 1) ;
    if (write(1, "end", 3)) ;
    return 0;
  }
  if (argc == 2 && !strcmp(argv[1], "die")) { if (write(1, "ready\n", 6)) ; while (read(0, &c, 1) == 1) ; return 0; }
  if (argc == 3 && !strcmp(argv[1], "status")) return atoi(argv[2]);
  printf("%d", argc);
  for (i = 0; i < argc; i++) { putchar('|'); hex(argv[i]); }
  putchar('!');
  if (argc < 2 || strcmp(argv[1], "noenv")) for (i = 0; environ[i]; i++) { hex(environ[i]); putchar('|'); }
  return 0;
}
"""


def main():
    c = Check("B22")
    cov = {}
    # 1. conversations
    scripts = ["SWLCRP", "SCRP", "SWP", "SP", "SKP", "SWWCRP", "SKRP", "SWLKP", "SCP", "SPPK", "SWWLLP"]
    if c.thorough:
        scripts += ["SWLWLCRP", "SWCKRP", "SCKP"]

    def model(seq):
        """expected results, each a set of possible texts"""
        st, out = {}, []
        for n, (o, i) in enumerate(seq):
            p = st.get(i)
            t = f"p{i}.{n % 10}\n"
            if o == "S":
                st[i] = {"pend": [], "killed": False, "reaped": False, "lost": False, "closed": False}
                out.append({"s"})
            elif o == "W":
                p["pend"].append(t)
                out.append({"w"})
            elif o == "L":
                out.append({p["pend"].pop(0)})
            elif o == "C":
                p["closed"] = True
                out.append({"c"})
            elif o == "R":
                x = "".join(p["pend"])
                out.append({x} if not p["killed"] else {x, ""})
                p["pend"] = []
            elif o == "K":
                out.append({"Fail"} if p["reaped"] else {"k"})
                p["killed"] = True
            elif o == "P":
                if p["reaped"]:
                    out.append({"Fail"})
                else:
                    # killed after the end of its input, or written to when the reader has gone: either
                    out.append({"ok", "bad"} if p["pend"] or (p["killed"] and p["closed"]) else {"bad"} if p["killed"] else {"ok"})
                    p["reaped"] = True
        return out

    def interleave(a, b):
        if not a or not b:
            yield a or b
            return
        for r in interleave(a[1:], b):
            yield (a[0],) + r
        for r in interleave(a, b[1:]):
            yield (b[0],) + r
    rows = []
    for x, y in itertools.combinations_with_replacement(scripts, 2):
        a = tuple((o, 0) for o in x)
        b = tuple((o, 1) for o in y)
        if len(a) + len(b) > (12 if c.thorough else 10):
            continue
        rows += list(dict.fromkeys(interleave(a, b)))
    triples = [s for s in ("SCRP", "SKP", "SP") for _ in (0,)]
    for x, y, z in itertools.product(triples, repeat=3):
        if len(x) + len(y) + len(z) > (10 if c.thorough else 8):
            continue
        for ab in interleave(tuple((o, 0) for o in x), tuple((o, 1) for o in y)):
            rows += list(interleave(ab, tuple((o, 2) for o in z)))
    rows = list(dict.fromkeys(rows))
    exe = c.compile("talk", TALK)
    K = 16

    def talk(k):
        part = rows[k::K]
        f = c.write(f"{c.work}/talk{k}.txt", "".join("tb"[(j // 2) % 2] + "".join(o + str(i) for o, i in s) + "\n" for j, s in enumerate(part)))
        return part, c.harness(exe, [f] + (["env"] if k % 2 else []), timeout=50)
    for part, r in pmap(talk, range(K)) if exe else ():
        if not r:
            continue
        got = r.out.split("\n")
        if len(got) != len(part) + 2:
            c.fail("lines:talk", f"{len(part)} expected, {len(got) - 2} printed")
        for s, line in zip(part, got):
            name = "".join(o + str(i) for o, i in s)
            g = line.split(",")
            w = model(s)
            if len(g) != len(w) or any(x not in {smlesc(y) for y in e} for x, e in zip(g, w)):
                c.fail(f"talk:{name}", f"got {line}, expected {w}")
    cov["conversations"] = len(rows)
    # 2. exit statuses
    helper = f"{c.work}/helper"
    c.write(f"{helper}.c", HELPER)
    subprocess.run(["gcc", "-O1", "-o", helper, f"{helper}.c"], check=True)
    exe = c.compile("exit", EXIT)
    cases = [(f"exit {k}", k) for k in range(256)] + [("true", 0), ("false", 1), ("nosuchcommand 2>/dev/null", 127), ("", 0), ("test \"a b\" = 'a b'", 0), ("exit 256", 0)] + [(f"kill -{s} $$", None) for s in (1, 2, 9, 13, 15)] + \
        [(f"{helper} status {k}; exit $?", k) for k in (0, 3, 255)] + [(f"exec {helper} status 9", 9)]

    def status(x):
        cmd, want = x
        r = run([c.inst.camlrunm, exe, cmd], cwd=c.work, env=c.env, timeout=60)
        ok = want == 0
        if (r.rc != want if want is not None else r.rc in (0, None)) or r.out.replace("out", "") != ("true" if ok else "false") or "out" not in r.out or not r.err.startswith("err"):
            return f"status:{cmd}", f"got status {r.rc}, {r.out!r}, {r.err!r}; expected status {want}"
    if exe:
        for x in filter(None, pmap(status, cases)):
            c.fail(*x)
    cov["exit statuses"] = len(cases)
    exe = c.compile("atexit", ATEXIT)
    cases = [(how, t) for how in ("exit", "fail", "terminate", "fall") for n in range(0, 5) for t in itertools.product(("a,", "b,"), repeat=n)]

    def atexit(x):
        how, t = x
        r = run([c.inst.camlrunm, exe, how, *t], cwd=c.work, env=c.env, timeout=60)
        want = "start," + ("".join(reversed(t)) if how in ("exit", "fail") else "" if how == "terminate" else "end,")
        bad = r.out != want and not (how == "fall" and r.out == want + "".join(reversed(t)))
        if bad or (r.rc == 0) != (how != "fail"):
            return f"atExit:{how}:{','.join(t)}", f"got {r.out!r} status {r.rc}, expected {want!r}"
    if exe:
        for x in filter(None, pmap(atexit, cases)):
            c.fail(*x)
    cov["atExit orders"] = len(cases)
    # 3. arguments and environment of the program itself
    exe = c.compile("args", ARGS)
    allb = bytes(range(1, 256))
    hx = lambda b: b.hex().upper()
    argvs = [[], [b""], [b"a"], [b"a b", b"", b"-x", b"--"], [bytes([k]) for k in range(1, 256)], [allb], [b"x" * 100000], [b"y"] * 5000, [b"-P", b"-stdlib", b"-I", b"x", b"-V"]]
    env = {b"A": b"1", b"AB": b"2", b"EMPTY": b"", b"ALL": allb, b"LONG": b"z" * 100000, b"with space": b"v=w=x", b"a": b"low", b"\xc3\xa9": b"u"}
    names = [b"A", b"AB", b"ABC", b"EMPTY", b"ALL", b"LONG", b"with space", b"a", b"B", b"\xc3\xa9", b"VAR"]
    if exe:
        for k, av in enumerate(argvs):
            e = dict(env, VARS=b"0\n" + b"\n".join(names))
            e = {(x if isinstance(x, bytes) else x.encode()): (y if isinstance(y, bytes) else y.encode()) for x, y in {**c.env, **e}.items()}
            p = subprocess.run([c.inst.camlrunm.encode(), exe.encode(), *av], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            want = ",".join(map(hx, av)) + "\n" + "".join((hx(env[n]) if n in env else "NONE") + "\n" for n in names) + "DONE\n"
            if p.stdout.decode("latin-1") != want:
                c.fail(f"args:{k}", f"got {p.stdout[:300]}, expected {want[:300]}; {p.stderr[-200:]}")
    cov["arguments and environment"] = len(argvs) * (len(names) + 1)
    # 4. arguments and environment of children
    exe = c.compile("exec", EXEC)
    rows = []
    esc = lambda b: smlesc(b.decode("latin-1")).replace(" ", "\\032") or "-"

    def words(l):
        return " ".join(esc(b) if b else "" for b in l) if l else "-"
    ours = {**{k: v for k, v in c.env.items()}}
    for av in [[], [b"a"], [b"a b"], [b"x", b"y", b"z"], [bytes([k]) for k in range(1, 256)], [allb], [b"q" * 100000], [b"n"] * 3000, [b"noenv", b"1"]]:
        for env in [None, [], [b"A=1"], [b"A=1", b"B=", b"C=" + allb, b"noequals", b"D=" + b"d" * 50000]]:
            want = f"{len(av) + 1}|" + "|".join(hx(x) for x in [helper.encode(), *av]) + "!"
            if env is not None and av[:1] != [b"noenv"]:
                want += "".join(hx(x) + "|" for x in env)
            rows.append((f"{'x' if env is None else 'e'}\t{helper}\t{words(av)}\t{words(env or [])}", want + "ok" if env is not None or av[:1] == [b"noenv"] else want, env is None and av[:1] != [b"noenv"]))
    for k in range(256):
        rows.append((f"x\t{helper}\tstatus {k}\t-", "ok" if k == 0 else "bad", False))
    for cmd in ("/nonexistent", "/etc", "/etc/passwd", c.work, "nosuch"):
        rows.append((f"x\t{cmd}\t-\t-", f"Could not exec {cmd}\nbad", False))
    if exe:
        f = c.write(f"{c.work}/exec.txt", "".join(r[0] + "\n" for r in rows))
        r = c.harness(exe, [f], timeout=100)
        rest = r.out if r else None
        for row, want, prefix in rows if r else ():
            line, rest = (rest.split("\n", 1) + [""])[:2]
            if want.count("\n"):
                l2, rest = (rest.split("\n", 1) + [""])[:2]
                line += "\n" + l2
            if prefix:
                got = sorted(x for x in line[len(want):-2].split("|") if x)
                e = sorted(hx(f"{k}={v}".encode()) for k, v in {**dict(c.env)}.items())
                missing = [x for x in e if x not in got]
                if not line.startswith(want) or not line.endswith("ok") or missing:
                    c.fail(f"exec:{row[:100]}", f"got {line[:300]}, expected {want[:300]} and the environment; missing {missing[:3]}")
            elif line != want:
                c.fail(f"exec:{row[:100]}", f"got {line[:300]}, expected {want[:300]}")
    cov["child arguments, environments, statuses"] = len(rows)
    # 5. signals
    exe = c.compile("sigs", SIGS)
    r = c.harness(exe, [helper], timeout=60) if exe else None
    if r:
        S = {n: getattr(signal, "SIG" + n.upper()) for n in "abrt alrm bus fpe hup ill int kill pipe quit segv term usr1 usr2 chld cont stop tstp ttin ttou".split()}
        want = []
        for n, s in S.items():
            t = "" if n == "kill" else ("got %d\nend" % signal.SIGCONT if n == "stop" else f"got {int(s)}\nend")
            want.append((f"{n} {int(s):X} true ", " " + smlesc(t).replace(" ", " ") + " " + ("false" if n == "kill" else "true")))
        got = r.out.split("\n")
        for (h, t), line in zip(want, got):
            if not line.startswith(h) or line[len(h) - 1:] != t:
                if not (h.startswith("stop") and line.startswith(h) and line.endswith(" true")):
                    c.fail(f"signal:{h}", f"got {line!r}, expected {h + t[1:]!r}")
        dead = "abrt alrm bus fpe hup ill int kill pipe quit segv term usr1 usr2".split()
        if got[len(want):len(want) + len(dead)] != [f"{n} false Fail Fail" for n in S if n in dead]:
            c.fail("signal:untrapped", "\n".join(got[len(want):]))
        cov["signals"] = len(want) + len(dead)
    # 6. amounts of data
    exe = c.compile("bulk", BULK)
    r = c.harness(exe, [], timeout=60) if exe else None
    if r and r.out != "true\n" * 17 + "DONE\n":
        c.fail("bulk", r.out)
    # 7. sleep
    r = c.harness(c.compile("sleep", r"""
fun one us = let val t = Time.now () val _ = Process.sleep (Time.fromMicroseconds us) val d = Time.toMicroseconds (Time.- (Time.now (), t)) in print (Bool.toString (d >= us andalso (us > 0 orelse d < 500000)) ^ "\n") end
val _ = List.app one [~5000000, ~1, 0, 1, 1000, 999999, 1000000, 1200000]
val _ = print "DONE\n"
"""), [], timeout=60)
    if r and r.out != "true\n" * 8 + "DONE\n":
        c.fail("sleep", r.out)
    c.sample("S0 S1 W0 C0 R0 P1 P0: the first child sees the end of its input although the second lives")
    c.finish({"histories": sum(cov.values()), "sections": cov}, ["whether a process that writes while it is being reaped dies of SIGPIPE is left open", "the children are /bin/cat and a helper written in C"])


if __name__ == "__main__":
    main()
