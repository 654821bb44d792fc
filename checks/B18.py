#!/usr/bin/env python3
"""B18: Date and Time agree with the calendar.

Every day of two centuries, all out-of-range field combinations, every hour around every zone transition in several zones,
all offsets, all short texts of times.  Oracle: calendar arithmetic in Python, and the C library's localtime through Python."""
import calendar, itertools, multiprocessing, os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
WD = "Mon Tue Wed Thu Fri Sat Sun".split()
PRE = r"""
open Date
val mon = Vector.fromList [Jan, Feb, Mar, Apr, May, Jun, Jul, Aug, Sep, Oct, Nov, Dec]
val I = Int.toString
fun mstr m = case m of Jan => "1" | Feb => "2" | Mar => "3" | Apr => "4" | May => "5" | Jun => "6" | Jul => "7" | Aug => "8" | Sep => "9" | Oct => "10" | Nov => "11" | Dec => "12"
fun wstr w = case w of Mon => "Mon" | Tue => "Tue" | Wed => "Wed" | Thu => "Thu" | Fri => "Fri" | Sat => "Sat" | Sun => "Sun"
fun ostr NONE = "local" | ostr (SOME t) = I (Time.toSeconds t)
fun dstr NONE = "?" | dstr (SOME true) = "dst" | dstr (SOME false) = "std"
fun show d = String.concat [I (year d), "/", mstr (month d), "/", I (day d), " ", I (hour d), ":", I (minute d), ":", I (second d), " ", wstr (weekDay d), " ", I (yearDay d)]
fun full d = show d ^ " " ^ ostr (offset d) ^ " " ^ dstr (isDst d)
fun mk off (y, m, d, h, mi, s) = date {year = y, month = Vector.sub (mon, m-1), day = d, hour = h, minute = mi, second = s, offset = off}
fun g f = f () handle Date => "Date" | Time.Time => "Time" | Overflow => "Overflow" | e => "!" ^ exnName e
fun ints l = List.map (fn s => valOf (Int.fromString s)) (String.tokens Char.isSpace l)
val args = CommandLine.arguments ()
fun file () = TextIO.openIn (hd args)
fun lines f = let val is = file ()
                  fun go () = case TextIO.inputLine is of NONE => () | SOME l => (f (String.substring (l, 0, size l - 1)); print "\n"; go ())
              in go () end
fun secs t = I (Time.toSeconds t)
"""
FIELDS = PRE + r"""
val _ = lines (fn l => let val [y, m, d, h, mi, s] = ints l in print (g (fn () => full (mk (SOME Time.zeroTime) (y, m, d, h, mi, s)))) end)
val _ = print "DONE\n"
"""
UNIV = PRE + r"""
val _ = lines (fn l => let val [t] = ints l
                           val d = fromTimeUniv (Time.fromSeconds t)
                           val d' = mk (SOME Time.zeroTime) (year d, Date.month d |> mstr, day d, hour d, minute d, second d)
                       in print (full d); print "|"; print (if full d' = full d then "same" else full d'); print "|";
                          print (g (fn () => secs (toTime d))); print "|"; print (g (fn () => toString d));
                          print "|"; print (g (fn () => case fromString (" \n" ^ toString d ^ "rest") of NONE => "NONE" | SOME e => if show e = show d andalso compare (d, e) = EQUAL then "same" else full e))
                       end)
val _ = print "DONE\n"
""".replace("Date.month d |> mstr", "valOf (Int.fromString (mstr (month d)))")
LOCAL = PRE + r"""
val _ = print (secs (localOffset ()) ^ "\n")
val _ = lines (fn l => let val [t] = ints l
                           val d = fromTimeLocal (Time.fromSeconds t)
                           val d' = mk NONE (year d, valOf (Int.fromString (mstr (month d))), day d, hour d, minute d, second d)
                       in print (full d); print "|"; print (show d'); print "|"; print (ostr (offset d')); print "|";
                          print (g (fn () => secs (toTime d))); print "|"; print (g (fn () => toString d)); print "|"; print (g (fn () => fmt "%Y-%m-%d %H:%M:%S %j %Z" d))
                       end)
val _ = print "DONE\n"
"""
OFFS = PRE + r"""
val _ = lines (fn l => let val (off :: fs) = ints l
                           val [y, m, d, h, mi, s] = fs
                           val d = mk (SOME (Time.fromSeconds off)) (y, m, d, h, mi, s)
                       in print (full d); print "|"; print (g (fn () => secs (toTime d))) end)
val _ = print "DONE\n"
"""
TIMES = r"""
val I = Int.toString
fun unesc s = valOf (String.fromString s)
val is = TextIO.openIn (hd (CommandLine.arguments ()))
fun go () = case TextIO.inputLine is of NONE => () | SOME l =>
    let val s = unesc (String.substring (l, 0, size l - 1))
    in print (case Time.scan (fn i => if i < size s then SOME (String.sub (s, i), i+1) else NONE) 0 of NONE => "-" | SOME (t, i) => I (Time.toMicroseconds t) ^ ":" ^ I i);
       print " ";
       print (case Time.fromString s of NONE => "-" | SOME t => I (Time.toMicroseconds t) ^ "," ^ I (Time.toMilliseconds t) ^ "," ^ I (Time.toSeconds t));
       print "\n"; go ()
    end
val _ = go ()
val _ = print "DONE\n"
"""

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
leap = lambda y: y % 4 == 0 and y % 100 != 0 or y % 400 == 0


def dayno(y, m, d):
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400 + CUM[m - 1] + (1 if m > 2 and leap(y) else 0) + d


def civil(n):
    """day number (1 = 1 January of year 1) to year, month, day"""
    y = (n - 1) * 400 // 146097 + 1
    while dayno(y, 1, 1) > n:
        y -= 1
    while dayno(y + 1, 1, 1) <= n:
        y += 1
    m = 12
    while dayno(y, m, 1) > n:
        m -= 1
    return y, m, n - dayno(y, m, 1) + 1


EPOCH = dayno(1970, 1, 1)


def show(n, sec):
    """day number and second of the day, as the harness shows dates"""
    n, sec = n + sec // 86400, sec % 86400
    y, m, d = civil(n)
    return f"{y}/{m}/{d} {sec // 3600}:{sec // 60 % 60}:{sec % 60} {WD[(n - 1) % 7]} {n - dayno(y, 1, 1)}"


def asctime(n, sec):
    y, m, d = civil(n + sec // 86400)
    sec2 = sec % 86400
    return f"{WD[(n + sec // 86400 - 1) % 7]} {MON[m - 1]} {d:2d} {sec2 // 3600:02d}:{sec2 // 60 % 60:02d}:{sec2 % 60:02d} {y}"


ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30", "HST10", "<+14>-14", "<-12>12", "NST3:30NDT,M3.2.0,M11.1.0"]


def neg(x):
    return str(x).replace("-", "~")


def zone(a):
    tz, T = a
    os.environ["TZ"] = tz
    time.tzset()
    rows, off = [], (time.timezone % 86400)
    ts = set(range(3600, 2**31 - 1, 86400 * (1 if T else 3) + 3600))
    for y in ([1970, 1999, 2000, 2024, 2026, 2037] + (list(range(1971, 2037, 4)) if T else [])):
        t0 = calendar.timegm((y, 1, 1, 0, 0, 0))
        prev = None
        for t in range(max(t0, 0), t0 + 366 * 86400, 3600):
            o = time.localtime(t).tm_gmtoff
            if prev is not None and o != prev:
                ts |= set(range(t - 4 * 3600, t + 4 * 3600, 300)) | set(range(t - 3, t + 3)) | {t - 3601, t - 3600, t - 3599}
            prev = o
    for t in sorted(x for x in ts if x >= 86400):
        l = time.localtime(t)
        sh = f"{l.tm_year}/{l.tm_mon}/{l.tm_mday} {l.tm_hour}:{l.tm_min}:{l.tm_sec} {WD[l.tm_wday]} {l.tm_yday - 1}"
        rows.append((str(t), f"{sh} local {'dst' if l.tm_isdst else 'std'}|{sh}|local|{t}|{time.asctime(l)}|{time.strftime('%Y-%m-%d %H:%M:%S %j %Z', l)}"))
    return tz, off, rows


def main():
    c = Check("B18")
    T, cov = c.thorough, {}

    def go(name, text, rows, env=None, shards=1, build=None):
        """rows: (input line, expected line or list of acceptable lines)"""
        exe = build or c.compile(name, text)
        n = 0
        rows = list(rows)
        parts = [rows[k::shards] for k in range(shards)]

        def one(k):
            f = c.write(f"{c.work}/{name}{k}{abs(hash(str(env)))}.txt", "".join(i + "\n" for i, _ in parts[k]))
            return c.harness(exe, [f], env=env, timeout=200)
        for part, r in zip(parts, pmap(one, range(shards))):
            if not r:
                continue
            got = r.out.split("\n")
            if len(got) != len(part) + 2:
                c.fail(f"lines:{name}", f"{len(part)} lines expected, {len(got) - 2} printed")
                continue
            for (i, w), x in zip(part, got):
                n += 1
                if x != w and not (isinstance(w, tuple) and x in w):
                    c.fail(f"{name}:{(env or {}).get('TZ', '')}:{i}", f"got {x}, expected {w}")
        cov[name] = cov.get(name, 0) + n

    # 1. normalisation
    rows = []

    def fields(y, m, d, h, mi, s):
        n, sec = dayno(y, m, d), h * 3600 + mi * 60 + s
        if n + sec // 86400 >= 1 and y >= 0:
            rows.append((f"{y} {m} {neg(d)} {neg(h)} {neg(mi)} {neg(s)}", show(n, sec) + " 0 std"))
    ys = [1, 2, 4, 5, 100, 101, 400, 401, 1582, 1600, 1700, 1752, 1899, 1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2036, 2037, 2038, 2039, 2100, 2101, 2400, 3000, 9999, 12345]
    for y in ys:
        for m in range(1, 13):
            for d in [-100000, -1000, -366, -365, -31, -1, 0, 1, 2, 28, 29, 30, 31, 32, 59, 60, 61, 365, 366, 367, 1000, 36524, 36525, 146097, 200000]:
                fields(y, m, d, 12, 0, 0)
    for y, m, d in [(1999, 12, 31), (2000, 2, 28), (2000, 3, 1), (2001, 2, 28), (1900, 2, 28), (1970, 1, 1), (2038, 1, 19), (2037, 12, 31), (1, 1, 2)]:
        for h in (-49, -25, -24, -1, 0, 1, 23, 24, 25, 48, 1000):
            for mi in (-1441, -61, -60, -1, 0, 59, 60, 61, 1440, 100000):
                for s in (-86401, -61, -60, -1, 0, 59, 60, 61, 62, 3600, 86399, 86400, 10000000):
                    fields(y, m, d, h, mi, s)
    rows += [("~1 1 1 0 0 0", "Date"), ("~4000 12 31 0 0 0", "Date")]
    go("fields", FIELDS, rows, shards=4)
    # every day
    rows = []
    for n in range(dayno(1, 1, 1), dayno(1, 1, 1) + 1500) if not T else range(1, dayno(1600, 1, 1)):
        y, m, d = civil(n)
        fields(y, m, d, 0, 0, 0)
    for n in range(dayno(1895, 1, 1), dayno(2110, 1, 1)):
        y, m, d = civil(n)
        fields(y, m, d, 23, 59, 59)
    go("everyday", FIELDS, rows, shards=4)
    # 2. universal time
    rows = []
    ts = {k * 86400 + s for k in range(0, dayno(2110, 1, 1) - EPOCH) for s in ((0, 86399) if T or k % 5 == 0 else (0,))}
    ts |= {b + d for b in (0, 2**31, 2**32, 951782400, 68169600) for d in range(0, 100)} | {2**k + d for k in range(8, 34) for d in (-1, 0, 1)} | {86400 * 59 + k * 97 for k in range(900)}
    for t in sorted(ts):
        n, sec = EPOCH + t // 86400, t % 86400
        rows.append((str(t), f"{show(n, sec)} 0 std|same|{t}|{asctime(n, sec)}|same"))
    for t in (-1, -86400, -86401, -2**31, -12345678):
        n, sec = EPOCH + t // 86400, t % 86400
        rows.append((neg(t), tuple(f"{show(n, sec)} 0 std|same|{x}|{asctime(n, sec)}|same" for x in ("Date", neg(t)))))
    go("universal", UNIV, rows, shards=8)
    # 3. local time in zones
    exe = c.compile("local", LOCAL)

    with multiprocessing.Pool(NCPU) as p:
        zs = p.map(zone, [(z, T) for z in ZONES], chunksize=1)

    def runzone(z):
        tz, off, rows = z
        f = c.write(f"{c.work}/z{ZONES.index(tz)}.txt", "".join(i + "\n" for i, _ in rows))
        r = c.harness(exe, [f], env={"TZ": tz}, timeout=200)
        if not r:
            return 0
        got = r.out.split("\n")
        if got[0] != str(off):
            c.fail(f"localOffset:{tz}", f"got {got[0]}, expected {off}")
        if len(got) != len(rows) + 3:
            c.fail(f"lines:local:{tz}", f"{len(rows)} expected, {len(got) - 3} printed")
        for (i, w), x in zip(rows, got[1:]):
            if x != w:
                c.fail(f"local:{tz}:{i}", f"got {x}, expected {w}")
        return len(rows)
    cov["local"] = sum(pmap(runzone, zs))
    # 4. offsets, in zones
    for tz in ZONES[:4] + ["IST-5:30"]:
        rows = []
        for off in sorted(set(range(-12 * 3600 + 1800, 72 * 3600, 1800)) | {1, 59, -1, -60, 43199, 43200, 43201, 86399, 86400, 86401, 129600, 129599, 90000, 144000, 43200 + 2 * 86400}):
            o = off % 86400
            east = 86400 - o if o >= 43200 else -o          # seconds east of UTC
            extra = off // 86400 if off >= 0 else 0
            for (y, m, d, h, mi, s) in ((2001, 1, 1, 12, 0, 0), (1999, 12, 31, 23, 59, 59), (2024, 7, 15, 0, 0, 0)):
                n, sec = dayno(y, m, d) + extra, h * 3600 + mi * 60 + s
                rows.append((f"{neg(off)} {y} {m} {d} {h} {mi} {s}", f"{show(n, sec)} {o} std|{(n - EPOCH) * 86400 + sec - east}"))
        go("offsets", OFFS, rows, env={"TZ": tz})
    # 5. formats, comparison, invalid dates, scanning
    os.environ["TZ"] = "UTC0"
    time.tzset()
    items = []
    ds = [(2000, 1, 1, 0, 0, 0), (1999, 12, 31, 23, 59, 59), (2004, 2, 29, 12, 30, 1), (1970, 1, 1, 1, 2, 3), (2026, 11, 18, 11, 5, 9), (2037, 6, 30, 13, 0, 59), (1901, 3, 4, 5, 6, 7), (2099, 10, 10, 10, 10, 10), (2001, 9, 9, 1, 46, 40)]
    mk = lambda d: f'(Date.date {{year = {d[0]}, month = Date.{MON[d[1] - 1]}, day = {d[2]}, hour = {d[3]}, minute = {d[4]}, second = {d[5]}, offset = SOME Time.zeroTime}})'
    for d in ds:
        n = dayno(*d[:3])
        tm = time.struct_time((*d, (n - 1) % 7, n - dayno(d[0], 1, 1) + 1, 0))
        for f in [f"%{x}" for x in "aAbBcdHIjmMpSUwWxXyY%"] + ["", "x", "%d%%%H", "%Y-%m-%dT%H:%M:%S", " %a ", "%A, %d %B %Y" * 9, "y" * 255, "y" * 256, "y" * 300, "%Y" * 64, "%Y" * 100, "%B" * 200]:
            items.append((f"fmt:{f[:60]}:{len(f)}:{d}", f"Date.fmt {smlstr(f)} {mk(d)}", time.strftime(f, tm)))
        items.append((f"toString:{d}", f"Date.toString {mk(d)}", asctime(n, d[3] * 3600 + d[4] * 60 + d[5])))
    cs = sorted([(2000, 5, 5, 5, 5, 5)] + [tuple(5 + (dv if i == j else 0) + (1995 if i == 0 else 0) for i in range(6)) for j in range(6) for dv in (-1, 1)] +
                [(1999, 12, 31, 23, 59, 59), (2000, 1, 1, 0, 0, 0), (2000, 6, 1, 0, 0, 0), (2000, 4, 30, 23, 59, 59), (2000, 10, 1, 0, 0, 0), (2000, 2, 28, 9, 9, 9)])
    O = 'fun ord LESS = "<" | ord EQUAL = "=" | ord GREATER = ">"'
    for a in cs:
        for b in cs:
            items.append((f"compare:{a}:{b}", f"ord (Date.compare ({mk(a)}, {mk(b)}))", "<" if a < b else ">" if a > b else "="))
    for t in ["Wed Feb 30 01:02:03 2000", "Wed Feb 29 01:02:03 2001", "Wed Jan  0 01:02:03 2000", "Wed Jan 32 01:02:03 2000", "Wed Jan  1 24:02:03 2000", "Wed Jan  1 01:60:03 2000", "Wed Jan  1 01:02:62 2000"]:
        for f, x in (("toString", "Date.toString"), ("fmt", 'Date.fmt "%Y"'), ("toTime", "(Time.toString o Date.toTime)")):
            items.append((f"invalid:{f}:{t}", f'(ignore ({x} (valOf (Date.fromString "{t}"))); "accepted") handle Date.Date => "Date"', "Date"))
    for t in ["", "Wed", "Wed Mar", "Wed Mar  8", "Wed Mar  8 19:06", "Wed Mar  8 19:06:45", "Wex Mar  8 19:06:45 1995", "Wed Max  8 19:06:45 1995", "wed Mar  8 19:06:45 1995", "8 Mar 19:06:45 1995", "Wed Mar  x 19:06:45 1995", "Wed Mar  8 19:06:45 x"]:
        items.append((f"noscan:{t}", f'case Date.fromString "{t}" of NONE => "NONE" | SOME d => Date.toString d', "NONE"))
    items.append(("scan", 'case Date.scan (fn i => if i < 30 then SOME (String.sub ("Wed Mar  8 19:06:45 1995xxxxxx", i), i+1) else NONE) 0 of NONE => "NONE" | SOME (d, i) => Date.toString d ^ Int.toString i', "Wed Mar  8 19:06:45 199524"))
    cov["formats, comparisons, invalid dates"] = c.cases("cases", O, items)
    # 6. Time
    alpha = "019.+~- x"
    texts = ["".join(t) for k in range(0, 6 if T else 5) for t in itertools.product(alpha, repeat=k)]
    texts += [f"{s}{i}{f}{r}" for s in ("", "~", " \n\t+") for i in ("0", "7", "123456789", "2147483648") for r in ("", " ", "x", ".")
              for f in [""] + ["." + d for d in ("0", "5", "05", "000001", "0000001", "0000005", "00000049", "00000050", "999999", "9999994", "9999995", "9999999", "99999999", "123456", "1234567", "12345678", "1234564999", "000000", "0000000", "00000000", "100000", "000010")]]
    rows = []
    for t in texts:
        m = re.match(r"[ \n\t]*([+~-]?)(\d+(?:\.\d+)?|\.\d+)", t)
        if not m:
            rows.append((smlesc(t), "- -"))
            continue
        i, _, f = m[2].partition(".")
        us = int(i or "0") * 10**6
        if f:
            us += (int((f + "0000000")[:7]) + 5) // 10
        if m[1] and m[1] in "~-":
            us = -us
        tr = lambda x, k: neg(x // k if x >= 0 else -(-x // k))
        rows.append((smlesc(t), f"{neg(us)}:{m.end()} {neg(us)},{tr(us, 1000)},{tr(us, 10**6)}"))
    go("times", TIMES, rows, shards=4)
    items = []
    vs = [0, 1, 999, 1000, 1001, 500000, 999999, 1000000, 1000001, 1499999, 1500000, 60000000, 86400 * 10**6, 10**15, 2**31, 2**32 - 1, 123456789]
    vs = sorted({x for v in vs for x in (v, -v)})
    us = lambda v: f"(Time.fromMicroseconds {neg(v)})"
    tr = lambda x, k: neg(x // k if x >= 0 else -(-x // k))
    for v in vs:
        items += [(f"micro:{v}", f"Int.toString (Time.toMicroseconds {us(v)})", neg(v)), (f"milli:{v}", f"Int.toString (Time.toMilliseconds {us(v)})", tr(v, 1000)),
                  (f"sec:{v}", f"Int.toString (Time.toSeconds {us(v)})", tr(v, 10**6)),
                  (f"fromsec:{v}", f"Int.toString (Time.toMicroseconds (Time.fromSeconds {neg(v % 10**7)}))", neg(v % 10**7 * 10**6)),
                  (f"frommilli:{v}", f"Int.toString (Time.toMicroseconds (Time.fromMilliseconds {neg(v % 10**9)}))", neg(v % 10**9 * 1000)),
                  (f"real:{v}", f"Int.toString (Time.toMicroseconds (Time.fromReal (real ({neg(v % 10**7)})))) ", neg(v % 10**7 * 10**6))]
        for n in (-1, 0, 1, 2, 3, 6, 9):
            items.append((f"fmt:{n}:{v}", f"Time.fmt {neg(n)} {us(v)}", ("%.*f" % (max(n, 0), v / 1e6)).replace("-", "~")))
        items.append((f"toString:{v}", f"Time.toString {us(v)}", ("%.3f" % (v / 1e6)).replace("-", "~")))
        for w in vs:
            t = lambda x: "true" if x else "false"
            items.append((f"ops:{v}:{w}", f"let val a = {us(v)} and b = {us(w)} open Time in Int.toString (toMicroseconds (a + b)) ^ \" \" ^ Int.toString (toMicroseconds (a - b)) ^ \" \" ^ "
                          f"String.concat (List.map Bool.toString [a < b, a <= b, a > b, a >= b, a = b]) ^ ord (compare (a, b)) end",
                          f"{neg(v + w)} {neg(v - w)} " + t(v < w) + t(v <= w) + t(v > w) + t(v >= w) + t(v == w) + ("<" if v < w else ">" if v > w else "=")))
    items.append(("huge", 'Int.toString (Time.toMicroseconds (Time.fromReal 1E300)) handle Overflow => "Overflow"', "Overflow"))
    items.append(("hugesec", 'Int.toString (Time.toSeconds (Time.fromReal 1E300)) handle Overflow => "Overflow"', "Overflow"))
    cov["time values"] = c.cases("tcases", O, items)
    # clocks go forward and agree with the system's
    r = c.harness(c.compile("clock", r"""
val t0 = Time.now ()
val rt = Timer.startRealTimer () and ct = Timer.startCPUTimer ()
fun burn (0, l) = l | burn (n, l) = burn (n-1, List.rev (n :: List.take (l, 1) handle Subscript => [n]))
fun mono (0, _, _) = true
  | mono (n, t, r) = let val t' = Time.now () val r' = Timer.checkRealTimer rt in Time.>= (t', t) andalso Time.>= (r', r) andalso mono (n-1, t', r') end
val _ = burn (3000000, [])
fun cpu (0, _) = true
  | cpu (n, (u, s, g)) = let val {usr, sys} = Timer.checkCPUTimer ct val gc = Timer.checkGCTime ct in Time.>= (usr, u) andalso Time.>= (sys, s) andalso Time.>= (gc, g) andalso cpu (n-1, (usr, sys, gc)) end
val _ = print (Int.toString (Time.toMilliseconds t0) ^ " " ^ Bool.toString (mono (20000, t0, Time.zeroTime)) ^ Bool.toString (cpu (20000, (Time.zeroTime, Time.zeroTime, Time.zeroTime))) ^ "\nDONE\n")
"""))
    if r:
        ms, ok = r.out.split("\n")[0].split(" ")
        if ok != "truetrue" or abs(int(ms) / 1000 - time.time()) > 300:
            c.fail("clock", r.out)
    c.sample("Date.fmt \"%j\" of 2004-02-29 is 060")
    c.finish({"dates": sum(cov.values()), "sections": cov}, ["local time follows the C library's zone rules (read through Python)", "times before 1970 are not claimed for toTime, nor fractions of a second before 1970"])


def smlstr(x):
    return '"' + smlesc(x) + '"'


if __name__ == "__main__":
    main()
