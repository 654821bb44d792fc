#define _GNU_SOURCE
/* Runs the window between getenv("STEP_BEGIN") and getenv("STEP_END") of the process it is preloaded into one machine
   instruction at a time.  At every instruction whose number is STEP_RES modulo STEP_MOD a copy of the process is made in
   which SIGINT is delivered exactly there.  The copy then runs freely to its end; with STEP_SECOND=k it is first
   single-stepped for k more instructions, also inside the signal handler, and each of these gets a copy with a second
   SIGINT.  getenv("STEP_POINT") names the point in a copy. */
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#define TF 0x100
static volatile long n, n1, from, until, res, mod = 1, second;
static volatile int on, depth;
static char point[200], file[300], private[330];
static char * (*real_getenv)(const char *);
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
static void (*handler)(int);
static int * blocking;

static void setup(void)
{
  if (real_getenv) return;
  real_getenv = dlsym(RTLD_NEXT, "getenv");
  real_sigaction = dlsym(RTLD_NEXT, "sigaction");
  blocking = dlsym(RTLD_DEFAULT, "in_blocking_section");
}

static long num(const char * s, long d) { char * v = real_getenv(s); return v ? atol(v) : d; }

static void report(const char * what, long a)
{
  char b[260];
  int k = snprintf(b, sizeof b, "MISMATCH STEP:%s %ld\tat %ld (%ld)\n", what, a, (long) n, (long) n1);
  syscall(SYS_write, 1, b, k);
}

/* A copy shares the positions of the open files with the original: it gets descriptors of its own, and a private copy of
   the file that it writes (whose name getenv("STEP_FILE") then gives). */
static void own_files(void)
{
  int fd;
  for (fd = 3; fd < 9; fd++) {
    struct stat st;
    int fl = fcntl(fd, F_GETFL), nw;
    char nm[40], buf[8192];
    if (fl == -1 || fstat(fd, &st) || !S_ISREG(st.st_mode) || !file[0]) continue;
    off_t pos = lseek(fd, 0, SEEK_CUR);
    snprintf(nm, sizeof nm, "/proc/self/fd/%d", fd);
    if ((fl & O_ACCMODE) == O_RDONLY) nw = open(nm, O_RDONLY);
    else {
      long k;
      int in = open(nm, O_RDONLY);
      snprintf(private, sizeof private, "%s.%d", file, (int) getpid());
      nw = open(private, O_RDWR | O_CREAT | O_TRUNC, 0600);
      while ((k = read(in, buf, sizeof buf)) > 0) if (write(nw, buf, k) != k) _exit(4);
      close(in);
    }
    if (nw < 0) _exit(4);
    lseek(nw, pos, SEEK_SET);
    dup2(nw, fd);
    close(nw);
  }
}

/* in the copy: 1; in the original, after the copy has ended: 0 */
static int copy(void)
{
  int st;
  pid_t p = fork();
  if (p == 0) { alarm(60); own_files(); return 1; }
  if (p < 0) { report("fork", 0); _exit(3); }
  while (waitpid(p, &st, 0) == -1) ;
  if (!WIFEXITED(st)) report("a copy was ended by signal", WTERMSIG(st));
  else if (WEXITSTATUS(st)) report("a copy ended with status", WEXITSTATUS(st));
  return 0;
}

static void deliver(ucontext_t * uc)
{
  Dl_info di;
  memset(&di, 0, sizeof di);
  dladdr((void *) uc->uc_mcontext.gregs[REG_RIP], &di);
  snprintf(point + strlen(point), 90, " %ld in %.40s%s", (long) n, di.dli_sname ? di.dli_sname : "?", blocking && *blocking ? " (blocking)" : "");
  raise(SIGINT);           /* blocked until the trap handler returns */
}

static void trap(int sig, siginfo_t * si, void * u)
{
  ucontext_t * uc = u;
  greg_t * g = uc->uc_mcontext.gregs;
  if (!on) { g[REG_EFL] &= ~TF; return; }
  g[REG_EFL] |= TF;
  n++;
  if (depth == 0) {
    if (n < from || n > until || n % mod != res) return;
    if (!copy()) return;
    depth = 1; n1 = n; on = second > 0;
  } else {
    if (n - n1 <= second) {
      if (!copy()) return;
      depth = 2;
    }
    on = 0;
    if (depth == 1) { g[REG_EFL] &= ~TF; return; }
  }
  if (!on) g[REG_EFL] &= ~TF;
  deliver(uc);
}

static void step_handler(int sig)
{
  if (on) raise(SIGTRAP);       /* go on one instruction at a time */
  handler(sig);
}

int sigaction(int sig, const struct sigaction * a, struct sigaction * old)
{
  struct sigaction b;
  setup();
  if (sig != SIGINT || !a || a->sa_handler == SIG_DFL || a->sa_handler == SIG_IGN) return real_sigaction(sig, a, old);
  b = *a;
  handler = a->sa_handler;
  b.sa_handler = step_handler;
  return real_sigaction(sig, &b, old);
}

__attribute__((constructor)) static void init(void)
{
  struct sigaction a;
  setup();
  from = num("STEP_FROM", 1); until = num("STEP_UNTIL", 1L << 40); res = num("STEP_RES", 0); mod = num("STEP_MOD", 1); second = num("STEP_SECOND", 0);
  if (real_getenv("STEP_FILE")) snprintf(file, sizeof file, "%s", real_getenv("STEP_FILE"));
  memset(&a, 0, sizeof a);
  a.sa_sigaction = trap;
  a.sa_flags = SA_SIGINFO;
  sigfillset(&a.sa_mask);
  real_sigaction(SIGTRAP, &a, NULL);
}

__attribute__((destructor)) static void fini(void) { if (private[0]) unlink(private); }

char * getenv(const char * s)
{
  setup();
  if (s[0] == 'S' && !strncmp(s, "STEP_", 5)) {
    if (!strcmp(s, "STEP_POINT")) return depth ? point : NULL;
    if (!strcmp(s, "STEP_FILE")) return private[0] ? private : file;
    if (!strcmp(s, "STEP_BEGIN")) {
      if (!depth && mod > 0) { on = 1; raise(SIGTRAP); }
      return "on";
    }
    if (!strcmp(s, "STEP_END")) {
      static char count[30];
      on = 0;
      snprintf(count, sizeof count, "%ld", (long) n);
      return count;
    }
  }
  return real_getenv(s);
}
