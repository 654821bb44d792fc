/* LD_PRELOAD: SOCKSHIM="fn:n:errno" makes the n-th call (from 1) of fn fail; "fn:n:/k" makes it transfer at most k bytes.
   Several, separated by commas.  SOCKSHIM_LOG: file to which each injection adds one byte. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/select.h>

static int count[16];
static const char *names[] = {"socket", "bind", "listen", "connect", "accept", "send", "recv", "sendto", "recvfrom", "shutdown", "select", "close", 0};

/* 0: nothing; -1: fail (errno set); k > 0: at most k bytes */
static int inject(const char *fn) {
  const char *s = getenv("SOCKSHIM");
  int i, n;
  if (!s) return 0;
  for (i = 0; names[i] && strcmp(names[i], fn); i++);
  n = ++count[i];
  while (*s) {
    size_t l = strlen(fn);
    const char *e = strchr(s, ',');
    if (!strncmp(s, fn, l) && s[l] == ':') {
      char *p;
      long k = strtol(s + l + 1, &p, 10);
      if ((k == n || k == 0) && *p == ':') {
        char *lg = getenv("SOCKSHIM_LOG");
        if (lg) { int d = open(lg, O_WRONLY | O_CREAT | O_APPEND, 0666); ssize_t w = write(d, "x", 1); (void) w; close(d); }
        if (p[1] == '/') return atoi(p + 2);
        errno = atoi(p + 1);
        return -1;
      }
    }
    if (!e) break;
    s = e + 1;
  }
  return 0;
}
#define REAL(f) static __typeof__(&f) real; if (!real) real = dlsym(RTLD_NEXT, #f)
#define LIM(n) if (k > 0 && (n) > (size_t) k) (n) = k
int socket(int a, int b, int c) { REAL(socket); return inject("socket") < 0 ? -1 : real(a, b, c); }
int bind(int a, const struct sockaddr *b, socklen_t c) { REAL(bind); return inject("bind") < 0 ? -1 : real(a, b, c); }
int listen(int a, int b) { REAL(listen); return inject("listen") < 0 ? -1 : real(a, b); }
int connect(int a, const struct sockaddr *b, socklen_t c) { REAL(connect); return inject("connect") < 0 ? -1 : real(a, b, c); }
int accept(int a, struct sockaddr *b, socklen_t *c) { REAL(accept); return inject("accept") < 0 ? -1 : real(a, b, c); }
int shutdown(int a, int b) { REAL(shutdown); return inject("shutdown") < 0 ? -1 : real(a, b); }
int select(int a, fd_set *b, fd_set *c, fd_set *d, struct timeval *e) { REAL(select); return inject("select") < 0 ? -1 : real(a, b, c, d, e); }
ssize_t send(int a, const void *b, size_t n, int f) { REAL(send); int k = inject("send"); if (k < 0) return -1; LIM(n); return real(a, b, n, f); }
ssize_t recv(int a, void *b, size_t n, int f) { REAL(recv); int k = inject("recv"); if (k < 0) return -1; LIM(n); return real(a, b, n, f); }
ssize_t sendto(int a, const void *b, size_t n, int f, const struct sockaddr *s, socklen_t l) { REAL(sendto); int k = inject("sendto"); if (k < 0) return -1; return real(a, b, n, f, s, l); }
ssize_t recvfrom(int a, void *b, size_t n, int f, struct sockaddr *s, socklen_t *l) { REAL(recvfrom); int k = inject("recvfrom"); if (k < 0) return -1; return real(a, b, n, f, s, l); }
