/* Decides the outcome of each read and write on chosen files.
   SHIM_IN / SHIM_OUT name the files (or "0" / "1" for the standard ones);
   SHIM_R / SHIM_W are strings with one letter per call:
     F as asked, 1 one byte, H half, M all but one byte, I EINTR, S SIGINT and EINTR, T (write) SIGINT and half, A EAGAIN, E EIO or ENOSPC.
   After the string is used up its last letter is repeated if lower case, else F.
   SHIM_LOG: file that gets the number of calls seen. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <signal.h>
#include <sys/stat.h>

static int nr, nw;

static int is_target(int fd, const char * var)
{
  const char * p = getenv(var);
  struct stat a, b;
  if (!p) return 0;
  if (isdigit((unsigned char)p[0])) return fd == atoi(p);
  return fstat(fd, &a) == 0 && stat(p, &b) == 0 && a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}

static char outcome(const char * var, int * n)
{
  const char * s = getenv(var);
  int l = s ? strlen(s) : 0;
  if (l == 0) return 'F';
  if (*n < l) return toupper((unsigned char)s[(*n)++]);
  (*n)++;
  return islower((unsigned char)s[l - 1]) ? toupper((unsigned char)s[l - 1]) : 'F';
}

static long cut(char o, size_t n)
{
  switch (o) {
  case '1': return n < 1 ? n : 1;
  case 'H': return n < 2 ? n : n / 2;
  case 'M': return n < 2 ? n : n - 1;
  }
  return n;
}

ssize_t read(int fd, void * p, size_t n)
{
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "read");
  if (!is_target(fd, "SHIM_IN")) return real(fd, p, n);
  char o = outcome("SHIM_R", &nr);
  if (o == 'S') raise(SIGINT);
  if (o == 'I' || o == 'S') { errno = EINTR; return -1; }
  if (o == 'A') { errno = EAGAIN; return -1; }
  if (o == 'E') { errno = EIO; return -1; }
  return real(fd, p, cut(o, n));
}

/* with SHIM_POLL the letter S takes effect already while the program waits for input */
int poll(struct pollfd * f, nfds_t k, int ms)
{
  static int (*real)(struct pollfd *, nfds_t, int);
  const char * s = getenv("SHIM_R");
  if (!real) real = dlsym(RTLD_NEXT, "poll");
  if (k == 1 && getenv("SHIM_POLL") && is_target(f->fd, "SHIM_IN") && s && nr < (int) strlen(s) && s[nr] == 'S') {
    nr++;
    raise(SIGINT);
    errno = EINTR;
    return -1;
  }
  return real(f, k, ms);
}

ssize_t write(int fd, const void * p, size_t n)
{
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (!is_target(fd, "SHIM_OUT")) return real(fd, p, n);
  char o = outcome("SHIM_W", &nw);
  if (o == 'S' || o == 'T') raise(SIGINT);
  if (o == 'T') return real(fd, p, cut('H', n));
  if (o == 'S') { errno = EINTR; return -1; }
  if (o == 'I') { errno = EINTR; return -1; }
  if (o == 'A') { errno = EAGAIN; return -1; }
  if (o == 'E') { errno = ENOSPC; return -1; }
  return real(fd, p, cut(o, n));
}

static void __attribute__((destructor)) report(void)
{
  const char * p = getenv("SHIM_LOG");
  if (p) { FILE * f = fopen(p, "w"); if (f) { fprintf(f, "%d %d\n", nr, nw); fclose(f); } }
}
