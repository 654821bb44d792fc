/* The C side of R08, written as the documentation of the foreign interface asks for it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <mlvalues.h>
#include <alloc.h>
#include <memory.h>
#include <fail.h>
#include <str.h>
#include <interp.h>
#include <callback.h>

/* ---- what a value looks like from here: a text made according to a type code
   i int, c char, r real, s string, b bool, u unit, w word; (..) tuple or record; L<t> list; R<t> ref; V<t> vector;
   D<k><t0>|<t1>..; datatype: the constructors in order, each a sequence of types in [] */
static char buf[1 << 20];
static int bp;
static void out(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void out(const char *f, ...) { va_list a; va_start(a, f); bp += vsnprintf(buf + bp, sizeof buf - bp, f, a); va_end(a); }
static const char *skip(const char *t) {
  int d;
  switch (*t) {
  case 'L': case 'R': return skip(t + 1);
  case '(': case '<': for (d = 1, t++; d; t++) { if (*t == '(' || *t == '<') d++; if (*t == ')' || *t == '>') d--; } return t;
  default: return t + 1;
  }
}
static void show(const char *t, value v) {
  int i;
  switch (*t) {
  case 'i': out("%ld", (long) Long_val(v)); break;
  case 'w': out("w%lx", (unsigned long) Long_val(v) & 0x7fffffffffffffffUL); break;
  case 'c': out("c%ld", (long) Long_val(v)); break;
  case 'r': out("%a", Double_val(v)); break;
  case 's': { mlsize_t n = string_length(v), k; out("s%lu:", (unsigned long) n); for (k = 0; k < n; k++) out("%02x", Byte_u(v, k));
      if (String_val(v)[n] != 0) out("!not ended"); break; }
  case 'b': out(Bool_val(v) ? "true" : "false"); break;
  case 'u': out("()"); break;
  case '(': out("("); for (t++, i = 0; *t != ')'; t = skip(t), i++) { if (i) out(","); show(t, Field(v, i)); } out(")");
      if (Wosize_val(v) != i) out("!size"); break;
  case 'L': out("["); for (i = 0; Tag_val(v) != 0; v = Field(v, 1), i++) { if (i) out(","); show(t + 1, Field(v, 0)); } out("]"); break;
  case 'R': out("ref "); show(t + 1, Field(v, 0)); break;
  case '<': { /* <[types][types]..> the constructors in alphabetic order */
      int tag = Tag_val(v);
      for (t++, i = 0; i < tag; i++) { t++; while (*t != ']') t = skip(t); t++; }
      out("#%d{", tag); for (t++, i = 0; *t != ']'; t = skip(t), i++) { if (i) out(","); show(t, Field(v, i)); } out("}");
      if (Wosize_val(v) != i) out("!size"); break; }
  }
}
/* app5 sym: the arguments arrive in order, at any number of them */
value ffi_show(value t, value v) { bp = 0; buf[0] = 0; show(String_val(t), v); return copy_string(buf); }
value ffi_a1(value a) { return Val_long(Long_val(a) + 1); }
value ffi_a2(value a, value b) { char s[99]; sprintf(s, "%ld %ld", (long) Long_val(a), (long) Long_val(b)); return copy_string(s); }
value ffi_a3(value a, value b, value c) { char s[99]; sprintf(s, "%ld %ld %ld", (long) Long_val(a), (long) Long_val(b), (long) Long_val(c)); return copy_string(s); }
value ffi_a4(value a, value b, value c, value d) { char s[99]; sprintf(s, "%ld %ld %ld %ld", (long) Long_val(a), (long) Long_val(b), (long) Long_val(c), (long) Long_val(d)); return copy_string(s); }
value ffi_a5(value a, value b, value c, value d, value e) { char s[99]; sprintf(s, "%ld %ld %ld %ld %ld", (long) Long_val(a), (long) Long_val(b), (long) Long_val(c), (long) Long_val(d), (long) Long_val(e)); return copy_string(s); }
/* five boxed arguments, one allocation for each */
value ffi_cat5(value a, value b, value c, value d, value e) {
  value res; mlsize_t n = 0; int i;
  Push_roots(r, 6);
  r[0] = a; r[1] = b; r[2] = c; r[3] = d; r[4] = e;
  for (i = 0; i < 5; i++) { r[5] = alloc_string(3 + i); n += string_length(r[i]); }
  res = alloc_string(n);
  for (n = 0, i = 0; i < 5; i++) { memcpy(&Byte(res, n), String_val(r[i]), string_length(r[i])); n += string_length(r[i]); }
  Pop_roots();
  return res;
}
value ffi_var = Val_long(4711);
value ffi_count = Val_long(0);
value ffi_next(value u) { ffi_count = Val_long(Long_val(ffi_count) + 1); return ffi_count; }

/* ---- making values: i<n>; c<n>; d<real>; s<hex>; A<tag>; (constant constructor) B<tag>,<n>; (block of the n values before) R; (ref) N (nil) K (cons) */
static long num(const char **p) { char *e; long n = strtol(*p, &e, 10); *p = *e == ';' || *e == ',' ? e + 1 : e; return n; }
value ffi_make(value prog) {
  static char text[65536];
  const char *p = text;
  int sp = 0, i;
  value res;
  Push_roots(st, 300);
  strcpy(text, String_val(prog));
  while (*p) switch (*p++) {
    case 'i': case 'c': st[sp++] = Val_long(num(&p)); break;
    case 'd': { char *e; double d = strtod(p, &e); p = e + 1; st[sp] = copy_double(d); sp++; break; }
    case 's': { const char *e = strchr(p, ';'); mlsize_t n = (e - p) / 2, k; value s = alloc_string(n);
        for (k = 0; k < n; k++) { unsigned x; sscanf(p + 2 * k, "%2x", &x); Byte(s, k) = x; } st[sp++] = s; p = e + 1; break; }
    case 't': { const char *e = strchr(p, ';'); char *c = malloc(e - p + 1); memcpy(c, p, e - p); c[e - p] = 0; st[sp] = copy_string(c); sp++; free(c); p = e + 1; break; }
    case 'A': st[sp++] = Atom(num(&p)); break;
    case 'B': { int tag = num(&p), n = num(&p); value b = alloc(n, tag);
        for (i = 0; i < n; i++) Field(b, i) = Val_unit;
        for (i = 0; i < n; i++) modify(&Field(b, i), st[sp - n + i]);
        sp -= n; st[sp++] = b; break; }
    case 'T': { int n = num(&p); value b = alloc_tuple(n);
        for (i = 0; i < n; i++) modify(&Field(b, i), st[sp - n + i]);
        sp -= n; st[sp++] = b; break; }
    case 'S': { int n = num(&p); value b = alloc_shr(n, 0);      /* in the old heap at once */
        for (i = 0; i < n; i++) initialize(&Field(b, i), st[sp - n + i]);
        sp -= n; st[sp++] = b; break; }
    case 'R': { value b = alloc(1, Reference_tag); Field(b, 0) = st[sp - 1]; st[sp - 1] = b; break; }
    case 'N': st[sp++] = Atom(0); break;
    case 'K': { value b = alloc(2, 1); Field(b, 0) = st[sp - 2]; Field(b, 1) = st[sp - 1]; st[sp - 2] = b; sp--; break; }
    case 'X': sp--; break;
  }
  res = st[sp - 1];
  Pop_roots();
  return res;
}
value ffi_strings(value n) { char *a[300]; int i, k = Long_val(n); value v; for (i = 0; i < k; i++) { a[i] = malloc(300); memset(a[i], 'a' + i % 26, i); a[i][i] = 0; } a[k] = 0;
  v = copy_string_array(a); for (i = 0; i < k; i++) free(a[i]); return v; }
value ffi_flags(value l) { static int fl[] = {1, 2, 4, 8, 16}; return Val_long(convert_flag_list(l, fl)); }
value ffi_update(value r, value v) { modify(&Field(r, 0), v); return Val_unit; }
value ffi_update_n(value r, value i, value v) { modify(&Field(r, Long_val(i)), v); return Val_unit; }

/* ---- raising */
value ffi_fail(value s) { char t[200]; strncpy(t, String_val(s), 199); t[199] = 0; failwith(t); return Val_unit; }
value ffi_raise(value e) { mlraise(e); return Val_unit; }

/* ---- callbacks: kind 0..3 arguments and through value pointers.  Each level holds a string of its own over the call */
value ffi_call(value kind, value f, value x) {
  value res; char mark[40], now[40];
  Push_roots(r, 3);
  r[0] = f; r[1] = x;
  sprintf(mark, "level %ld", (long) Long_val(x));
  r[2] = copy_string(mark);
  switch (Long_val(kind)) {
  case 1: res = callback(r[0], r[1]); break;
  case 2: res = callback2(r[0], r[1], Val_long(2)); break;
  case 3: res = callback3(r[0], r[1], Val_long(2), Val_long(3)); break;
  default: { valueptr p = get_valueptr("ffi frame"); res = p ? callbackptr2(p, r[0], r[1]) : Val_long(-1000000); }
  }
  sprintf(now, "level %ld", (long) Long_val(r[1]));
  if (strcmp(String_val(r[2]), mark) || strcmp(now, mark)) res = Val_long(-1000000);
  Pop_roots();
  return res;
}
value ffi_callrep(value f, value n) { /* the sum of f 0 .. f (n-1) */
  long s = 0, i;
  Push_roots(r, 1);
  r[0] = f;
  for (i = 0; i < Long_val(n); i++) s += Long_val(callback(r[0], Val_long(i)));
  Pop_roots();
  return Val_long(s);
}

/* ---- the registry */
static valueptr slot[4];
value ffi_reset(value u) { int i; for (i = 0; i < 4; i++) slot[i] = (valueptr) NULL; return Val_unit; }
value ffi_lookup(value i, value nam) { char s[100]; strcpy(s, String_val(nam)); slot[Long_val(i)] = get_valueptr(s); return Val_long(slot[Long_val(i)] != (valueptr) NULL); }
value ffi_get(value i) { value v = get_value(slot[Long_val(i)]); return v == (value) NULL ? copy_string("none") : v; }
value ffi_cp1(value i, value a) { return callbackptr(slot[Long_val(i)], a); }
value ffi_cp2(value i, value a, value b) { return callbackptr2(slot[Long_val(i)], a, b); }
value ffi_cp3(value i, value a, value b, value c) { return callbackptr3(slot[Long_val(i)], a, b, c); }
value ffi_reg(value nam, value v) { char s[100]; strcpy(s, String_val(nam)); registervalue(s, v); return Val_unit; }
value ffi_unreg(value nam) { char s[100]; strcpy(s, String_val(nam)); unregistervalue(s); return Val_unit; }
value ffi_regcptrs(value u) { registercptr("ffi a1", ffi_a1); registercptr("ffi a2", ffi_a2); registercptr("ffi a3", ffi_a3); registercptr("ffi a4", ffi_a4);
  registercptr("ffi a5", ffi_a5); registercptr("ffi var", &ffi_var); return Val_unit; }
value ffi_regcptr(value nam) { char s[100]; strcpy(s, String_val(nam)); registercptr(s, ffi_a1); return Val_unit; }

/* ---- finalisation */
static int done[100000], wrong;
static void fin(value v) { long id = Long_val(Field(v, 1)); if (id < 0 || id >= 100000) wrong++; else done[id]++; }
value ffi_final(value id) { value v = alloc_final(2, fin, 1, 100); Field(v, 1) = id; return v; }
value ffi_final_id(value v) { return Field(v, 1); }
value ffi_final_done(value id) { return Val_long(done[Long_val(id)]); }
value ffi_final_wrong(value u) { return Val_long(wrong); }
