/* A host program which uses the interpreter through its C interface, driven by a script on stdin.
 * One operation per line, tokens separated by spaces, texts with %XX escapes ("-" alone is the empty text).
 * Values live in the registers R of main's frame, where the collector finds and updates them.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "potion.h"
#include "internal.h"
#include "table.h"
#include "gc.h"

#define NREG 24
static Potion *P;
static PN volatile *R;
static char *tok[64];
static int len[64], ntok;

static void split(char *line)
{
  char *s = strtok(line, " \n");
  for (ntok = 0; s && ntok < 64; s = strtok(NULL, " \n")) {
    char *o = s, *i = s;
    if (!strcmp(s, "-")) *s = 0;
    for (; *i; i++)
      if (*i == '%') { char h[3] = {i[1], i[2], 0}; *o++ = strtol(h, NULL, 16); i += 2; }
      else *o++ = *i;
    *o = 0;
    len[ntok] = o - s;
    tok[ntok++] = s;
  }
}

#define I(n) atoi(tok[n])
#define r(n) R[atoi(tok[n])]

static __attribute__((noinline)) void show(PN x)
{
  PN s = potion_send(x, PN_string);
  printf("%s\n", PN_STR_PTR(s));
}

/* functions the host gives to the language */
static PN cf_args(Potion *P, PN cl, PN self, PN a, PN b, PN c)
{
  PN volatile t = potion_tuple_new(P, self);
  int n = PN_CLOSURE(cl)->arity;
  if (n > 0) t = PN_PUSH(t, a);
  if (n > 1) t = PN_PUSH(t, b);
  if (n > 2) t = PN_PUSH(t, c);
  return t;
}
static PN cf_gc(Potion *P, PN cl, PN self, PN a)
{
  PN volatile va = a, vs = self, t;
  t = PN_TUP(PN_NUM(7));
  potion_garbagecollect(P, POTION_PAGESIZE, 0);
  t = PN_PUSH(t, vs);
  t = PN_PUSH(t, va);
  return t;
}
static PN cf_block(Potion *P, PN cl, PN self, PN a, PN b)
{
  PN volatile va = a, vb = b, t = PN_TUP0();
  int i;
  for (i = 0; i < 3; i++) {
    PN v = PN_CLOSURE(va)->method(P, va, P->lobby, vb, PN_NUM(i));
    t = PN_PUSH(t, v);
  }
  return t;
}
static PN cf_keep(Potion *P, PN cl, PN self, PN a)
{
  PN old = PN_CLOSURE(cl)->data[0];
  PN_CLOSURE(cl)->data[0] = a;
  PN_TOUCH(cl);
  return old;
}
static PN cf_self(Potion *P, PN cl, PN self) { return self; }
static void *funcs[] = { cf_args, cf_gc, cf_block, cf_keep, cf_self };

static __attribute__((noinline)) void junk(int n)
{
  int i;
  for (i = 0; i < n; i++) {
    char b[32];
    PN s;
    sprintf(b, "j%d", i * 7);
    s = PN_STR(b);
    potion_tuple_new(P, s);
  }
}

static __attribute__((noinline)) void step(void)
{
  char *op = tok[0];
  int i;
#define OP(x) else if (!strcmp(op, #x))
  if (!op) return;
  OP(str) r(1) = potion_str(P, tok[2]);
  OP(strn) r(1) = potion_str2(P, tok[2], len[2]);
  OP(cat) r(1) = potion_strcat(P, tok[2], tok[3]);
  OP(fmt) r(1) = potion_str_format(P, "%s|%d|%5.2f|%c|%s", tok[2], I(3), atof(tok[4]), *tok[2] ? 'x' : 'y', tok[5]);
  OP(num) r(1) = PN_NUM(atol(tok[2]));
  OP(dbl) r(1) = potion_double(P, strtod(tok[2], NULL));
  OP(strtod) r(1) = potion_strtod(P, tok[2], len[2]);
  OP(const) r(1) = *tok[2] == 'n' ? PN_NIL : *tok[2] == 't' ? PN_TRUE : PN_FALSE;
  OP(dup) r(1) = r(2);
  OP(tup0) r(1) = PN_TUP0();
  OP(tup1) r(1) = PN_TUP(r(2));
  OP(tupn) {
    int n = I(2);
    PN t = potion_tuple_with_size(P, n);
    for (i = 0; i < n; i++) PN_TUPLE_AT(t, i) = r(3 + i);
    r(1) = t;
  }
  OP(big) {
    int n = I(2);
    PN volatile t = potion_tuple_with_size(P, n);
    for (i = 0; i < n; i++) PN_TUPLE_AT(t, i) = PN_NIL;
    for (i = 0; i < n; i++) {
      PN s = potion_str_format(P, "e%d", i);
      PN_TUPLE_AT(t, i) = s;
      PN_TOUCH(t);
    }
    r(1) = t;
  }
  OP(push) r(1) = PN_PUSH(r(1), r(2));
  OP(unless) printf("%ld\n", (long)PN_PUT(r(1), r(2)));
  OP(find) { PN_SIZE k = PN_GET(r(1), r(2)); printf("%ld\n", k == PN_NONE ? -1L : (long)k); }
  OP(shift) r(1) = PN_SHIFT(r(2));
  OP(get) r(1) = PN_TUPLE_AT(r(2), I(3));
  OP(at) r(1) = potion_tuple_at(P, PN_NIL, r(2), PN_NUM(I(3)));
  OP(set) { PN_TUPLE_AT(r(1), I(2)) = r(3); PN_TOUCH(potion_fwd(r(1))); }
  OP(len) printf("%ld %d\n", (long)PN_TUPLE_LEN(r(1)), !!PN_IS_EMPTY(r(1)));
  OP(each) PN_TUPLE_EACH(r(1), k, v, { printf("%ld ", (long)k); show(v); });
  OP(tab) r(1) = potion_table_empty(P);
  OP(put) r(1) = potion_table_set(P, r(1), r(2), r(3));
  OP(tput) potion_table_put(P, PN_NIL, r(1), r(2), r(3));
  OP(tat) r(1) = potion_table_at(P, PN_NIL, r(2), r(3));
  OP(bytes) { PN b = potion_bytes(P, len[2]); memcpy(PN_STR_PTR(b), tok[2], len[2]); r(1) = b; }
  OP(bstr) r(1) = potion_byte_str(P, tok[2]);
  OP(bstr2) r(1) = potion_byte_str2(P, tok[2], len[2]);
  OP(app) potion_bytes_append(P, PN_NIL, r(1), r(2));
  OP(printf) pn_printf(P, r(1), "<%s %d %05ld %x>", tok[2], I(3), atol(tok[3]), (unsigned)I(3) & 0xffff);
  OP(objstr) potion_bytes_obj_string(P, r(1), r(2));
  OP(tostr) r(1) = PN_STR_B(r(2));
  OP(raw) {
    PN s = potion_fwd(r(1));
    printf("%ld ", (long)PN_STR_LEN(s));
    fwrite(PN_STR_PTR(r(1)), 1, PN_STR_LEN(s), stdout);
    printf("\n");
  }
  OP(send) {
    PN m = potion_str(P, tok[3]);
    switch (ntok - 4) {
      case 0: r(1) = potion_send(r(2), m); break;
      case 1: r(1) = potion_send(r(2), m, r(4)); break;
      case 2: r(1) = potion_send(r(2), m, r(4), r(5)); break;
      default: r(1) = potion_send(r(2), m, r(4), r(5), r(6)); break;
    }
  }
  OP(call) {
    PN f = r(2);
    switch (ntok - 3) {
      case 0: r(1) = PN_CLOSURE(f)->method(P, f, P->lobby); break;
      case 1: r(1) = PN_CLOSURE(f)->method(P, f, P->lobby, r(3)); break;
      case 2: r(1) = PN_CLOSURE(f)->method(P, f, P->lobby, r(3), r(4)); break;
      default: r(1) = PN_CLOSURE(f)->method(P, f, P->lobby, r(3), r(4), r(5)); break;
    }
  }
  OP(ncall) {         /* how many arguments are given is said in the place of self */
    PN f = r(2);
    r(1) = PN_CLOSURE(f)->method(P, f, (PN)I(3), r(4), r(5), r(6), r(7));
  }
  OP(pcall) {         /* potion_call: the arguments start with self */
    PN volatile a[16];
    int n = ntok - 3;
    a[0] = P->lobby;
    for (i = 0; i < n; i++) a[1 + i] = r(3 + i);
    r(1) = potion_call(P, r(2), n + 1, (PN * volatile)a);
  }
  OP(eval) r(1) = potion_eval(P, potion_byte_str(P, tok[2]));
  OP(jit) { if (I(1)) P->flags = (Potion_Flags)(P->flags | EXEC_JIT); else P->flags = (Potion_Flags)(P->flags & ~EXEC_JIT); }
  OP(glob) potion_define_global(P, potion_str(P, tok[1]), r(2));
  OP(func) r(1) = PN_FUNC(funcs[I(2)], tok[3]);
  OP(keep) {
    PN f = potion_closure_new(P, (PN_F)cf_keep, potion_sig(P, "a=o"), 1);
    PN_CLOSURE(f)->data[0] = r(2);
    r(1) = f;
  }
  OP(meth) potion_method(r(1), tok[2], funcs[I(3)], tok[4]);
  OP(cmeth) potion_class_method(r(1), tok[2], funcs[I(3)], tok[4]);
  OP(vtab) {
    PNType t = *tok[2] == 'N' ? PN_TNUMBER : *tok[2] == 'S' ? PN_TSTRING : *tok[2] == 'T' ? PN_TTUPLE : *tok[2] == 'H' ? PN_TTABLE : PN_TNIL;
    r(1) = PN_VTABLE(t);
  }
  OP(class) {
    PN volatile t = PN_TUP0();
    for (i = 3; i < ntok; i++) { PN s = potion_str(P, tok[i]); PN_PUT(t, s); }
    r(1) = potion_class(P, PN_NIL, I(2) < 0 ? PN_NIL : r(2), t);
  }
  OP(new) r(1) = potion_object_new(P, PN_NIL, r(2));
  OP(iset) { PN s = potion_str(P, tok[2]); potion_obj_set(P, PN_NIL, r(1), s, r(3)); }
  OP(iget) { PN s = potion_str(P, tok[3]); r(1) = potion_obj_get(P, PN_NIL, r(2), s); }
  OP(data) {
    struct PNData *d = potion_data_alloc(P, I(2));
    for (i = 0; i < I(2); i++) d->data[i] = (char)(i * 7 + I(3));
    r(1) = (PN)d;
  }
  OP(dcheck) {
    int bad = 0;
    for (i = 0; i < I(2); i++) if (PN_DATA(r(1))[i] != (char)(i * 7 + I(3))) bad++;
    printf("%d %d\n", (int)((struct PNData *)r(1))->siz, bad);
  }
  OP(ref) r(1) = potion_ref(P, r(2));
  OP(deref) r(1) = PN_DEREF(r(2));
  OP(sig) {
    PN volatile s = potion_sig(P, tok[1]), f = PN_FUNC(cf_self, tok[1]), n, t;
    int k;
    t = potion_sig_string(P, PN_NIL, s);
    printf("%d %d %s", potion_sig_arity(P, s), potion_sig_minargs(P, s), PN_STR_PTR(t));
    for (i = 0; (n = potion_sig_name_at(P, s, i)) != 0; i++) {
      k = potion_sig_find(P, f, n);
      printf(" %s=%d", PN_STR_PTR(n), k);
    }
    printf("\n");
  }
  OP(is) {
    PN x = r(1);
    printf("%d%d%d%d%d%d%d%d%d %c\n", !!PN_IS_PTR(x), !!PN_IS_NIL(x), PN_IS_PTR(x) ? 0 : !!PN_IS_BOOL(x) && !PN_IS_INT(x), !!PN_IS_INT(x), !!PN_IS_DBL(x), !!PN_IS_TUPLE(x), !!PN_IS_STR(x),
           !!PN_IS_TABLE(x), !!PN_IS_CLOSURE(x), PN_TEST(x) ? 't' : 'f');
  }
  OP(int) printf("%ld\n", PN_INT(r(1)));
  OP(val) printf("%.17g\n", PN_DBL(r(1)));
  OP(eq) printf("%d\n", potion_fwd(r(1)) == potion_fwd(r(2)));
  OP(show) show(r(1));
  OP(gc) potion_garbagecollect(P, POTION_PAGESIZE, I(1));
  OP(junk) junk(I(1));
  else { fprintf(stderr, "unknown operation %s\n", op); exit(3); }
}

static __attribute__((noinline)) void script(void)
{
  static char line[1 << 20];
  PN volatile regs[NREG];       /* below the start of the stack the collector was told */
  memset((void *)regs, 0, sizeof regs);
  R = regs;
  while (fgets(line, sizeof line, stdin)) {
    split(line);
    if (ntok) step();
    fflush(stdout);
  }
}

int main(int argc, char **argv)
{
  POTION_INIT_STACK(sp);
  P = potion_create(sp);
  script();
  potion_destroy(P);
  printf("end\n");
  return 0;
}
