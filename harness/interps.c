/* Several interpreters in one process, driven by a script on stdin:
 *   new K             a new interpreter in slot K
 *   run K jit FILE    run FILE's text in it
 *   del K             destroy it
 *   par J N FILE...   one thread for every FILE, which creates an interpreter, runs the text and destroys it, N times
 * After every step the line "==" is printed, after the output of every thread "--".
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "potion.h"
#include "internal.h"
#include "gc.h"

/* what a thread prints is collected: the library's output functions are linked with --wrap */
#include <stdarg.h>
static __thread FILE *cap;
#define TO(f) ((f) == stdout && cap ? cap : (f))
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { size_t __real_fwrite(const void *, size_t, size_t, FILE *); return __real_fwrite(p, a, b, TO(f)); }
int __wrap_fputs(const char *s, FILE *f) { int __real_fputs(const char *, FILE *); return __real_fputs(s, TO(f)); }
int __wrap_fputc(int c, FILE *f) { int __real_fputc(int, FILE *); return __real_fputc(c, TO(f)); }
int __wrap_putc(int c, FILE *f) { int __real_fputc(int, FILE *); return __real_fputc(c, TO(f)); }
int __wrap_putchar(int c) { int __real_fputc(int, FILE *); return __real_fputc(c, TO(stdout)); }
int __wrap_puts(const char *s) { int __real_fputs(const char *, FILE *); __real_fputs(s, TO(stdout)); return __real_fputs("\n", TO(stdout)); }
int __wrap_printf(const char *s, ...) { va_list v; int r; va_start(v, s); r = vfprintf(TO(stdout), s, v); va_end(v); return r; }
int __wrap_fprintf(FILE *f, const char *s, ...) { va_list v; int r; va_start(v, s); r = vfprintf(TO(f), s, v); va_end(v); return r; }
int __wrap___printf_chk(int k, const char *s, ...) { va_list v; int r; va_start(v, s); r = vfprintf(TO(stdout), s, v); va_end(v); return r; }
int __wrap___fprintf_chk(FILE *f, int k, const char *s, ...) { va_list v; int r; va_start(v, s); r = vfprintf(TO(f), s, v); va_end(v); return r; }
int __wrap_fflush(FILE *f) { int __real_fflush(FILE *); return __real_fflush(TO(f)); }

static Potion *slot[16];

static PN text(Potion *P, const char *file)
{
  FILE *f = fopen(file, "rb");
  long n;
  char *s;
  PN b;
  if (!f) { perror(file); exit(3); }
  fseek(f, 0, SEEK_END);
  n = ftell(f);
  rewind(f);
  s = malloc(n + 1);
  n = fread(s, 1, n, f);
  s[n] = 0;
  fclose(f);
  b = potion_byte_str(P, s);
  free(s);
  return b;
}

static void mode(Potion *P, int jit)
{
  if (jit) P->flags = (Potion_Flags)(P->flags | EXEC_JIT);
  else P->flags = (Potion_Flags)(P->flags & ~EXEC_JIT);
}

static __attribute__((noinline)) void run(Potion *P, int jit, const char *file)
{
  mode(P, jit);
  potion_eval(P, text(P, file));
}

struct job { int jit, times; const char *file; char *out; size_t len; };

static void *thread(void *arg)
{
  struct job *j = arg;
  int i;
  POTION_INIT_STACK(sp);
  cap = open_memstream(&j->out, &j->len);
  for (i = 0; i < j->times; i++) {
    Potion *P = potion_create(sp);
    run(P, j->jit, j->file);
    potion_destroy(P);
  }
  fclose(cap);
  cap = NULL;
  return NULL;
}

int main(int argc, char **argv)
{
  char line[65536];
  POTION_INIT_STACK(sp);
  while (fgets(line, sizeof line, stdin)) {
    char *op = strtok(line, " \n"), *a = strtok(NULL, " \n");
    if (!strcmp(op, "new")) slot[atoi(a)] = potion_create(sp);
    else if (!strcmp(op, "del")) { potion_destroy(slot[atoi(a)]); slot[atoi(a)] = NULL; }
    else if (!strcmp(op, "run")) {
      char *j = strtok(NULL, " \n"), *f = strtok(NULL, " \n");
      run(slot[atoi(a)], atoi(j), f);
    } else if (!strcmp(op, "par")) {
      struct job jobs[32];
      pthread_t t[32];
      int n = 0, i, times = atoi(strtok(NULL, " \n"));
      char *f;
      fflush(stdout);
      while ((f = strtok(NULL, " \n")) && n < 32) {
        memset(&jobs[n], 0, sizeof jobs[n]);
        jobs[n].jit = atoi(a);
        jobs[n].times = times;
        jobs[n++].file = f;
      }
      for (i = 0; i < n; i++)
        if (pthread_create(&t[i], NULL, thread, &jobs[i])) { perror("pthread_create"); return 3; }
      for (i = 0; i < n; i++) {
        pthread_join(t[i], NULL);
        fwrite(jobs[i].out, 1, jobs[i].len, stdout);
        printf("--\n");
        free(jobs[i].out);
      }
    }
    printf("==\n");
    fflush(stdout);
  }
  return 0;
}
