/* random histories on the annotation lists and the memory wrappers, compared with a plain table */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "nodes.h"
#include "functions.h"

typedef struct { const char *name; void *(*get)(TreeNode *, int); size_t size; } Getter;
#define G(f) { #f, (void *(*)(TreeNode *, int)) f, sizeof(*f((TreeNode *)0, 0)) },
static Getter gs[] = {
#include "props.inc"
};
#undef G
#define NG ((int)(sizeof gs / sizeof *gs))
static unsigned long long s;
static unsigned rnd(unsigned n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33) % n; }

static void stat_(unsigned long *u, unsigned long *m)
{
  char *tmp = 0; size_t z; FILE *old = stderr, *f = open_memstream(&tmp, &z);
  stderr = f; print_memory_statistics(); fclose(f); stderr = old;
  if (sscanf(tmp, "Bytes in use at end : %lu Maximum bytes in use : %lu", u, m) != 2) { printf("statistics: %s\n", tmp); exit(1); }
  free(tmp);
}

int main(int argc, char **argv)
{
  int nn = atoi(argv[2]), no = atoi(argv[3]), i, j, k;
  TreeNode *t; void **at; unsigned char **val;
  enum { NB = 200 };
  unsigned char *blk[NB]; size_t len[NB]; unsigned char pat[NB];
  unsigned long use = 0, max = 0, a, b;
  s = strtoull(argv[1], 0, 10) * 7919 + 12345;
  t = calloc(nn, sizeof *t);
  at = calloc(nn * NG, sizeof *at); val = calloc(nn * NG, sizeof *val);
  memset(blk, 0, sizeof blk);
  for (i = 0; i < 300; i++) {       /* the statistics, before anything else is allocated */
    j = rnd(rnd(2) ? 5 : NB);
    if (!blk[j]) { len[j] = rnd(rnd(2) ? 20 : 3000); blk[j] = Malloc(len[j]); use += len[j]; }
    else if (rnd(2)) { size_t n = rnd(rnd(2) ? 20 : 3000); blk[j] = Realloc(blk[j], n); use += n - len[j]; len[j] = n; }
    else { Free(blk[j]); blk[j] = 0; use -= len[j]; }
    if (use > max) max = use;
    stat_(&a, &b);
    if (a != use || b != max) { printf("statistics after request %d: %lu %lu, handed out %lu, at most %lu\n", i, a, b, use, max); return 1; }
    if (blk[j]) { pat[j] = rnd(256); memset(blk[j], pat[j], len[j]); }
  }
  for (i = 0; i < nn; i++) memset(&t[i], 0x5a, sizeof *t), t[i].ext = NULL;
  for (i = 0; i < no; i++) {
    int x = rnd(nn), g = rnd(NG), c = x * NG + g, op = rnd(10);
    if (op < 7) {
      int create = op < 4;
      void *p = gs[g].get(&t[x], create);
      if (at[c] ? p != at[c] : create ? !p : !!p) { printf("operation %d: %s of node %d, create=%d: wrong answer (%s)\n", i, gs[g].name, x, create, at[c] ? "stored before" : "never stored"); return 1; }
      if (p) {
        if (at[c] && memcmp(p, val[c], gs[g].size)) { printf("operation %d: %s of node %d does not have the values stored\n", i, gs[g].name, x); return 1; }
        if (!at[c]) {
          at[c] = p; val[c] = malloc(gs[g].size);
        }
        { for (k = 0; k < (int) gs[g].size; k++) val[c][k] = rnd(256); memcpy(p, val[c], gs[g].size); }
      }
    } else {
      j = rnd(NB);
      if (blk[j]) for (k = 0; k < (int) len[j]; k++) if (blk[j][k] != pat[j]) { printf("operation %d: block of %lu bytes changed\n", i, (unsigned long) len[j]); return 1; }
      if (!blk[j]) {
        len[j] = rnd(rnd(2) ? 20 : 3000); blk[j] = Malloc(len[j]);
      } else if (op == 8) {
        size_t n = rnd(3000), m = n < len[j] ? n : len[j];
        blk[j] = Realloc(blk[j], n);
        for (k = 0; k < (int) m; k++) if (blk[j][k] != pat[j]) { printf("operation %d: contents lost\n", i); return 1; }
        len[j] = n;
      } else { Free(blk[j]); blk[j] = 0; continue; }
      pat[j] = rnd(256); memset(blk[j], pat[j], len[j]);
    }
  }
  /* every annotation once more; */
  for (i = 0; i < nn * NG; i++) {
    void *p = gs[i % NG].get(&t[i / NG], 0);
    if (p != at[i] || (p && memcmp(p, val[i], gs[i % NG].size))) { printf("at the end: %s of node %d\n", gs[i % NG].name, i / NG); return 1; }
  }
  return 0;
}
