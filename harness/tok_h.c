/* Drives the real tokeniser and token preprocessor: texts separated by NUL bytes on stdin, one
   child process per text.  lex2.c is included so that the token list can be walked. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "lex2.c"

static void str(const char *s)
{
  putchar('"');
  for (; *s; s++) {
    unsigned char c = (unsigned char) *s;
    if (c == '"' || c == '\\' || c < 32 || c > 126) printf("\\u%04x", c); else putchar(c);
  }
  putchar('"');
}

static void node(TreeNode *x, int nest)
{
  static const char *tn[] = {"MARKER","GARBAGE","CMAVO","ZOI","ZO","LOhU","ZEI","BU","BRIVLA","CMENE","NONTERM","BROKEN"};
  TreeNode *y;
  int i, first;
  printf("{\"t\":\"%s\"", x->type <= N_BROKEN_ERASURE ? tn[x->type] : "?");
  printf(",\"l\":%d,\"c\":%d,\"eols\":%d", x->start_line, x->start_column, (int) x->eols);
  switch (x->type) {
    case N_MARKER: printf(",\"tok\":%d", x->data.marker.tok); break;
    case N_GARBAGE: printf(",\"w\":"); str(x->data.garbage.word); break;
    case N_CMAVO: printf(",\"w\":"); str(cmavo_table[x->data.cmavo.code].cmavo); printf(",\"s\":%d", x->data.cmavo.selmao); break;
    case N_ZOI: printf(",\"form\":"); str(x->data.zoi.form); printf(",\"term\":"); str(x->data.zoi.term); printf(",\"text\":"); str(x->data.zoi.text); break;
    case N_ZO: printf(",\"w\":"); str(x->data.zo.text); break;
    case N_LOhU: printf(",\"w\":"); str(x->data.lohu.text); break;
    case N_ZEI:
      printf(",\"plus\":"); str(x->data.zei.sep_with_plus); printf(",\"zei\":"); str(x->data.zei.sep_with_zei);
      printf(",\"kids\":[");
      for (i = 0; i < x->data.zei.nchildren; i++) { if (i) putchar(','); node(x->data.zei.children[i], 0); }
      putchar(']');
      break;
    case N_BU: printf(",\"w\":"); str(x->data.bu.word); break;
    case N_BRIVLA: printf(",\"w\":"); str(x->data.brivla.word); printf(",\"k\":%d", x->data.brivla.type); break;
    case N_CMENE: printf(",\"w\":"); str(x->data.cmene.word); break;
    case N_BROKEN_ERASURE: printf(",\"d\":%d", x->data.erasure.defects); break;
    default: break;
  }
  if (x->bahe) { printf(",\"bahe\":"); node(x->bahe, 0); }
  if (prop_neg_indicator(x, NO)) printf(",\"nai\":1");
  if (prop_cai_indicator(x, NO)) printf(",\"cai\":%d", prop_cai_indicator(x, NO)->code);
  first = 1;
  if (nest && x->ui_next) for (y = x->ui_next; y != (TreeNode *) &x->ui_next; y = y->next) {
    printf(first ? ",\"ui\":[" : ",");
    first = 0;
    node(y, 0);
  }
  if (!first) putchar(']');
  putchar('}');
}

static void dump(void)
{
  TreeNode *x;
  int first = 1;
  putchar('[');
  for (x = toks.next; x != &toks; x = x->next) {
    if (x->next->prev != x || x->prev->next != x) { printf("%s\"BROKENLIST\"", first ? "" : ","); break; }
    if (!first) putchar(',');
    first = 0;
    node(x, 1);
  }
  putchar(']');
}

static char all[1 << 26];

int main(int argc, char **argv)
{
  size_t n = fread(all, 1, sizeof all - 1, stdin), i = 0;
  int stage = argc > 1 ? atoi(argv[1]) : 1, st;
  all[n] = 0;
  if (freopen("/dev/null", "w", stderr) == NULL) return 9;
  while (i < n) {
    size_t len = strlen(all + i);
    pid_t c;
    fflush(stdout);
    c = fork();
    if (c == 0) {
      FILE *f = len ? fmemopen(all + i, len, "r") : fopen("/dev/null", "r");
      alarm(10);
      lex2_initialise();
      parse_file(f);
      printf("{\"bad\":%d,\"toks\":", had_bad_tokens);
      dump();
      if (stage && !had_bad_tokens) {
        fflush(stdout);
        preprocess_tokens();
        printf(",\"bad2\":%d,\"pre\":", had_bad_tokens);
        dump();
      }
      printf("}");
      fflush(stdout);
      _exit(0);
    }
    waitpid(c, &st, 0);
    if (WIFSIGNALED(st)) printf("#signal %d\n", WTERMSIG(st)); else printf("#exit %d\n", WEXITSTATUS(st));
    i += len + 1;
  }
  return 0;
}
