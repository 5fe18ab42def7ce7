/* drives the real morf_scan (as linked into jbofihe): one word per line on stdin */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "morf.h"
int allow_cultural_rafsi;
static char buf[70000];
static char *start[140000];
int main(int argc, char **argv)
{
  allow_cultural_rafsi = argc > 1 && atoi(argv[1]);
  while (fgets(buf, sizeof buf, stdin)) {
    char **end = start, **x;
    struct morf_xtra xt;
    MorfType t;
    buf[strcspn(buf, "\n")] = 0;
    memset(&xt, 0, sizeof xt);
    t = morf_scan(buf, &end, &xt);
    printf("%d", (int) t);
    if (t != MT_BOGUS)
      for (x = start; x <= end; x++) printf(" %d", (int) (*x - buf));
    if (t == MT_FUIVLA3 || t == MT_FUIVLA3_CVC || t == MT_FUIVLA3X || t == MT_FUIVLA3X_CVC)
      printf(" h %d", (int) (xt.u.stage_3.hyph - buf));
    if (t == MT_CMENE) {
      printf(" c %d", !!xt.u.cmene.is_bad);
      if (xt.u.cmene.is_bad) {
        printf(" %d", !!xt.u.cmene.can_split);
        if (xt.u.cmene.can_split) printf(" %d %d", (int) (xt.u.cmene.ladoi - buf), (int) (xt.u.cmene.tail - buf));
      }
    }
    printf("\n");
  }
  return 0;
}
