/* usage: dict_h keyfile   (JBOFIHE_DICTIONARY names the dictionary)
   keys separated by NUL; answers: one line per key, "-" or "+" and the text in hex */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char *dict_lookup(char *key);
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb");
  static char buf[1 << 22];
  size_t n = fread(buf, 1, sizeof buf - 1, f), i = 0;
  alarm(60);
  while (i < n) {
    size_t l = strlen(buf + i);
    char *k = malloc(l + 1), *r;       /* exact size: ASan sees every overrun of the key */
    memcpy(k, buf + i, l + 1);
    r = dict_lookup(k);
    if (!r) printf("-\n");
    else { printf("+"); for (; *r; r++) printf("%02x", (unsigned char) *r); printf("\n"); }
    fflush(stdout);
    free(k);
    i += l + 1;
  }
  return 0;
}
