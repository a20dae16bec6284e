/* Stands for a compiled instrument in scans: notes its arguments, makes its output directory, writes one result file. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>

int main(int argc, char **argv) {
  const char *log = getenv("SCAN_LOG"), *fail = getenv("SCAN_FAIL"), *dir = NULL;
  int count = 1, c;
  FILE *f = fopen(log, "r");
  if (f) {
    while ((c = fgetc(f)) != EOF) count += c == 1;
    fclose(f);
  }
  f = fopen(log, "a");
  for (int i = 1; i < argc; ++i) fprintf(f, "%s%c", argv[i], 0);
  fputc(1, f);
  fclose(f);
  if (fail && atoi(fail) == count) {
    fprintf(stderr, "run %d fails\n", count);
    return 3;
  }
  for (int i = 1; i < argc; ++i) {
    if (!strncmp(argv[i], "--dir=", 6)) dir = argv[i] + 6;
    else if ((!strcmp(argv[i], "--dir") || !strcmp(argv[i], "-d")) && i + 1 < argc) dir = argv[i + 1];
  }
  if (!dir || mkdir(dir, 0777)) {
    fprintf(stderr, "cannot make %s\n", dir ? dir : "(none)");
    return 4;
  }
  char *name = malloc(strlen(dir) + 20);
  sprintf(name, "%s/mon.dat", dir);
  f = fopen(name, "w");
  fprintf(f, "# Format: McCode with text headers\n# type: array_0d\n# component: mon\n# variables: I I_err N\n# Param: point=%d\n%d %d %d\n", count, count, count, count);
  fclose(f);
  printf("run %d\n", count);
  return 0;
}
