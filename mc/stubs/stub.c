// Stand-ins for lscpu, grep, cat and nproc: the machine described by MC_LSCPU (text of plain lscpu output),
// MC_CACHES ("L1d=32K,L1i=32K,L2=1M,L3=8M" with the sizes as lscpu prints them; ALL-SIZE uses MC_CACHES_ALL if set)
// and MC_CPUINFO (a file standing in for /proc/cpuinfo).
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static const char *env(const char *n, const char *d) { const char *v = getenv(n); return v ? v : d; }

static int lscpu(int argc, char **argv) {
  const char *cols = 0;
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "--caches", 8)) cols = argv[i][8] == '=' ? argv[i] + 9 : "NAME,ONE-SIZE,ALL-SIZE";
    else if (!strncmp(argv[i], "-C", 2)) cols = argv[i][2] == '=' ? argv[i] + 3 : argv[i][2] ? argv[i] + 2 : "NAME,ONE-SIZE,ALL-SIZE";
  }
  if (getenv("MC_LSCPU_FAIL")) return 1;
  if (!cols) { fputs(env("MC_LSCPU", ""), stdout); return 0; }
  if (getenv("MC_CACHES_RAW")) { fputs(getenv("MC_CACHES_RAW"), stdout); return 0; }
  char one[512], all[512];
  snprintf(one, sizeof one, "%s", env("MC_CACHES", ""));
  snprintf(all, sizeof all, "%s", env("MC_CACHES_ALL", one));
  char c[256];
  snprintf(c, sizeof c, "%s", cols);
  for (char *p = strtok(c, ","); p; p = strtok(0, ",")) printf("%s ", p);
  printf("\n");
  char *so, *sa;
  char *a = strtok_r(one, ",", &so), *b = strtok_r(all, ",", &sa);
  while (a) {
    char *va = strchr(a, '='), *vb = b ? strchr(b, '=') : 0;
    snprintf(c, sizeof c, "%s", cols);
    char *sp;
    for (char *p = strtok_r(c, ",", &sp); p; p = strtok_r(0, ",", &sp)) {
      if (!strcmp(p, "NAME")) printf("%.*s ", (int)(va - a), a);
      else if (!strcmp(p, "ONE-SIZE")) printf("%s ", va + 1);
      else if (!strcmp(p, "ALL-SIZE")) printf("%s ", vb ? vb + 1 : va + 1);
      else printf("8 ");
    }
    printf("\n");
    a = strtok_r(0, ",", &so);
    b = strtok_r(0, ",", &sa);
  }
  return 0;
}

int main(int argc, char **argv) {
  const char *me = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  if (!strcmp(me, "lscpu")) return lscpu(argc, argv);
  if (!strcmp(me, "nproc")) { printf("%s\n", env("MC_NPROC", "4")); return 0; }
  char *file = getenv("MC_CPUINFO");
  for (int i = 1; i < argc; i++) if (file && !strcmp(argv[i], "/proc/cpuinfo")) argv[i] = file;
  char path[64];
  snprintf(path, sizeof path, "/usr/bin/%s", me);
  execv(path, argv);
  snprintf(path, sizeof path, "/bin/%s", me);
  execv(path, argv);
  return 127;
}
