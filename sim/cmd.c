/* A command of a simulated script run.  Linked under the name of each command a script may call.
 * It numbers and records the call, and either does what the real command does, or the fault that
 * the plan gives for this call.  A command that reads from a pipe starts only when the pipe is
 * closed at the other end, so that the calls of a script have one order. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/file.h>

static char key[1 << 16];
static size_t kn;
static char const *root;
static struct rlimit lim;

static void kput(char const *s, size_t n)
{
    if (kn + n < sizeof key - 1) {
        memcpy(key + kn, s, n);
        kn += n;
    }
}

static void limit(int on)
{
    struct rlimit l = lim;
    if (!on) l.rlim_cur = l.rlim_max;
    setrlimit(RLIMIT_FSIZE, &l);
}

/* where a path would lead, lexically */
static int inside(char const *p)
{
    static char buf[16384], out[16384];
    if (*p == '/') snprintf(buf, sizeof buf, "%s", p);
    else {
        static char cwd[4096];
        if (getcwd(cwd, sizeof cwd) == NULL) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, p);
    }
    size_t n = 0;
    for (char *s = buf; *s; ) {
        while (*s == '/') s++;
        char *e = strchrnul(s, '/');
        size_t l = e - s;
        if (l == 0 || (l == 1 && s[0] == '.')) { }
        else if (l == 2 && s[0] == '.' && s[1] == '.') { while (n > 0 && out[--n] != '/') ; }
        else { out[n++] = '/'; memcpy(out + n, s, l); n += l; }
        s = e;
    }
    out[n] = 0;
    size_t r = strlen(root);
    return strncmp(out, root, r) == 0 && out[r] == '/';
}

/* number this call: the count of records before it; with a kind, write the record */
static int logfd = -1;
static long number(void)
{
    logfd = open(getenv("SIM_LOG"), O_RDWR | O_APPEND | O_CREAT, 0666);
    if (logfd < 0 || flock(logfd, LOCK_EX)) _exit(98);
    long n = 0;
    char b[4096];
    ssize_t g;
    while ((g = read(logfd, b, sizeof b)) > 0)
        for (ssize_t i = 0; i < g; i++) n += b[i] == '\n';
    return n;
}
static void note(char const *what)
{
    static char line[sizeof key + 64];
    int n = snprintf(line, sizeof line, "%s %s\n", what, key);
    if (write(logfd, line, n) != n) _exit(98);
    close(logfd);
}

static void absorb(void)
{
    struct stat st;
    if (fstat(0, &st) || !S_ISFIFO(st.st_mode)) return;
    int m = memfd_create("in", 0);
    if (m < 0) _exit(98);
    char b[65536];
    ssize_t g;
    while ((g = read(0, b, sizeof b)) > 0) if (write(m, b, g) != g) _exit(98);
    lseek(m, 0, SEEK_SET);
    dup2(m, 0);
    close(m);
}

int main(int argc, char **argv)
{
    char const *name = strrchr(argv[0], '/');
    name = name ? name + 1 : argv[0];
    root = getenv("SIM_ROOT");
    if (root == NULL || getenv("SIM_LOG") == NULL || getenv("SIM_PLAN") == NULL) return 98;
    getrlimit(RLIMIT_FSIZE, &lim);
    limit(0);
    absorb();
    size_t r = strlen(root);
    kput(name, strlen(name));
    for (int i = 1; i < argc; i++) {
        kput("\x1f", 1);
        for (char const *s = argv[i]; *s; ) {
            if (strncmp(s, root, r) == 0) { kput("@S", 2); s += r; }
            else if (*s == '\n') { kput("\\n", 2); s++; }
            else kput(s++, 1);
        }
    }
    key[kn] = 0;
    long num = number();
    /* nothing outside the scratch directory is touched, whatever the script says */
    char pad[64];
    snprintf(pad, sizeof pad, " %s ", name);
    if (strstr(" rm cp mv mkdir rmdir ln tee install touch chmod truncate dd unlink shred ", pad) != NULL) {
        int first = 1;
        for (int i = 1; i < argc; i++) {
            char const *a = argv[i];
            if (a[0] == '-') continue;
            if (first && strcmp(name, "chmod") == 0) { first = 0; continue; }
            if (strcmp(name, "dd") == 0) { if (strncmp(a, "of=", 3)) continue; a += 3; }
            if (!inside(a)) { note("ESCAPE"); fprintf(stderr, "%s: refused: %s\n", name, a); return 99; }
        }
    }
    /* the fault, if there is one for this call */
    char kind[32] = "", k[32];
    long param = 0, at, p0;
    FILE *f = fopen(getenv("SIM_PLAN"), "r");
    if (f == NULL) return 98;
    while (fscanf(f, "%ld %31s %ld", &at, k, &p0) == 3)
        if (at == num) { strcpy(kind, k); param = p0; }
    fclose(f);
    note(*kind ? kind : "call");
    if (strcmp(kind, "crash") == 0) {
        /* power is cut: the script and everything it started is gone */
        kill(0, SIGKILL);
        for (;;) pause();
    }
    if (strcmp(kind, "missing") == 0) { fprintf(stderr, "%s: not found\n", name); return 127; }
    if (strcmp(kind, "fail") == 0) { fprintf(stderr, "%s: Input/output error\n", name); return 1; }
    if (strcmp(kind, "kill") == 0) kill(getpid(), SIGKILL);
    static char real[2][4096];
    snprintf(real[0], sizeof real[0], "/usr/bin/%s", name);
    snprintf(real[1], sizeof real[1], "/bin/%s", name);
    char *path = access(real[0], X_OK) == 0 ? real[0] : real[1];
    setenv("PATH", "/usr/bin:/bin", 1);
    if (*kind == 0) { limit(1); execv(path, argv); return 98; }
    /* "partial" (a full disk), "cut" (killed while it writes): part of the output comes into being */
    int p[2];
    if (pipe(p)) return 98;
    pid_t c = fork();
    if (c < 0) return 98;
    if (c == 0) { dup2(p[1], 1); close(p[0]); close(p[1]); execv(path, argv); _exit(98); }
    close(p[1]);
    char b[4096];
    long left = param;
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) {
        long m = n < left ? n : left;
        if (m > 0 && write(1, b, m) != m) { }
        left -= m;
    }
    int st;
    waitpid(c, &st, 0);
    if ((strcmp(name, "cp") == 0 || strcmp(name, "install") == 0 || strcmp(name, "mv") == 0) && argc >= 3) {
        static char to[16384];
        struct stat sb;
        snprintf(to, sizeof to, "%s", argv[argc - 1]);
        if (stat(to, &sb) == 0 && S_ISDIR(sb.st_mode)) {
            char const *s = strrchr(argv[argc - 2], '/');
            snprintf(to, sizeof to, "%s/%s", argv[argc - 1], s ? s + 1 : argv[argc - 2]);
        }
        if (inside(to) && stat(to, &sb) == 0 && S_ISREG(sb.st_mode) && sb.st_size > param) { if (truncate(to, param)) { } }
    }
    if (strcmp(kind, "cut") == 0) kill(getpid(), SIGKILL);
    fprintf(stderr, "%s: write error: No space left on device\n", name);
    return 1;
}
