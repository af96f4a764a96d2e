/* Stands in for java and clojure: appends what it was started with to the file $STUB_LOG, then does what $STUB_DO says:
   a sequence of letters, e<n>: exit n, k<n>: kill itself with signal n, o: a line on stdout, r: a line on stderr, c: copy stdin to stdout,
   q: close stdin.  */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
extern char **environ;
static char *buf; static size_t n, cap;
static void put(const void *p, size_t k) { if (n + k > cap) buf = realloc(buf, cap = 2 * (n + k) + 4096); memcpy(buf + n, p, k); n += k; }
static void field(const char *name, const char *v) { put(name, strlen(name)); put("=", 1); put(v, strlen(v) + 1); }
int main(int argc, char **argv) {
    char *log = getenv("STUB_LOG"), *what = getenv("STUB_DO"), cwd[4096], t[64];
    char *me = strrchr(argv[0], '/');
    field("\1start", me ? me + 1 : argv[0]);
    for (int i = 1; i < argc; i++) field("\1arg", argv[i]);
    for (char **e = environ; *e; e++) field("\1env", *e);
    field("\1cwd", getcwd(cwd, sizeof cwd) ? cwd : "?");
    sprintf(t, "%d", (int)getpid()); field("\1pid", t);
    for (int s = 1; s < 32; s++) { struct sigaction a; if (!sigaction(s, 0, &a) && a.sa_handler == SIG_IGN) { sprintf(t, "%d", s); field("\1ign", t); } }
    for (int fd = 3; fd < 64; fd++) if (fcntl(fd, F_GETFD) != -1) { sprintf(t, "%d", fd); field("\1fd", t); }
    put("\2", 2);
    if (log) { int fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0666); if (fd < 0 || write(fd, buf, n) != (ssize_t)n) _exit(97); close(fd); }
    for (; what && *what; what++) {
        int v = strtol(what + 1, 0, 10);
        char b[65536]; ssize_t k;
        struct rlimit z = {0, 0};
        switch (*what) {
        case 'e': _exit(v);
        case 'k': setrlimit(RLIMIT_CORE, &z); signal(v, SIG_DFL); kill(getpid(), v); sleep(1); _exit(98);
        case 'o': write(1, "stub out\n", 9); break;
        case 'm': write(1, "stub 21.0.1 2023\nRuntime Env (build \"x\")\n", 41); break;
        case 'r': write(2, "stub err\nmore err\n", 18); break;
        case 'q': close(0); break;
        case 'c': while ((k = read(0, b, sizeof b)) > 0) if (write(1, b, k) != k) _exit(96); break;
        }
    }
    return 0;
}
