/* Fork server linked into the interpreter under test (only its fopen is wrapped).
 *
 * When the interpreter opens a file whose base name starts with FORKPOINT, the process stops
 * being an interpreter and serves requests read from fd VP_CTL_IN.  Each request forks a child
 * in which that fopen call returns the request's case file instead; the child is then the
 * ordinary interpreter, in whatever state it had reached, running generated code.
 *
 * request : case \t out \t err \t stdin \t timeout_ms \t mem_mb[:gc] \n      answer: status usec rss allocations \n
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

FILE *__real_fopen(const char *path, const char *mode);

int vp_child = 0;
static long *vp_allocs;            /* shared with the children: allocations of the last case */
void vp_arm(const char *spec);

static void die(const char *m) { fprintf(stderr, "forksrv: %s\n", m); _exit(97); }

static int readline(int fd, char *buf, int cap) {
    int n = 0;
    while (n < cap - 1) {
        ssize_t r = read(fd, buf + n, 1);
        if (r == 0) return n ? -1 : 0;
        if (r < 0) { if (errno == EINTR) continue; return -1; }
        if (buf[n] == '\n') { buf[n] = 0; return n + 1; }
        n++;
    }
    return -1;
}

static long now_us(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000L + t.tv_nsec / 1000;
}

static void redirect(const char *path, int flags, int fd) {
    int f = open(path, flags, 0600);
    if (f < 0) die("open");
    if (f != fd) { dup2(f, fd); close(f); }
}

static FILE *serve(int in, int out) {
    static char line[8192];
    vp_allocs = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    dprintf(out, "ready\n");
    for (;;) {
        int n = readline(in, line, sizeof line);
        if (n <= 0) _exit(0);
        char *f[6], *s = line;
        for (int i = 0; i < 6; i++) { f[i] = strsep(&s, "\t"); if (!f[i]) die("bad request"); }
        long tmo = atol(f[4]), mem = atol(f[5]), t0 = now_us();
        *vp_allocs = 0;
        pid_t pid = fork();
        if (pid < 0) die("fork");
        if (pid == 0) {
            close(in); close(out);
            setpgid(0, 0);
            redirect(f[3], O_RDONLY, 0);
            redirect(f[1], O_WRONLY | O_CREAT | O_TRUNC, 1);
            redirect(f[2], O_WRONLY | O_CREAT | O_TRUNC, 2);
            clearerr(stdin);
            setvbuf(stdout, NULL, _IOLBF, 8192);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = 256L << 20;
            setrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = rl.rlim_max = 64;
            setrlimit(RLIMIT_NOFILE, &rl);
            if (mem > 0) { rl.rlim_cur = rl.rlim_max = (rlim_t) mem << 20; setrlimit(RLIMIT_AS, &rl); }
            struct itimerval it = {{0, 0}, {tmo / 1000, (tmo % 1000) * 1000}};
            signal(SIGALRM, SIG_DFL);
            setitimer(ITIMER_REAL, &it, NULL);
            vp_child = 1;
            vp_arm(f[5]);
            return __real_fopen(f[0], "r");
        }
        int st = 0;
        struct rusage ru;
        memset(&ru, 0, sizeof ru);
        while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) ;
        dprintf(out, "%d %ld %ld %ld\n", st, now_us() - t0, ru.ru_maxrss, *vp_allocs);
    }
}

FILE *__wrap_fopen(const char *path, const char *mode) {
    const char *b = strrchr(path, '/');
    b = b ? b + 1 : path;
    if (!vp_child && strncmp(b, "FORKPOINT", 9) == 0 && getenv("VP_CTL")) {
        int in, out;
        if (sscanf(getenv("VP_CTL"), "%d,%d", &in, &out) != 2) die("VP_CTL");
        return serve(in, out);
    }
    return __real_fopen(path, mode);
}

#ifdef VP_STRESS
static long vp_period = 0, vp_count = 0, vp_max = 0;
/* spec: mem[:start:period:max] -- after start allocations, collect at every period-th, max times */
void vp_arm(const char *spec) {
    vp_period = vp_count = 0;
    if ((spec = strchr(spec, ':'))) {
        sscanf(spec, ":%ld:%ld:%ld", &vp_count, &vp_period, &vp_max);
        vp_count = vp_period - vp_count;
    }
}
#include "/usr/include/gc.h"
/* Collect at every period-th allocation; the freed cells are handed out again at once, overwritten. */
static void reuse(void) {
    for (size_t n = 16; n <= 160; n += 16)
        for (int i = 0; i < 40; i++) {
            memset(GC_malloc_atomic(n), 0xA5, n);
            memset(GC_malloc(n), 0xA5, n);
        }
}
static void tick(void) {
    if (vp_child) ++*vp_allocs;
    if (vp_max && ++vp_count >= vp_period) { vp_max--; vp_count = 0; GC_gcollect(); reuse(); }
}
void *vp_gc_malloc(size_t n) { tick(); return GC_malloc(n); }
void *vp_gc_malloc_atomic(size_t n) { tick(); return GC_malloc_atomic(n); }
#else
void vp_arm(const char *spec) { (void) spec; }
#endif
