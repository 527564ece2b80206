// File-operation supervisor. Runs a command as a traced child, numbers the file-system operations it performs inside
// ROOT, and at the K-th of them kills it, tears the write, fails the operation or delays it. x86-64 Linux.
//   tracer -r ROOT -m count|kill|torn|err|full|delay -k K [-e ERRNO] [-d USEC] [-R] -l LOG [-v FILE] -- cmd...
// -v: note the size of FILE (the victim's own log) at the moment of the fault.
// Exit: 0 child exited 0; 64 killed by us at K; 65 child exited otherwise (its status is in the log); 99 supervisor error.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum { M_COUNT, M_KILL, M_TORN, M_ERR, M_FULL, M_DELAY, M_SLOW };
static char root[PATH_MAX];
static size_t rootlen;
static int mode = M_COUNT, err_no = ENOSPC, with_reads = 0;
static long K = -1, seq = 0, delay_us = 20000;
static FILE *lg;
static pid_t child;
static int hit = 0, killed = 0;

static void die(const char *m) {
    fprintf(stderr, "tracer: %s: %s\n", m, strerror(errno));
    if (child > 0) kill(child, SIGKILL);
    exit(99);
}

static const int calls[] = {
    SYS_open, SYS_openat, SYS_openat2, SYS_creat, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_pwritev2,
    SYS_sendfile, SYS_copy_file_range, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink,
    SYS_symlinkat, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_truncate, SYS_ftruncate,
    SYS_fallocate, SYS_fsync, SYS_fdatasync, SYS_read, SYS_pread64, SYS_readv, SYS_getdents64,
};
#define NCALLS ((int)(sizeof calls / sizeof *calls))

// Per-thread state between syscall entry and exit.
struct thr { pid_t tid; int pending; long ret; };
#define MAXT 4096
static struct thr thr[MAXT];
static struct thr *T(pid_t tid) {
    unsigned h = (unsigned)tid % MAXT;
    for (int i = 0; i < MAXT; i++) {
        struct thr *t = &thr[(h + i) % MAXT];
        if (t->tid == tid) return t;
        if (t->tid == 0) { t->tid = tid; t->pending = 0; return t; }
    }
    errno = ENOMEM;
    die("threads");
    return NULL;
}

static int rdstr(pid_t tid, unsigned long addr, char *buf, size_t n) {
    size_t got = 0;
    while (got < n - 1) {
        size_t chunk = 4096 - ((addr + got) & 4095);
        if (chunk > n - 1 - got) chunk = n - 1 - got;
        struct iovec l = {buf + got, chunk}, r = {(void *)(addr + got), chunk};
        ssize_t k = process_vm_readv(tid, &l, 1, &r, 1, 0);
        if (k <= 0) return -1;
        if (memchr(buf + got, 0, k)) return 0;
        got += k;
    }
    buf[n - 1] = 0;
    return 0;
}
static void fdpath(pid_t tid, int fd, char *buf, size_t n) {
    char p[64];
    if (fd == AT_FDCWD) snprintf(p, sizeof p, "/proc/%d/cwd", tid);
    else snprintf(p, sizeof p, "/proc/%d/fd/%d", tid, fd);
    ssize_t k = readlink(p, buf, n - 1);
    buf[k < 0 ? 0 : k] = 0;
}
static void atpath(pid_t tid, int dirfd, unsigned long addr, char *out, size_t n) {
    char s[PATH_MAX];
    if (rdstr(tid, addr, s, sizeof s) < 0) { out[0] = 0; return; }
    if (s[0] == '/') { snprintf(out, n, "%s", s); return; }
    char d[PATH_MAX];
    fdpath(tid, dirfd, d, sizeof d);
    snprintf(out, n, "%.2000s/%.2000s", d, s);
}
static int inroot(const char *p) { return strncmp(p, root, rootlen) == 0 && (p[rootlen] == 0 || p[rootlen] == '/'); }

// Classifies the call: 0 not ours, 1 mutation, 2 write of data, 3 space-taking creation, 4 read.
static int classify(pid_t tid, struct user_regs_struct *r, char *path, size_t n, const char **name) {
    long nr = (long)r->orig_rax;
    unsigned long flags;
    path[0] = 0;
#define AT(dfd, a) atpath(tid, (int)(dfd), (a), path, n)
#define W (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)
    switch (nr) {
    case SYS_open: AT(AT_FDCWD, r->rdi); flags = r->rsi; *name = "open"; goto op;
    case SYS_openat: AT(r->rdi, r->rsi); flags = r->rdx; *name = "openat"; goto op;
    case SYS_openat2: {
        unsigned long long how = 0;
        struct iovec l = {&how, 8}, rm = {(void *)r->rdx, 8};
        process_vm_readv(tid, &l, 1, &rm, 1, 0);
        AT(r->rdi, r->rsi); flags = how; *name = "openat2"; goto op;
    }
    case SYS_creat: AT(AT_FDCWD, r->rdi); flags = O_CREAT; *name = "creat"; goto op;
    op:
        if (!inroot(path)) return 0;
        if (flags & W) return 3;
        return with_reads ? 4 : 0;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_pwritev2: case SYS_sendfile:
        fdpath(tid, (int)r->rdi, path, n); *name = "write"; return inroot(path) ? 2 : 0;
    case SYS_copy_file_range:
        fdpath(tid, (int)r->rdx, path, n); *name = "copy_file_range"; return inroot(path) ? 1 : 0;
    case SYS_rename: AT(AT_FDCWD, r->rdi); *name = "rename"; break;
    case SYS_renameat: case SYS_renameat2: AT(r->rdi, r->rsi); *name = "rename"; break;
    case SYS_link: AT(AT_FDCWD, r->rsi); *name = "link"; break;
    case SYS_linkat: AT(r->rdx, r->r10); *name = "link"; break;
    case SYS_symlink: AT(AT_FDCWD, r->rsi); *name = "symlink"; break;
    case SYS_symlinkat: AT(r->rsi, r->rdx); *name = "symlink"; break;
    case SYS_unlink: case SYS_rmdir: AT(AT_FDCWD, r->rdi); *name = "unlink"; break;
    case SYS_unlinkat: AT(r->rdi, r->rsi); *name = "unlink"; break;
    case SYS_mkdir: AT(AT_FDCWD, r->rdi); *name = "mkdir"; return inroot(path) ? 3 : 0;
    case SYS_mkdirat: AT(r->rdi, r->rsi); *name = "mkdir"; return inroot(path) ? 3 : 0;
    case SYS_truncate: AT(AT_FDCWD, r->rdi); *name = "truncate"; break;
    case SYS_ftruncate: fdpath(tid, (int)r->rdi, path, n); *name = "ftruncate"; break;
    case SYS_fallocate: fdpath(tid, (int)r->rdi, path, n); *name = "fallocate"; break;
    case SYS_fsync: case SYS_fdatasync: fdpath(tid, (int)r->rdi, path, n); *name = "fsync"; break;
    case SYS_read: case SYS_pread64: case SYS_readv:
        if (!with_reads) return 0;
        fdpath(tid, (int)r->rdi, path, n); *name = "read"; return inroot(path) ? 4 : 0;
    case SYS_getdents64:
        if (!with_reads) return 0;
        fdpath(tid, (int)r->rdi, path, n); *name = "getdents"; return inroot(path) ? 4 : 0;
    default: return 0;
    }
    return inroot(path) ? 1 : 0;
}


int main(int argc, char **argv) {
    int i = 1;
    const char *logp = NULL, *watch = NULL, *calm = NULL;
    for (; i < argc && strcmp(argv[i], "--"); i++) {
        if (!strcmp(argv[i], "-R")) { with_reads = 1; continue; }
        if (i + 1 >= argc) { fprintf(stderr, "tracer: usage\n"); return 99; }
        char *a = argv[i], *v = argv[++i];
        if (!strcmp(a, "-r")) { if (!realpath(v, root)) die("root"); }
        else if (!strcmp(a, "-k")) K = atol(v);
        else if (!strcmp(a, "-e")) err_no = atoi(v);
        else if (!strcmp(a, "-d")) delay_us = atol(v);
        else if (!strcmp(a, "-l")) logp = v;
        else if (!strcmp(a, "-v")) watch = v;
        else if (!strcmp(a, "-q")) calm = v; // no more delays once this file exists
        else if (!strcmp(a, "-m"))
            mode = !strcmp(v, "kill") ? M_KILL : !strcmp(v, "torn") ? M_TORN : !strcmp(v, "err") ? M_ERR
                 : !strcmp(v, "full") ? M_FULL : !strcmp(v, "delay") ? M_DELAY
                 : !strcmp(v, "slow") ? M_SLOW : M_COUNT;
        else { fprintf(stderr, "tracer: bad option %s\n", a); return 99; }
    }
    i++;
    rootlen = strlen(root);
    if (!rootlen || i >= argc || !logp) { fprintf(stderr, "tracer: usage\n"); return 99; }
    lg = fopen(logp, "we");
    if (!lg) die("log");
    child = fork();
    if (child < 0) die("fork");
    if (child == 0) {
        struct sock_filter f[NCALLS + 8];
        int n = 0;
        f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
        for (int c = 0; c < NCALLS; c++)
            f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)calls[c], NCALLS - c, 0);
        f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
        struct sock_fprog pr = {(unsigned short)n, f};
        if (ptrace(PTRACE_TRACEME, 0, 0, 0) < 0) { perror("tracer: traceme"); _exit(98); }
        raise(SIGSTOP);
        if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) < 0) { perror("tracer: nnp"); _exit(98); }
        if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr) < 0) { perror("tracer: seccomp"); _exit(98); }
        execvp(argv[i], argv + i);
        perror("tracer: exec");
        _exit(98);
    }
    int st;
    if (waitpid(child, &st, 0) < 0 || !WIFSTOPPED(st)) die("first stop");
    if (ptrace(PTRACE_SETOPTIONS, child, 0,
               PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK |
                   PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP | PTRACE_O_TRACESYSGOOD) < 0) die("setoptions");
    ptrace(PTRACE_CONT, child, 0, 0);
    int final = -1, full = 0;
    enum { MAXHELD = 64 };
    struct { pid_t t; struct timespec until; } held[MAXHELD];
    int nheld = 0;
    for (;;) {
        pid_t t = waitpid(-1, &st, __WALL | (nheld ? WNOHANG : 0));
        if (nheld) {
            struct timespec now;
            clock_gettime(CLOCK_MONOTONIC, &now);
            for (int j = 0; j < nheld; j++)
                if (now.tv_sec > held[j].until.tv_sec || (now.tv_sec == held[j].until.tv_sec && now.tv_nsec >= held[j].until.tv_nsec)) {
                    ptrace(PTRACE_CONT, held[j].t, 0, 0);
                    held[j--] = held[--nheld];
                }
        }
        if (t == 0) { // threads are held back and nothing else happened
            if (nheld) usleep(50);
            continue;
        }
        if (t < 0) {
            if (errno == EINTR) continue;
            break; // ECHILD: everything is gone
        }
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (t == child) final = st;
            for (int j = 0; j < nheld; j++)
                if (held[j].t == t) held[j--] = held[--nheld];
            T(t)->pending = 0;
            continue;
        }
        if (!WIFSTOPPED(st)) continue;
        int sig = WSTOPSIG(st), ev = st >> 16;
        struct thr *x = T(t);
        if (ev == PTRACE_EVENT_SECCOMP) {
            struct user_regs_struct r;
            if (ptrace(PTRACE_GETREGS, t, 0, &r) < 0) continue;
            char path[PATH_MAX];
            const char *name = "?";
            int cls = killed ? 0 : classify(t, &r, path, sizeof path, &name);
            if (!cls) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
            seq++;
            unsigned long len = cls == 2 ? r.rdx : 0;
            fprintf(lg, "%ld %s %s %lu\n", seq, name, path + rootlen, len);
            int act = 0;
            if (seq == K && !hit) {
                struct stat sb;
                hit = 1;
                act = 1;
                if (watch) fprintf(lg, "HIT off=%lld\n", stat(watch, &sb) == 0 ? (long long)sb.st_size : 0LL);
            }
            if (act && mode == M_KILL) {
                killed = 1;
                kill(t, SIGKILL);
                kill(child, SIGKILL);
                continue;
            }
            if (act && mode == M_TORN) {
                if (cls == 2 && r.rdx > 1 && (r.orig_rax == SYS_write || r.orig_rax == SYS_pwrite64)) {
                    r.rdx /= 2;
                    ptrace(PTRACE_SETREGS, t, 0, &r);
                    x->pending = 2; // kill at exit
                    ptrace(PTRACE_SYSCALL, t, 0, 0);
                    continue;
                }
                killed = 1;
                kill(t, SIGKILL);
                kill(child, SIGKILL);
                continue;
            }
            if (calm && mode == M_SLOW && access(calm, F_OK) == 0) mode = M_COUNT;
            unsigned long mix = ((unsigned long)seq + (unsigned long)K * 1000003UL) * 0x9E3779B97F4A7C15UL;
            mix ^= mix >> 29;
            if (((act && mode == M_DELAY) || (mode == M_SLOW && mix % 3 == 0)) && nheld < MAXHELD) {
                long us = mode == M_DELAY ? delay_us : 1 + (long)((mix >> 8) % (unsigned long)delay_us);
                struct timespec u;
                clock_gettime(CLOCK_MONOTONIC, &u);
                u.tv_nsec += (us % 1000000) * 1000;
                u.tv_sec += us / 1000000 + u.tv_nsec / 1000000000;
                u.tv_nsec %= 1000000000;
                held[nheld].t = t;
                held[nheld++].until = u;
                continue;
            }
            if (act && mode == M_FULL) {
                full = 1;
                if (cls == 2 && r.rdx > 1 && (r.orig_rax == SYS_write || r.orig_rax == SYS_pwrite64)) {
                    r.rdx /= 2; // what still fits
                    ptrace(PTRACE_SETREGS, t, 0, &r);
                    ptrace(PTRACE_CONT, t, 0, 0);
                    continue;
                }
            }
            if ((act && mode == M_ERR) || (full && (cls == 2 || cls == 3))) {
                x->ret = -(long)(mode == M_FULL ? ENOSPC : err_no);
                r.orig_rax = (unsigned long)-1;
                ptrace(PTRACE_SETREGS, t, 0, &r);
                x->pending = 1; // set the result at exit
                ptrace(PTRACE_SYSCALL, t, 0, 0);
                continue;
            }
            ptrace(PTRACE_CONT, t, 0, 0);
            continue;
        }
        if (sig == (SIGTRAP | 0x80)) { // syscall exit of a call we changed
            if (x->pending == 1) {
                struct user_regs_struct r;
                if (ptrace(PTRACE_GETREGS, t, 0, &r) == 0) {
                    r.rax = (unsigned long)x->ret;
                    ptrace(PTRACE_SETREGS, t, 0, &r);
                }
            } else if (x->pending == 2) {
                killed = 1;
                x->pending = 0;
                kill(t, SIGKILL);
                kill(child, SIGKILL);
                continue;
            }
            x->pending = 0;
            ptrace(PTRACE_CONT, t, 0, 0);
            continue;
        }
        if (ev) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
        if (sig == SIGSTOP) sig = 0; // first stop of a new thread
        if (sig == SIGTRAP) sig = 0;
        // A signal arriving between entry and exit of a changed call must not lose the exit stop.
        ptrace(x->pending ? PTRACE_SYSCALL : PTRACE_CONT, t, 0, sig);
    }
    fprintf(lg, "END events=%ld hit=%d killed=%d status=%d\n", seq, hit, killed, final);
    fclose(lg);
    if (final == -1) return 99;
    if (killed) return 64;
    if (WIFEXITED(final) && WEXITSTATUS(final) == 0) return 0;
    if (WIFEXITED(final) && WEXITSTATUS(final) == 98) return 99;
    return 65;
}
