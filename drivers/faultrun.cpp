// faultrun DIR LOG OP EFFECT CMD...: runs CMD, numbers its system calls that change something below DIR and its writes to standard error,
// and does EFFECT to number OP (0: none). The calls are logged as: number, name, size, path (or the text written to standard error).
//   none | kill (SIGKILL before the call) | partkill (a write of half the size, then SIGKILL) | half (a short write)
//   run:CMD (CMD is run to its end by the shell before the call)
//   err:E (the call fails with errno E once) | all:E (it and every later call that could add data fails with errno E)
// Only CMD is traced, through seccomp and ptrace, so every way of doing output is seen whatever library does it.
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <set>
#include <string>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string;
#ifndef SYS_openat2
#define SYS_openat2 437
#endif

struct Sys { int nr; const char* name; int kind; };
// kind: 1 open (path in arg 1, dirfd 0), 2 open (path arg 0), 3 data on fd arg 0, 4 one path arg 0, 5 path arg 1 (dirfd 0), 6 data to fd arg 0 from another (sendfile), 7 copy_file_range (to fd arg 2), 8 fd arg 0, no data, 9 two paths
static const Sys table[] = {
    {SYS_openat, "openat", 1}, {SYS_open, "open", 2}, {SYS_creat, "creat", 2}, {SYS_openat2, "openat2", 1},
    {SYS_write, "write", 3}, {SYS_writev, "writev", 3}, {SYS_pwrite64, "pwrite64", 3}, {SYS_pwritev, "pwritev", 3},
    {SYS_sendfile, "sendfile", 6}, {SYS_copy_file_range, "copy_file_range", 7}, {SYS_ftruncate, "ftruncate", 8}, {SYS_fallocate, "fallocate", 8}, {SYS_fchmod, "fchmod", 8},
    {SYS_fsync, "fsync", 8}, {SYS_fdatasync, "fdatasync", 8}, {SYS_close, "close", 8},
    {SYS_mkdir, "mkdir", 4}, {SYS_mkdirat, "mkdirat", 5}, {SYS_unlink, "unlink", 4}, {SYS_unlinkat, "unlinkat", 5}, {SYS_rename, "rename", 9}, {SYS_renameat, "renameat", 9}, {SYS_renameat2, "renameat2", 9},
    {SYS_truncate, "truncate", 4}, {SYS_link, "link", 9}, {SYS_symlink, "symlink", 9},
};

static string absolute(pid_t pid, int dirfd, const string& p) {
    if (!p.empty() && p[0] == '/') return p;
    char l[64], b[4096];
    if (dirfd == AT_FDCWD) snprintf(l, sizeof l, "/proc/%d/cwd", pid);
    else snprintf(l, sizeof l, "/proc/%d/fd/%d", pid, dirfd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    return n < 0 ? p : string(b, n) + "/" + p;
}
static string fdPath(pid_t pid, int fd) {
    char l[64], b[4096];
    snprintf(l, sizeof l, "/proc/%d/fd/%d", pid, fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    return n < 0 ? "" : string(b, n);
}
static string readStr(pid_t pid, unsigned long addr, size_t max, bool zero) {
    string r;
    while (r.size() < max) {
        errno  = 0;
        long w = ptrace(PTRACE_PEEKDATA, pid, addr + r.size(), 0);
        if (errno) break;
        for (size_t k = 0; k < sizeof w && r.size() < max; k++) {
            char ch = ((char*) &w)[k];
            if (zero && !ch) return r;
            r += ch;
        }
    }
    return r;
}

int main(int argc, char** argv) {
    if (argc < 6) return 100;
    string dir = argv[1], effect = argv[4];
    FILE* log  = fopen(argv[2], "w");
    if (!log) { perror(argv[2]); return 100; }
    long op = atol(argv[3]), count = 0;
    int err = 0;
    if (effect.compare(0, 4, "err:") == 0 || effect.compare(0, 4, "all:") == 0) err = atoi(effect.c_str() + 4);
    pid_t child = fork();
    if (child == 0) {
        fclose(log);
        std::set<int> nrs;
        for (auto& s : table) nrs.insert(s.nr);
        sock_filter f[64];
        unsigned short n = 0;
        f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
        for (int nr : nrs) {
            f[n++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) nr, 0, 1);
            f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
        }
        f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        sock_fprog prog = {n, f};
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) { perror("faultrun: seccomp"); _exit(101); }
        execv(argv[5], argv + 5);
        perror("faultrun: exec");
        _exit(101);
    }
    int st;
    if (waitpid(child, &st, 0) < 0 || !WIFSTOPPED(st) || ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK)) { perror("faultrun: ptrace"); kill(child, SIGKILL); return 101; }
    ptrace(PTRACE_CONT, child, 0, 0);
    bool on = false, killNext = false, fired = false;
    for (;;) {
        pid_t pid = waitpid(-1, &st, __WALL);
        if (pid < 0) return 102;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (pid != child) continue;
            fprintf(log, "end %d fired %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), fired);
            fclose(log);
            if (WIFEXITED(st)) return WEXITSTATUS(st);
            signal(WTERMSIG(st), SIG_DFL);
            raise(WTERMSIG(st));
            return 128 + WTERMSIG(st);
        }
        int sig = 0;
        if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_SECCOMP << 8))) {
            user_regs_struct r;
            ptrace(PTRACE_GETREGS, pid, 0, &r);
            const Sys* s = nullptr;
            for (auto& t : table) if (t.nr == (int) r.orig_rax) s = &t;
            string path;
            long size = -1;
            bool data = false, isErr = false;
            if (s) switch (s->kind) {
                case 1: case 2: {
                    path = absolute(pid, s->kind == 1 ? (int) r.rdi : AT_FDCWD, readStr(pid, s->kind == 1 ? r.rsi : r.rdi, 4096, true));
                    long flags = s->nr == SYS_creat ? O_WRONLY : s->nr == SYS_openat ? (long) r.rdx : s->nr == SYS_open ? (long) r.rsi : O_WRONLY;
                    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) path.clear();
                    data = true;
                    break;
                }
                case 3: case 6: case 7: {
                    int fd = s->kind == 7 ? (int) r.rdx : (int) r.rdi;
                    isErr = fd == 2 && s->nr == SYS_write;
                    path = isErr ? "" : fdPath(pid, fd);
                    size = (long) (s->kind == 3 ? r.rdx : s->kind == 6 ? r.r10 : r.r8);
                    if (isErr) {
                        path = readStr(pid, r.rsi, std::min<size_t>(r.rdx, 60), false);
                        for (auto& ch : path) if (ch == '\n' || ch == '\r') ch = ' ';
                    }
                    data = !isErr;
                    break;
                }
                case 4: path = absolute(pid, AT_FDCWD, readStr(pid, r.rdi, 4096, true)); data = s->nr == SYS_mkdir; break;
                case 5: path = absolute(pid, (int) r.rdi, readStr(pid, r.rsi, 4096, true)); data = s->nr == SYS_mkdirat; break;
                case 8: path = fdPath(pid, (int) r.rdi); data = s->nr != SYS_close && s->nr != SYS_fchmod; break;
                case 9:
                    path = s->nr == SYS_rename || s->nr == SYS_link || s->nr == SYS_symlink ? absolute(pid, AT_FDCWD, readStr(pid, r.rsi, 4096, true)) : absolute(pid, (int) r.rdx, readStr(pid, r.r10, 4096, true));
                    data = true;
                    break;
            }
            if (isErr || (!path.empty() && path.compare(0, dir.size(), dir) == 0 && (path.size() == dir.size() || path[dir.size()] == '/'))) {
                count++;
                if (killNext) { fprintf(log, "%ld killed %ld %s\n", count, size, path.c_str()); kill(child, SIGKILL); }
                else {
                    fprintf(log, "%ld %s %ld %s\n", count, isErr ? "stderr" : s->name, size, path.c_str());
                    bool fail = on && data;
                    if (count == op) {
                        fired = true;
                        if (effect.compare(0, 4, "run:") == 0) {
                            fflush(log);
                            int rc = system(effect.c_str() + 4);
                            fprintf(log, "rival %d\n", WIFEXITED(rc) ? WEXITSTATUS(rc) : 128);
                        } else if (effect == "kill") { fflush(log); kill(child, SIGKILL); }
                        else if (effect == "partkill" || effect == "half") {
                            if (s->nr == SYS_write && r.rdx > 1) { r.rdx /= 2; ptrace(PTRACE_SETREGS, pid, 0, &r); }
                            if (s->nr == SYS_writev && r.rdx > 1) { r.rdx = 1; ptrace(PTRACE_SETREGS, pid, 0, &r); }
                            if (effect == "partkill") killNext = true;
                        } else if (err) { fail = true; on = effect[0] == 'a'; }
                    }
                    if (fail) {
                        r.orig_rax = (unsigned long long) -1;
                        r.rax      = (unsigned long long) -(long long) err;
                        ptrace(PTRACE_SETREGS, pid, 0, &r);
                        fprintf(log, "  failed\n");
                    }
                }
            }
        } else if (WIFSTOPPED(st)) {
            sig = WSTOPSIG(st);
            if (sig == SIGTRAP || sig == SIGSTOP) sig = 0;
        }
        ptrace(PTRACE_CONT, pid, 0, sig);
    }
}
