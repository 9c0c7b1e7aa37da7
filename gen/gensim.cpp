// gensim DIR OUT FAULTS... -- COMMAND ARGS...
// Runs COMMAND (a table generator and every process it starts) in DIR under a supervisor that owns its system calls:
// each FAULT is kind:process:target:offset. Nothing outside DIR can be written, removed or renamed.
//   process   0 the command itself; the k-th process started by process p is 8 p + k
//   target    0 a file of DIR read, 1 a file of DIR written, 2 a pipe read, 3 a pipe written
//   offset    octets that process has read or written there when the fault strikes
// Prints one line of JSON.
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <cstddef>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <map>
#include <set>
#include <string>
#include <vector>
typedef long long i64;
struct Fault { std::string kind; i64 proc, target, at; int fired = 0; };
static std::vector<Fault> faults; static std::string dir; static pid_t root;
struct Proc { i64 index = -1; int children = 0; i64 done[4] = {0, 0, 0, 0}; i64 grabs = 0, opens = 0; std::map<int, i64> per; };
static std::map<pid_t, Proc*> procs;      // by thread group
struct Pending { int target = -1; };
static std::map<pid_t, Pending> pending;  // a read or write of a thread whose result is awaited
static std::map<pid_t, pid_t> group; static std::set<pid_t> early;
static i64 nreads, nwrites, nprocs, denied, steps;
static const int traced[] = {SYS_read, SYS_write, SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_mmap, SYS_brk, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_rmdir, SYS_truncate, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat,
  SYS_mkdir, SYS_mkdirat, SYS_chmod, SYS_fchmodat, SYS_chown, SYS_lchown, SYS_fchownat, SYS_copy_file_range, SYS_sendfile, SYS_splice, SYS_tee, SYS_pread64, SYS_pwrite64, SYS_readv, SYS_writev, SYS_kill, SYS_socket, SYS_mount, SYS_umount2, SYS_ptrace, SYS_reboot, SYS_setxattr, SYS_utimensat,
  SYS_io_uring_setup, SYS_openat2, SYS_mknod, SYS_mknodat, SYS_pivot_root, SYS_chroot, SYS_unshare, SYS_setns, SYS_sethostname, SYS_prlimit64, SYS_tkill, SYS_tgkill};
static void die(const char* w) { perror(w); if (root > 0) kill(-root, SIGKILL); _exit(3); }
static pid_t tgid(pid_t t) { auto g = group.find(t); if (g != group.end()) return g->second; char f[64]; snprintf(f, sizeof f, "/proc/%d/status", t); FILE* s = fopen(f, "r"); int v = t; if (s) { char l[200]; while (fgets(l, sizeof l, s)) if (sscanf(l, "Tgid: %d", &v) == 1) break; fclose(s); } return group[t] = v; }
static Proc* proc(pid_t t) { pid_t g = tgid(t); Proc*& p = procs[g]; if (!p) { p = new Proc; nprocs++; } return p; }
static std::string str(pid_t t, u_int64_t a) { std::string s; for (int k = 0; k < 64; k++) { char b[64]; size_t n = 64 - (a & 63); struct iovec l = {b, n}, r = {(void*)a, n}; ssize_t g = process_vm_readv(t, &l, 1, &r, 1, 0); if (g <= 0) {  // fall back to peeking
      errno = 0; long w = ptrace(PTRACE_PEEKDATA, t, (void*)(a & ~7ull), 0); if (errno) return s; memcpy(b, (char*)&w + (a & 7), 8 - (a & 7)); g = 8 - (a & 7); }
    for (ssize_t i = 0; i < g; i++) { if (!b[i]) return s; s += b[i]; } a += g; } return s; }
static std::string fdpath(pid_t t, int fd) { char f[64], b[4096]; snprintf(f, sizeof f, "/proc/%d/fd/%d", t, fd); ssize_t n = readlink(f, b, sizeof b - 1); return n < 0 ? "" : std::string(b, n); }
static std::string script;      // the generator's own text: interpreters take an error in it for its end
static bool inside(const std::string& p) { return p.compare(0, dir.size() + 1, dir + "/") == 0; }
// where a path argument leads; "" when it cannot be trusted
static std::string where(pid_t t, int at, u_int64_t a) {
  std::string s = str(t, a), base; if (s.find("..") != std::string::npos) return ""; if (s.size() && s[0] == '/') return s;
  if (at == AT_FDCWD) { char f[64], b[4096]; snprintf(f, sizeof f, "/proc/%d/cwd", t); ssize_t n = readlink(f, b, sizeof b - 1); base = n < 0 ? "" : std::string(b, n); } else base = fdpath(t, at);
  return base + "/" + s;
}
static bool write_ok(const std::string& p) { return inside(p) || p == "/dev/null" || p == "/dev/tty" || p == "/dev/stderr" || p == "/dev/stdout"; }
static void refuse(pid_t t, user_regs_struct& r, int err) { r.orig_rax = -1; r.rax = -err; if (ptrace(PTRACE_SETREGS, t, 0, &r)) die("setregs"); }
static void resume(pid_t t, int how, int sig = 0) { if (ptrace((__ptrace_request)how, t, 0, sig) && errno != ESRCH) die("resume"); }
static void crash_all() { for (auto& p : procs) if (p.second->index >= 0) kill(p.first, SIGKILL); for (auto& g : group) kill(g.second, SIGKILL); kill(root, SIGKILL); }
static bool crashed;
// returns how to continue
static int enter(pid_t t) {
  user_regs_struct r; if (ptrace(PTRACE_GETREGS, t, 0, &r)) return PTRACE_CONT;
  Proc* p = proc(t); long n = (long)r.orig_rax; steps++;
  switch (n) {
  case SYS_open: case SYS_openat: case SYS_creat: case SYS_openat2: {
    int flags = n == SYS_open ? (int)r.rsi : n == SYS_openat ? (int)r.rdx : n == SYS_creat ? O_WRONLY | O_CREAT : O_RDWR; std::string w = n == SYS_open || n == SYS_creat ? where(t, AT_FDCWD, r.rdi) : where(t, (int)r.rdi, r.rsi);
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)) || n == SYS_openat2; if (n == SYS_openat2) { refuse(t, r, ENOSYS); break; }
    if (wr && !write_ok(w)) { denied++; refuse(t, r, EACCES); break; }
    if (inside(w) && w != script) { i64 k = p->opens++; for (auto& f : faults) if (f.kind == "open" && f.proc == p->index && f.at == k && f.target == (wr ? 1 : 0)) { f.fired++; refuse(t, r, wr ? ENOSPC : EMFILE); break; } }
    break; }
  case SYS_unlink: case SYS_rmdir: case SYS_truncate: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_mkdir: case SYS_setxattr: case SYS_mknod: if (!inside(where(t, AT_FDCWD, r.rdi))) { denied++; refuse(t, r, EACCES); } break;
  case SYS_unlinkat: case SYS_mkdirat: case SYS_fchmodat: case SYS_fchownat: case SYS_mknodat: if (!inside(where(t, (int)r.rdi, r.rsi))) { denied++; refuse(t, r, EACCES); } break;
  case SYS_utimensat: if (r.rsi && !inside(where(t, (int)r.rdi, r.rsi))) { denied++; refuse(t, r, EACCES); } break;
  case SYS_rename: case SYS_link: if (!inside(where(t, AT_FDCWD, r.rdi)) || !inside(where(t, AT_FDCWD, r.rsi))) { denied++; refuse(t, r, EACCES); } break;
  case SYS_renameat: case SYS_renameat2: case SYS_linkat: if (!inside(where(t, (int)r.rdi, r.rsi)) || !inside(where(t, (int)r.rdx, r.r10))) { denied++; refuse(t, r, EACCES); } break;
  case SYS_symlink: case SYS_symlinkat: case SYS_socket: case SYS_mount: case SYS_umount2: case SYS_ptrace: case SYS_reboot: case SYS_io_uring_setup: case SYS_pivot_root: case SYS_chroot: case SYS_unshare: case SYS_setns: case SYS_sethostname: denied++; refuse(t, r, EPERM); break;
  case SYS_prlimit64: if (r.rdx && r.rdi && (pid_t)r.rdi != t) { denied++; refuse(t, r, EPERM); } break;
  case SYS_kill: case SYS_tkill: case SYS_tgkill: { pid_t to = (pid_t)r.rdi; bool own = false; for (auto& q : procs) own |= q.first == to; if (!own) { denied++; refuse(t, r, EPERM); } break; }
  case SYS_copy_file_range: case SYS_splice: case SYS_tee: case SYS_sendfile: refuse(t, r, EINVAL); break;       // programs fall back to read and write
  case SYS_mmap: if (!((int)r.r10 & 0x20)) break; // anonymous only; falls through
  case SYS_brk: { if (n == SYS_brk && !r.rdi) break; i64 k = p->grabs++; for (auto& f : faults) if (f.kind == "mem" && f.proc == p->index && k >= f.at) { f.fired++; if (n == SYS_brk) { r.rdi = 0; if (ptrace(PTRACE_SETREGS, t, 0, &r)) die("setregs"); } else refuse(t, r, ENOMEM); break; } break; }
  case SYS_read: case SYS_write: case SYS_pread64: case SYS_pwrite64: case SYS_readv: case SYS_writev: {
    bool wr = n == SYS_write || n == SYS_pwrite64 || n == SYS_writev; std::string w = fdpath(t, (int)r.rdi); int target = w == script ? -1 : inside(w) ? (wr ? 1 : 0) : w.compare(0, 5, "pipe:") == 0 ? (wr ? 3 : 2) : -1;
    if (target < 0) break; (wr ? nwrites : nreads)++; bool simple = n != SYS_readv && n != SYS_writev; i64 done = p->done[target], cnt = (i64)r.rdx;
    for (auto& f : faults) if (f.proc == p->index && f.target == target) {
      if (f.kind == (wr ? "shortwrite" : "shortread")) { if (simple && cnt > f.at && f.at > 0 && f.fired < 400) { cnt = f.at; f.fired++; } continue; }
      if (f.kind == "eintr") { if (!f.fired && done >= f.at) { f.fired++; refuse(t, r, EINTR); return PTRACE_CONT; } }
      else if (f.kind == "nospace" || f.kind == "ioerr") { if (f.kind == "nospace" && !wr) continue;
        if (done >= f.at) { f.fired++; refuse(t, r, f.kind == "nospace" ? ENOSPC : EIO); return PTRACE_CONT; } }
      else if (f.kind == "kill" || f.kind == "crash") { if (done >= f.at && !f.fired) { f.fired++; if (f.kind == "crash") { crashed = true; crash_all(); } else kill(tgid(t), SIGKILL); return PTRACE_CONT; } }
      else continue;
      if (simple && done < f.at && done + cnt > f.at) cnt = f.at - done;
    }
    if (cnt != (i64)r.rdx) { r.rdx = (unsigned long long)cnt; if (ptrace(PTRACE_SETREGS, t, 0, &r)) die("setregs"); }
    pending[t].target = target; return PTRACE_SYSCALL; }
  case SYS_close: { std::string w = fdpath(t, (int)r.rdi); if (inside(w) && p->done[1]) for (auto& f : faults) if (f.kind == "close" && f.proc == p->index && f.target == 1) { int fl = 0; char x[64]; snprintf(x, sizeof x, "/proc/%d/fdinfo/%d", t, (int)r.rdi); FILE* s = fopen(x, "r"); char l[200]; if (s) { while (fgets(l, sizeof l, s)) if (sscanf(l, "flags: %o", (unsigned*)&fl) == 1) break; fclose(s); } if ((fl & O_ACCMODE) != O_RDONLY) { f.fired++; refuse(t, r, EIO); } }
    break; }
  }
  return PTRACE_CONT;
}
static void leave(pid_t t) {
  auto q = pending.find(t); if (q == pending.end()) return; user_regs_struct r; if (!ptrace(PTRACE_GETREGS, t, 0, &r) && (i64)r.rax > 0) proc(t)->done[q->second.target] += (i64)r.rax; pending.erase(q);
}
int main(int argc, char** argv) {
  dir = argv[1]; int a = 3; for (; a < argc && strcmp(argv[a], "--"); a++) { Fault f; char k[32]; if (sscanf(argv[a], "%31[^:]:%lld:%lld:%lld", k, &f.proc, &f.target, &f.at) != 4) die("fault"); f.kind = k; faults.push_back(f); }
  char** cmd = argv + a + 1; script = dir + "/" + argv[argc - 1]; signal(SIGPIPE, SIG_DFL);
  root = fork(); if (root < 0) die("fork");
  if (!root) {
    setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); personality(ADDR_NO_RANDOMIZE); if (chdir(dir.c_str())) _exit(126);
    int n = open("/dev/null", O_RDONLY), o = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(n, 0); dup2(o, 1); dup2(o, 2); for (int i = 3; i < 64; i++) close(i);
    struct rlimit c = {30, 30}; setrlimit(RLIMIT_CPU, &c); struct rlimit z = {64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &z); struct rlimit m = {4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &m); struct rlimit k = {0, 0}; setrlimit(RLIMIT_CORE, &k);
    const int N = sizeof traced / sizeof *traced; static struct sock_filter f[N + 4]; int x = 0; f[x++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < N; i++) f[x++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)traced[i], (unsigned char)(N - i), 0);
    f[x++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW); f[x++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE); struct sock_fprog g = {(unsigned short)x, f};
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(125); raise(SIGSTOP);
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &g)) _exit(125);
    execvp(cmd[0], cmd); _exit(127);
  }
  int st; if (waitpid(root, &st, __WALL) != root || !WIFSTOPPED(st)) die("start");
  if (ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) die("options");
  proc(root)->index = 0; resume(root, PTRACE_CONT); int code = -1, sig = 0; alarm(100);
  for (;;) {
    pid_t t = waitpid(-1, &st, __WALL); if (t < 0) { if (errno == EINTR) continue; break; }
    if (WIFEXITED(st) || WIFSIGNALED(st)) { if (t == root) { if (WIFEXITED(st)) code = WEXITSTATUS(st); else sig = WTERMSIG(st); } pending.erase(t); continue; }
    if (!WIFSTOPPED(st)) continue;
    int s = WSTOPSIG(st), e = st >> 16;
    if (s == (SIGTRAP | 0x80)) { leave(t); resume(t, PTRACE_CONT); }
    else if (s == SIGTRAP && e == PTRACE_EVENT_SECCOMP) { if (proc(t)->index < 0) { early.insert(t); }  resume(t, enter(t)); }
    else if (s == SIGTRAP && (e == PTRACE_EVENT_FORK || e == PTRACE_EVENT_VFORK || e == PTRACE_EVENT_CLONE)) {
      unsigned long c = 0; ptrace(PTRACE_GETEVENTMSG, t, 0, &c); Proc* p = proc(t); pid_t g = tgid((pid_t)c);
      if (g != tgid(t)) { Proc* q = proc((pid_t)c); if (q->index < 0) { q->index = p->index * 8 + ++p->children; } }
      if (early.count((pid_t)c) == 1) { early.erase((pid_t)c); resume((pid_t)c, PTRACE_CONT); }       // it stopped before its birth was told
      resume(t, PTRACE_CONT);
    }
    else if (s == SIGTRAP && e) resume(t, PTRACE_CONT);
    else if (s == SIGSTOP && t != root && proc(t)->index < 0) early.insert(t);                          // wait for the parent's report
    else if (s == SIGSTOP && t != root) resume(t, PTRACE_CONT);
    else if (s == SIGTRAP) resume(t, PTRACE_CONT);
    else resume(t, PTRACE_CONT, s);
  }
  std::string o; for (auto& f : faults) o += (o.empty() ? "" : ",") + std::to_string(f.fired);
  printf("{\"code\":%d,\"signal\":%d,\"crashed\":%d,\"fired\":[%s],\"reads\":%lld,\"writes\":%lld,\"processes\":%lld,\"calls\":%lld,\"denied\":%lld}\n", code, sig, (int)crashed, o.c_str(), nreads, nwrites, nprocs, steps, denied);
  return 0;
}
