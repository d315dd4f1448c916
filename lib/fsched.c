// Runs one or several generators under ptrace and controls every file system operation they do below a root directory:
// chooses which process does the next one (schedule), and injects faults (death, error returns, short and torn writes).
//   fsched ROOT SCHED FAULTS -- prog args... [-- prog args...]
// SCHED: comma separated process numbers ("-" for none); afterwards the last process continues until it ends, then the lowest one.
// FAULTS: comma separated ("-" for none); K is the number of an operation (counted over all processes), P a path below ROOT:
//   K:kill      the process dies before operation K          K:torn:N   operation K (a write) writes N bytes, then the process dies
//   K:err:E     operation K fails with errno E               K:short:N  operation K (a write) writes N bytes only
//   open:P:E    every opening of P for writing fails          space:P:N:E   writes to P fail with E once N bytes are written
// With FSCHED_READS in the environment, short and eintr apply to reads as well.
//   all:short:N every write writes at most N bytes            all:eintr   every write is interrupted once before it succeeds
// Output, one line per event:  OP number process name mutating path path2 | RES number result | END process status | LOST text
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <grp.h>
#include <sys/ptrace.h>
#include <linux/ptrace.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <sys/stat.h>

#define MAXP 4
#define PLEN 4096
typedef struct { int alive, at_op, in_call, status; pid_t pid; char* fd[1024]; long budget;
  const char* name; int mut, isopen, isdir, wr; char path[PLEN], path2[PLEN]; long nr; int eintr; struct user_regs_struct r; } P;
static P ps[MAXP];
static int np, opn;
static const char* root;
static size_t rootlen;
static char* faults[256]; static int nf;
static long spent[256];
static int reads; // FSCHED_READS: reading and seeking below the root are operations too

static void die(const char* s) { printf("LOST %s\n", s); fflush(stdout); for (int i = 0; i < np; i++) if (ps[i].alive) kill(ps[i].pid, SIGKILL); exit(3); }
static void onalarm(int s) { (void)s; die("timeout"); }

static void rdstr(pid_t p, unsigned long a, char* o)
{
  size_t n = 0;
  while (n < PLEN - 1) {
    errno = 0; long w = ptrace(PTRACE_PEEKDATA, p, (void*)(a + n), 0);
    if (errno) { o[n] = 0; return; }
    for (int i = 0; i < 8 && n < PLEN - 1; i++, n++) { o[n] = (char)(w >> (8 * i)); if (!o[n]) return; }
  }
  o[n] = 0;
}
static void norm(char* p) // collapses //, /./ and trailing /
{
  char* w = p; for (char* r = p; *r; ) { if (r[0] == '/' && r[1] == '/') { r++; continue; } if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || !r[2])) { r += 2; continue; } *w++ = *r++; }
  if (w > p + 1 && w[-1] == '/') w--; *w = 0;
}
static void pathat(P* q, long dirfd, unsigned long a, char* o)
{
  char t[PLEN]; rdstr(q->pid, a, t);
  if (t[0] == '/') strcpy(o, t);
  else if ((int)dirfd == AT_FDCWD) { char l[64], c[PLEN]; snprintf(l, 64, "/proc/%d/cwd", q->pid); ssize_t n = readlink(l, c, PLEN - 1); c[n < 0 ? 0 : n] = 0; snprintf(o, PLEN, "%.2000s/%.2000s", c, t); }
  else snprintf(o, PLEN, "%.2000s/%.2000s", (dirfd >= 0 && dirfd < 1024 && q->fd[dirfd]) ? q->fd[dirfd] : "?", t);
  norm(o);
}
static int under(const char* p) { return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }

// is the call the process is about to do an operation to control?
static int classify(P* q)
{
  struct user_regs_struct* r = &q->r; long n = r->orig_rax; q->path[0] = q->path2[0] = 0; q->mut = q->isopen = q->wr = q->isdir = 0; q->nr = n;
#define PA(d, a) pathat(q, d, a, q->path)
  switch (n) {
  case SYS_mkdir: q->name = "mkdir"; q->mut = 1; PA(AT_FDCWD, r->rdi); break;
  case SYS_mkdirat: q->name = "mkdir"; q->mut = 1; PA(r->rdi, r->rsi); break;
  case SYS_rmdir: q->name = "rmdir"; q->mut = 1; PA(AT_FDCWD, r->rdi); break;
  case SYS_unlink: q->name = "unlink"; q->mut = 1; PA(AT_FDCWD, r->rdi); break;
  case SYS_unlinkat: q->name = "unlink"; q->mut = 1; PA(r->rdi, r->rsi); break;
  case SYS_rename: q->name = "rename"; q->mut = 1; PA(AT_FDCWD, r->rdi); pathat(q, AT_FDCWD, r->rsi, q->path2); break;
  case SYS_renameat: case SYS_renameat2: q->name = "rename"; q->mut = 1; PA(r->rdi, r->rsi); pathat(q, r->rdx, r->r10, q->path2); break;
  case SYS_link: q->name = "link"; q->mut = 1; PA(AT_FDCWD, r->rdi); pathat(q, AT_FDCWD, r->rsi, q->path2); break;
  case SYS_symlink: q->name = "symlink"; q->mut = 1; PA(AT_FDCWD, r->rsi); break;
  case SYS_symlinkat: q->name = "symlink"; q->mut = 1; PA(r->rsi, r->rdx); break;
  case SYS_truncate: q->name = "truncate"; q->mut = 1; PA(AT_FDCWD, r->rdi); break;
  case SYS_chmod: q->name = "chmod"; q->mut = 1; PA(AT_FDCWD, r->rdi); break;
  case SYS_creat: q->name = "open"; q->mut = q->isopen = 1; PA(AT_FDCWD, r->rdi); break;
  case SYS_open: q->name = "open"; q->isopen = 1; q->mut = (r->rsi & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0; PA(AT_FDCWD, r->rdi); break;
  case SYS_openat: q->name = "open"; q->isopen = 1; q->mut = (r->rdx & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0; PA(r->rdi, r->rsi); break;
  case SYS_stat: case SYS_lstat: case SYS_access: q->name = "stat"; PA(AT_FDCWD, r->rdi); break;
  case SYS_readlink: q->name = "stat"; PA(AT_FDCWD, r->rdi); break;
  case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2:
    q->name = "stat"; PA(r->rdi, r->rsi); break;
  case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_ftruncate: case SYS_fsync: case SYS_getdents64: case SYS_flock: case SYS_sendfile: case SYS_copy_file_range: {
    unsigned long f = (n == SYS_copy_file_range) ? r->rdx : r->rdi;
    if (f >= 1024 || !q->fd[f]) return 0;
    snprintf(q->path, PLEN, "%s", q->fd[f]); q->name = n == SYS_getdents64 ? "list" : "write"; q->mut = n != SYS_getdents64 && n != SYS_fsync; q->wr = n == SYS_write; break; }
  case SYS_read: case SYS_readv: case SYS_pread64: case SYS_lseek: case SYS_mmap: {
    unsigned long f = n == SYS_mmap ? r->r8 : r->rdi;
    if (!reads || f >= 1024 || !q->fd[f]) return 0;
    snprintf(q->path, PLEN, "%s", q->fd[f]); q->name = n == SYS_lseek ? "seek" : n == SYS_mmap ? "map" : "read"; q->wr = n == SYS_read || n == SYS_pread64; break; }
  default: return 0;
  }
  return under(q->path) || (q->path2[0] && under(q->path2));
}

static int waitp(P* q) // 0: stopped at a system call boundary, 1: ended
{
  for (;;) {
    int st; if (waitpid(q->pid, &st, 0) < 0) die("waitpid");
    if (WIFEXITED(st) || WIFSIGNALED(st)) { q->alive = 0; q->status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); printf("END %d %d\n", (int)(q - ps), q->status); return 1; }
    int sig = WSTOPSIG(st);
    if (sig == (SIGTRAP | 0x80)) return 0;
    if (sig == SIGTRAP) sig = 0;
    if (ptrace(PTRACE_SYSCALL, q->pid, 0, sig)) die("cont");
  }
}
static void rmfd(P* q, unsigned long f) { if (f < 1024 && q->fd[f]) { free(q->fd[f]); q->fd[f] = 0; } }

// runs the process up to its next controlled operation or its end
static void advance(P* q)
{
  for (;;) {
    if (!q->in_call) {                                    // before a call entry
      if (ptrace(PTRACE_SYSCALL, q->pid, 0, 0)) die("syscall");
      if (waitp(q)) return;
      q->in_call = 1;
      ptrace(PTRACE_GETREGS, q->pid, 0, &q->r);
      if (classify(q)) { q->at_op = 1; return; }
    }
    if (ptrace(PTRACE_SYSCALL, q->pid, 0, 0)) die("syscall");
    if (waitp(q)) return;
    q->in_call = 0;
    struct user_regs_struct e; ptrace(PTRACE_GETREGS, q->pid, 0, &e);
    if (q->r.orig_rax == SYS_close) rmfd(q, q->r.rdi);
    if ((q->r.orig_rax == SYS_dup || q->r.orig_rax == SYS_dup2 || q->r.orig_rax == SYS_fcntl) && (long)e.rax >= 0 && e.rax < 1024 && q->r.rdi < 1024 && q->fd[q->r.rdi] &&
        (q->r.orig_rax != SYS_fcntl || q->r.rsi == F_DUPFD || q->r.rsi == F_DUPFD_CLOEXEC)) { if (e.rax != q->r.rdi) { rmfd(q, e.rax); q->fd[e.rax] = strdup(q->fd[q->r.rdi]); } }
  }
}

// lets the process do the operation it waits for, with the faults that apply, and runs it to its next one
static void perform(int i)
{
  P* q = &ps[i]; long fake = 0; int kill_after = 0, kill_before = 0, k = opn++; struct user_regs_struct m = q->r, e;
  printf("OP %d %d %s %d %s %s\n", k, i, q->name, q->mut, q->path + (under(q->path) ? rootlen : 0), q->path2[0] ? q->path2 + (under(q->path2) ? rootlen : 0) : "-");
  const char* rel = under(q->path) ? q->path + rootlen : q->path;
  for (int f = 0; f < nf; f++) {
    char* s = faults[f]; char* c = strchr(s, ':'); if (!c) die("fault"); size_t hl = (size_t)(c - s); c++;
    if (s[0] >= '0' && s[0] <= '9') {
      if (atoi(s) != k) continue;
      if (!strncmp(c, "kill", 4)) kill_before = 1;
      else if (!strncmp(c, "err:", 4)) fake = -atol(c + 4);
      else if (!strncmp(c, "torn:", 5)) { if (q->wr) { long n = atol(c + 5); if (n < 0) n = (long)m.rdx + n; if (n < (long)m.rdx && n >= 0) m.rdx = n; } kill_after = 1; }
      else if (!strncmp(c, "short:", 6) && q->wr) { long n = atol(c + 6); if (n < (long)m.rdx) m.rdx = n; }
    } else if (!strncmp(s, "all", hl)) {
      if (!strncmp(c, "short:", 6) && q->wr) { long n = atol(c + 6); if (n < (long)m.rdx) m.rdx = n; }
      if (!strncmp(c, "eintr", 5) && q->wr) { if (!q->eintr) { fake = -EINTR; q->eintr = 1; } else q->eintr = 0; }
    } else if (!strncmp(s, "open", hl) || !strncmp(s, "space", hl)) {
      char* l = strchr(c, ':'); size_t pl = (size_t)(l - c);
      if (strlen(rel) != pl || strncmp(rel, c, pl)) continue;
      if (s[0] == 'o') { if (q->isopen && q->mut) fake = -atol(l + 1); }
      else if (q->wr) { long n = atol(l + 1), er = atol(strchr(l + 1, ':') + 1), left = n - spent[f]; if (left <= 0) fake = -er; else if ((long)m.rdx > left) m.rdx = left; if (left > 0) spent[f] += m.rdx; }
      else if (!q->isopen && !strcmp(q->name, "write") && q->mut) fake = -atol(strchr(l + 1, ':') + 1);
    } else die("fault");
  }
  q->at_op = 0;
  if (kill_before) { kill(q->pid, SIGKILL); while (!waitp(q)) {} return; }
  if (fake) m.orig_rax = (unsigned long)-1;
  if (memcmp(&m, &q->r, sizeof m)) ptrace(PTRACE_SETREGS, q->pid, 0, &m);
  if (ptrace(PTRACE_SYSCALL, q->pid, 0, 0)) die("op");
  if (waitp(q)) return;
  q->in_call = 0;
  ptrace(PTRACE_GETREGS, q->pid, 0, &e);
  if (fake) { e.rax = (unsigned long)fake; ptrace(PTRACE_SETREGS, q->pid, 0, &e); }
  else if (m.rdx != q->r.rdx && q->wr) { e.rdx = q->r.rdx; ptrace(PTRACE_SETREGS, q->pid, 0, &e); }
  long res = (long)e.rax;
  printf("RES %d %ld\n", k, res);
  if (q->isopen && res >= 0 && res < 1024) { rmfd(q, res); q->fd[res] = strdup(q->path); }
  if (kill_after) { kill(q->pid, SIGKILL); while (!waitp(q)) {} return; }
  advance(q);
}

int main(int argc, char** argv)
{
  if (argc < 6) return 2;
  if (geteuid() == 0) { umask(0); if (setgroups(0, 0) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) return 2; prctl(PR_SET_DUMPABLE, 1); }
  root = argv[1]; rootlen = strlen(root);
  char* sched = argv[2];
  if (strcmp(argv[3], "-")) for (char* s = strtok(argv[3], ","); s && nf < 256; s = strtok(0, ",")) faults[nf++] = s;
  reads = getenv("FSCHED_READS") != 0;
  signal(SIGALRM, onalarm); alarm(60);
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  for (int a = 4; a < argc && np < MAXP; ) {
    if (strcmp(argv[a], "--")) return 2;
    int b = a + 1; while (b < argc && strcmp(argv[b], "--")) b++;
    char* save = argv[b]; argv[b] = 0;
    pid_t p = fork();
    if (p == 0) {
      int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); alarm(0);
      ptrace(PTRACE_TRACEME, 0, 0, 0); execv(argv[a + 1], argv + a + 1); _exit(127);
    }
    argv[b] = save; a = b;
    P* q = &ps[np++]; q->pid = p; q->alive = 1;
    int st; if (waitpid(p, &st, 0) < 0 || !WIFSTOPPED(st)) { q->alive = 0; die("start"); }
    ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
  }
  for (int i = 0; i < np; i++) advance(&ps[i]);
  int last = 0;
  char* s = strcmp(sched, "-") ? sched : (char*)"";
  for (;;) {
    int i = -1;
    if (*s) { i = (int)strtol(s, &s, 10); if (*s == ',') s++; if (i < 0 || i >= np || !ps[i].alive) die("the schedule does not apply"); }
    else if (ps[last].alive) i = last;
    else for (int k = 0; k < np && i < 0; k++) if (ps[k].alive) i = k;
    if (i < 0) break;
    last = i;
    perform(i);
    if (opn > 100000) die("too many operations");
  }
  printf("ALL %d\n", opn);
  return 0;
}
