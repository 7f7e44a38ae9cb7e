// Simulated file system for the Python side: a preloaded library.  Everything
// below /sim/ lives in memory; all file calls of CPython, libstdc++ (pynini,
// OpenFst) and glibc stdio that name such a path or descriptor end up here.
// Fault decisions are drawn from a seeded generator or replayed from a trace.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
enum { kReadEIO = 1, kReadEINTR = 2, kReadShort = 4, kWriteEIO = 8, kWriteENOSPC = 16, kWriteEINTR = 32,
       kWriteShort = 64, kOpenFail = 128, kCloseFail = 256, kStatFail = 512, kSeekFail = 1024 };
const unsigned kBenign = kReadShort | kWriteShort | kReadEINTR | kWriteEINTR;
#define REAL(f, ...) ({ static auto r_ = (decltype(&f))dlsym(RTLD_NEXT, #f); r_(__VA_ARGS__); })

namespace {
struct Fault { u64 k; u32 kind, param; };
const u32 kMaxF = 4096;
Fault g_in[kMaxF], g_out[kMaxF];
u32 g_nin, g_nout, g_fpos;
bool g_replay, g_verbose, g_begun;
u64 g_nio, g_hash = 14695981039346656037ull, g_fault_hash;
u64 g_rng;
u32 g_mode, g_rate; u64 g_at;
// A path whose fault stays until the fault kinds are changed.
char g_sticky_path[256]; unsigned g_sticky_kind; u32 g_sticky_param;
char g_exempt[256], g_fragile[64];

u64 Next() { u64 z = (g_rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
u64 Below(u64 n) { return Next() % n; }
u64 Mix(u64 h, u64 v) { return (h ^ v) * 1099511628211ull + (h >> 29); }
void Ev(u64 a, u64 b) { g_hash = Mix(Mix(g_hash, a), b); }
void LogEv(const char *fmt, ...) {
  if (!g_verbose) return;
  char b[600];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof(b) - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof(b) - 2) n = sizeof(b) - 2;
  b[n++] = '\n';
  syscall(SYS_write, 1, "  io: ", 6);
  syscall(SYS_write, 1, b, n);
}
struct Inode {
  char path[256];
  bool linked;
  u8 *data;
  size_t size, cap;
  int refs;
  size_t last_write;   // bytes of the most recent write (lost by a failed close)
};
struct OpenFd {
  bool used;
  Inode *ino;
  size_t pos;
  int flags;
  FILE *file;
  bool wrote;
};
const int kFdBase = 10000, kMaxFd = 256, kMaxIno = 4096;
Inode g_ino[kMaxIno];
int g_nino;
OpenFd g_fd[kMaxFd];
unsigned g_fault_kinds;
u64 g_fired[16];
bool g_disk_full;

const char *const kSimPrefix = "/sim/";

bool IsSim(const char *p) { return p && strncmp(p, kSimPrefix, 5) == 0; }
bool IsSimFd(int fd) { return fd >= kFdBase && fd < kFdBase + kMaxFd && g_fd[fd - kFdBase].used; }

// Files below kLinkDir may be symbolic links to files of the same name below
// kRealDir (as in a tree of runfiles); both names lead to the same inode.
const char kLinkDir[] = "/sim/rf/", kRealDir[] = "/sim/real/";
bool g_links = false;

void Collapse(const char *in, char *out) {  // "//" and "/./"
  size_t o = 0;
  for (const char *p = in; *p && o < 254;) {
    if (p[0] == '/' && p[1] == '/') { p++; continue; }
    if (p[0] == '/' && p[1] == '.' && (p[2] == '/' || !p[2])) { p += 2; continue; }
    out[o++] = *p++;
  }
  out[o] = 0;
}
void Normalize(const char *in, char *out) {
  Collapse(in, out);
  const size_t r = sizeof(kRealDir) - 1, l = sizeof(kLinkDir) - 1;
  if (strncmp(out, kRealDir, r) == 0) {
    memmove(out + l, out + r, strlen(out + r) + 1);
    memcpy(out, kLinkDir, l);
  }
}

Inode *FindIno(const char *path) {
  char b[256];
  Normalize(path, b);
  for (int i = 0; i < g_nino; i++)
    if (g_ino[i].linked && strcmp(g_ino[i].path, b) == 0) return &g_ino[i];
  return nullptr;
}
Inode *NewIno(const char *path) {
  char b[256];
  Normalize(path, b);
  Inode *ino = nullptr;
  for (int i = 0; i < g_nino; i++)
    if (!g_ino[i].linked && g_ino[i].refs == 0) { ino = &g_ino[i]; break; }
  if (!ino) {
    if (g_nino == kMaxIno) abort();
    ino = &g_ino[g_nino++];
  }
  strcpy(ino->path, b);
  ino->linked = true;
  ino->size = 0;
  ino->refs = 0;
  ino->last_write = 0;
  return ino;
}
void Reserve(Inode *f, size_t n) {
  if (n <= f->cap) return;
  size_t c = f->cap ? f->cap * 2 : 4096;
  while (c < n) c *= 2;
  f->data = (u8 *)realloc(f->data, c);
  f->cap = c;
}

int KindIndex(unsigned k) { return __builtin_ctz(k); }
const char *const kKindNames[] = {"read-EIO", "read-EINTR", "short-read", "write-EIO",
                                  "write-ENOSPC", "write-EINTR", "short-write", "open-fail",
                                  "close-fail", "stat-fail", "seek-fail"};

// Decides whether the I/O operation that starts now suffers a fault.
unsigned IoFault(unsigned possible, u32 *param, const char *what, const char *path) {
  *param = 0;
  if (!g_begun) return 0;
  u64 k = g_nio++;
  unsigned mask = possible & g_fault_kinds;
  unsigned kind = 0;
  if (g_exempt[0] && strstr(path, g_exempt)) mask = 0;
  if (mask & g_sticky_kind && strcmp(path, g_sticky_path) == 0) {
    kind = g_sticky_kind;
    *param = g_sticky_param;
    for (int i = 0; i < 11; i++) if (kind == 1u << i) g_fired[i]++;
    LogEv("FAULT (still) %s on %s of %s", kKindNames[KindIndex(kind)], what, path);
    Ev(0x63, k);
    return kind;
  }
  if (g_replay) {
    while (g_fpos < g_nin && g_in[g_fpos].k < k) g_fpos++;
    if (g_fpos < g_nin && g_in[g_fpos].k == k && (g_in[g_fpos].kind & mask)) {
      kind = g_in[g_fpos].kind;
      *param = g_in[g_fpos].param;
    }
  } else if (mask) {
    bool fire = false;
    if (g_mode == 1) fire = k >= g_at && !g_fired[15];
    else if (g_mode == 2) fire = Below(256) < g_rate;
    if (fire) {
      int n = __builtin_popcount(mask), i = (int)Below(n);
      unsigned m = mask;
      while (i-- > 0) m &= m - 1;
      kind = m & (~m + 1);
      *param = (u32)Next();
      if (!(kind & kBenign) || Below(2)) g_fired[15]++;
    }
  }
  if (kind) {
    g_fired[KindIndex(kind)]++;
    if (!(kind & (kBenign | kCloseFail)) && (*param & 0xc0) == 0xc0) {
      snprintf(g_sticky_path, sizeof(g_sticky_path), "%s", path);
      g_sticky_kind = kind;
      g_sticky_param = *param;
    }
    Ev(0x61, Mix(k, kind));
    g_fault_hash = Mix(Mix(Mix(g_fault_hash, k), kind), *param);
    if (g_nout < kMaxF) { g_out[g_nout].k = k; g_out[g_nout].kind = kind; g_out[g_nout].param = *param; g_nout++; }
    LogEv("FAULT %s on %s of %s", kKindNames[KindIndex(kind)], what, path);
  }
  return kind;
}

int OpenErr(u32 param) {
  static const int e[] = {EACCES, EMFILE, EIO, ENFILE};
  return e[param % 4];
}

// Is this name a symbolic link?
bool IsLink(const char *path) {
  char b[256];
  Collapse(path, b);
  return g_links && strncmp(b, kLinkDir, sizeof(kLinkDir) - 1) == 0 && FindIno(b);
}

int SimOpen(const char *path, int flags) {
  u32 prm;
  int acc = flags & O_ACCMODE;
  if (IoFault(kOpenFail, &prm, "open", path)) { errno = OpenErr(prm); return -1; }
  if ((flags & O_NOFOLLOW) && IsLink(path)) { errno = ELOOP; return -1; }
  Inode *f = FindIno(path);
  if (!f) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    f = NewIno(path);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if ((flags & O_TRUNC) && acc != O_RDONLY) { f->size = 0; f->last_write = 0; }
  for (int i = 0; i < kMaxFd; i++) {
    if (g_fd[i].used) continue;
    memset(&g_fd[i], 0, sizeof(g_fd[i]));
    g_fd[i].used = true;
    g_fd[i].ino = f;
    g_fd[i].flags = flags;
    f->refs++;
    Ev(0x62, i);
    LogEv("open %s -> %d", path, kFdBase + i);
    return kFdBase + i;
  }
  errno = EMFILE;
  return -1;
}

ssize_t SimRead(int fd, void *buf, size_t n) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  size_t avail = o->pos < o->ino->size ? o->ino->size - o->pos : 0;
  if (n > avail) n = avail;
  // OpenFst crashes when the entry count at the end of an archive cannot be read.
  bool fragile = g_fragile[0] && strstr(o->ino->path, g_fragile) && n == 8 && o->pos + 8 == o->ino->size;
  unsigned k = IoFault((fragile ? 0 : kReadEIO) | kReadEINTR | (n > 1 ? kReadShort : 0), &prm,
                       "read", o->ino->path);
  if (k == kReadEIO) { errno = EIO; return -1; }
  if (k == kReadEINTR) { errno = EINTR; return -1; }
  if (k == kReadShort) n = 1 + prm % (n - 1);
  memcpy(buf, o->ino->data + o->pos, n);
  o->pos += n;
  LogEv("read %s -> %zu", o->ino->path, n);
  return (ssize_t)n;
}

ssize_t SimWrite(int fd, const void *buf, size_t n) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  unsigned k = IoFault(kWriteEIO | kWriteEINTR | kWriteENOSPC |
                           (n > 1 ? kWriteShort : 0),
                       &prm, "write", o->ino->path);
  if (g_disk_full && (g_fault_kinds & kWriteENOSPC)) {  // still full
    ++g_fired[KindIndex(kWriteENOSPC)];
    errno = ENOSPC;
    return -1;
  }
  if (k == kWriteEIO) { errno = EIO; return -1; }
  if (k == kWriteEINTR) { errno = EINTR; return -1; }
  if (k == kWriteENOSPC) {
    if (prm & 1) g_disk_full = true;  // stays full
    size_t part = (prm >> 1) % (n + 1);
    if (part == n || part == 0) { errno = ENOSPC; return -1; }
    n = part;  // torn: a prefix still fits, the next write fails
    g_disk_full = true;
  }
  if (k == kWriteShort) n = 1 + prm % (n - 1);
  size_t pos = (o->flags & O_APPEND) ? o->ino->size : o->pos;
  Reserve(o->ino, pos + n);
  if (pos > o->ino->size) memset(o->ino->data + o->ino->size, 0, pos - o->ino->size);
  memcpy(o->ino->data + pos, buf, n);
  if (pos + n > o->ino->size) o->ino->size = pos + n;
  o->pos = pos + n;
  o->ino->last_write = n;
  o->wrote = true;
  LogEv("write %s %zu", o->ino->path, n);
  return (ssize_t)n;
}

i64 SimSeek(int fd, i64 off, int whence) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if (IoFault(kSeekFail, &prm, "seek", o->ino->path)) { errno = EIO; return -1; }
  i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (i64)o->pos : (i64)o->ino->size;
  i64 np = base + off;
  if (np < 0) { errno = EINVAL; return -1; }
  o->pos = (size_t)np;
  return np;
}

int SimClose(int fd) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  int r = 0;
  if (IoFault(o->wrote ? kCloseFail : 0, &prm, "close", o->ino->path)) {
    // Delayed write error: the tail of the last write never reached the disk.
    size_t lost = o->ino->last_write ? 1 + prm % o->ino->last_write : 0;
    if (lost > o->ino->size) lost = o->ino->size;
    o->ino->size -= lost;
    errno = EIO;
    r = -1;
  }
  o->ino->refs--;
  o->used = false;
  o->file = nullptr;
  LogEv("close %s -> %d", o->ino->path, r);
  return r;
}

int DirLike(const char *p) {
  char b[256];
  Normalize(p, b);
  size_t l = strlen(b);
  if (l && b[l - 1] == '/') b[--l] = 0;
  if (strcmp(b, "/sim") == 0 || strcmp(b, "/sim/tmp") == 0 || strcmp(b, "/sim/real") == 0) return 1;
  for (int i = 0; i < g_nino; i++)
    if (g_ino[i].linked && strncmp(g_ino[i].path, b, l) == 0 && g_ino[i].path[l] == '/') return 1;
  return 0;
}

int SimStat(const char *p, struct stat *st, bool follow = true) {
  u32 prm;
  if (IoFault(kStatFail, &prm, "stat", p)) {
    static const int e[] = {EACCES, EIO, ENOMEM, ELOOP};
    errno = e[prm % 4];
    return -1;
  }
  Inode *f = FindIno(p);
  if (st) memset(st, 0, sizeof(*st));
  if (!f) {
    if (DirLike(p)) { if (st) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 1; } return 0; }
    errno = ENOENT;
    return -1;
  }
  if (st) {
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)f->size;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_ino = (ino_t)(f - g_ino + 1);
    if (!follow && IsLink(p)) {
      st->st_mode = S_IFLNK | 0777;
      st->st_size = (off_t)(strlen(f->path) - strlen(kLinkDir) + strlen(kRealDir));
      st->st_ino += 100000;
    }
  }
  return 0;
}
ssize_t SimReadlink(const char *p, char *buf, size_t n) {
  Inode *f = FindIno(p);
  if (!f && !DirLike(p)) { errno = ENOENT; return -1; }
  if (!f || !IsLink(p)) { errno = EINVAL; return -1; }
  char b[300];
  const size_t l = (size_t)snprintf(b, sizeof(b), "%s%s", kRealDir, f->path + strlen(kLinkDir));
  memcpy(buf, b, l < n ? l : n);
  return (ssize_t)(l < n ? l : n);
}
int SimFstat(int fd, struct stat *st) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if (IoFault(kStatFail, &prm, "fstat", o->ino->path)) { errno = EIO; return -1; }
  memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = (off_t)o->ino->size;
  st->st_blksize = 4096;
  st->st_nlink = 1;
  return 0;
}

// stdio on top: cookie streams.  The cookie is the descriptor.
ssize_t CkRead(void *c, char *b, size_t n) { return SimRead((int)(intptr_t)c, b, n); }
ssize_t CkWrite(void *c, const char *b, size_t n) {
  // As glibc's own file streams do: short counts are continued, any error ends
  // the attempt and is reported by stdio as a write error.
  size_t done = 0;
  while (done < n) {
    ssize_t r = SimWrite((int)(intptr_t)c, b + done, n - done);
    if (r < 0) break;
    done += (size_t)r;
  }
  return (ssize_t)done;
}
int CkSeek(void *c, off64_t *off, int whence) {
  i64 r = SimSeek((int)(intptr_t)c, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int CkClose(void *c) { return SimClose((int)(intptr_t)c); }

int ModeFlags(const char *m) {
  bool plus = strchr(m, '+') != nullptr;
  switch (m[0]) {
    case 'r': return plus ? O_RDWR : O_RDONLY;
    case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | (strchr(m, 'x') ? O_EXCL : 0);
    case 'a': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  }
  return -1;
}
FILE *MakeFile(int fd, const char *mode) {
  cookie_io_functions_t io = {CkRead, CkWrite, CkSeek, CkClose};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  if (!f) { SimClose(fd); return nullptr; }
  g_fd[fd - kFdBase].file = f;
  return f;
}
FILE *SimFopen(const char *path, const char *mode) {
  int fl = ModeFlags(mode);
  if (fl < 0) { errno = EINVAL; return nullptr; }
  int fd = SimOpen(path, fl);
  if (fd < 0) return nullptr;
  return MakeFile(fd, mode);
}
int FdOfFile(FILE *f) {
  for (int i = 0; i < kMaxFd; i++) if (g_fd[i].used && g_fd[i].file == f) return kFdBase + i;
  return -1;
}

}  // namespace

extern "C" {
FILE *fopen(const char *p, const char *m) {
  if (IsSim(p)) return SimFopen(p, m);
  return REAL(fopen, p, m);
}
FILE *fopen64(const char *p, const char *m) {
  if (IsSim(p)) return SimFopen(p, m);
  return REAL(fopen64, p, m);
}
FILE *fdopen(int fd, const char *m) noexcept {
  if (IsSimFd(fd)) return MakeFile(fd, m);
  return REAL(fdopen, fd, m);
}
int fileno(FILE *f) noexcept {
  { int fd = FdOfFile(f); if (fd >= 0) return fd; }
  return REAL(fileno, f);
}
int open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (IsSim(p)) return SimOpen(p, fl);
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (IsSim(p)) return SimOpen(p, fl);
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int openat(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (IsSim(p)) return SimOpen(p, fl);
  return (int)syscall(SYS_openat, d, p, fl, mode);
}
int openat64(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (IsSim(p)) return SimOpen(p, fl);
  return (int)syscall(SYS_openat, d, p, fl, mode);
}
int creat(const char *p, mode_t m) {
  if (IsSim(p)) return SimOpen(p, O_CREAT | O_WRONLY | O_TRUNC);
  return (int)syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
static int SimMkstemp(char *tmpl, int suffix) {
  size_t l = strlen(tmpl);
  static int n;
  for (;;) {
    char b[16];
    snprintf(b, sizeof(b), "%06d", ++n);
    memcpy(tmpl + l - suffix - 6, b, 6);
    if (!FindIno(tmpl)) break;
  }
  return SimOpen(tmpl, O_CREAT | O_EXCL | O_RDWR);
}
int mkstemp(char *t) { if (IsSim(t)) return SimMkstemp(t, 0); return REAL(mkstemp, t); }
int mkostemp(char *t, int f) { if (IsSim(t)) return SimMkstemp(t, 0); return REAL(mkostemp, t, f); }
int mkstemps(char *t, int s) { if (IsSim(t)) return SimMkstemp(t, s); return REAL(mkstemps, t, s); }
ssize_t read(int fd, void *b, size_t n) {
  if (IsSimFd(fd)) return SimRead(fd, b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) {
  if (IsSimFd(fd)) {
    OpenFd *o = &g_fd[fd - kFdBase];
    size_t save = o->pos; o->pos = off;
    ssize_t r = SimRead(fd, b, n);
    o->pos = save;
    return r;
  }
  return syscall(SYS_pread64, fd, b, n, off);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (IsSimFd(fd)) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return SimRead(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (IsSimFd(fd)) return SimWrite(fd, b, n);
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (IsSimFd(fd)) {
    size_t t = 0;
    for (int i = 0; i < c; i++) t += v[i].iov_len;
    if (t == 0) return 0;
    u8 *b = (u8 *)alloca(t);
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    return SimWrite(fd, b, t);
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) {
  if (IsSimFd(fd)) {
    OpenFd *o = &g_fd[fd - kFdBase];
    size_t save = o->pos; o->pos = off;
    ssize_t r = SimWrite(fd, b, n);
    o->pos = save;
    return r;
  }
  return syscall(SYS_pwrite64, fd, b, n, off);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (IsSimFd(fd)) return SimSeek(fd, o, w);
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {
  if (IsSimFd(fd)) return SimSeek(fd, o, w);
  return syscall(SYS_lseek, fd, o, w);
}
int close(int fd) {
  if (IsSimFd(fd)) return SimClose(fd);
  return (int)syscall(SYS_close, fd);
}
int fsync(int fd) {
  if (IsSimFd(fd)) return 0;
  return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (IsSimFd(fd)) return 0;
  return (int)syscall(SYS_fdatasync, fd);
}
int ftruncate(int fd, off_t n) noexcept {
  if (IsSimFd(fd)) {
    Inode *f = g_fd[fd - kFdBase].ino;
    Reserve(f, n);
    if ((size_t)n > f->size) memset(f->data + f->size, 0, n - f->size);
    f->size = n;
    return 0;
  }
  return (int)syscall(SYS_ftruncate, fd, n);
}
int stat(const char *p, struct stat *st) noexcept {
  if (IsSim(p)) return SimStat(p, st);
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept {
  if (IsSim(p)) return SimStat(p, st, false);
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, (struct stat *)st); }
int fstat(int fd, struct stat *st) noexcept {
  if (IsSimFd(fd)) return SimFstat(fd, st);
  return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int f) noexcept {
  if (IsSim(p)) return SimStat(p, st, !(f & AT_SYMLINK_NOFOLLOW));
  return (int)syscall(SYS_newfstatat, d, p, st, f);
}
int fstatat64(int d, const char *p, struct stat64 *st, int f) noexcept { return fstatat(d, p, (struct stat *)st, f); }
ssize_t readlink(const char *p, char *buf, size_t n) noexcept {
  if (IsSim(p)) return SimReadlink(p, buf, n);
  return syscall(SYS_readlink, p, buf, n);
}
ssize_t readlinkat(int d, const char *p, char *buf, size_t n) noexcept {
  if (IsSim(p)) return SimReadlink(p, buf, n);
  return syscall(SYS_readlinkat, d, p, buf, n);
}
int access(const char *p, int m) noexcept {
  if (IsSim(p)) return SimStat(p, nullptr);
  return (int)syscall(SYS_access, p, m);
}
int faccessat(int d, const char *p, int m, int f) noexcept {
  if (IsSim(p)) return SimStat(p, nullptr);
  return REAL(faccessat, d, p, m, f);
}
int unlink(const char *p) noexcept {
  if (IsSim(p)) {
    Inode *f = FindIno(p);
    if (!f) { errno = ENOENT; return -1; }
    f->linked = false;
    return 0;
  }
  if (g_begun) { errno = EPERM; return -1; }  // never touch real files from a run
  return (int)syscall(SYS_unlink, p);
}
int remove(const char *p) noexcept { return unlink(p); }
int rename(const char *a, const char *b) noexcept {
  if (IsSim(a) && IsSim(b)) {
    Inode *f = FindIno(a);
    if (!f) { errno = ENOENT; return -1; }
    Inode *o = FindIno(b);
    if (o && o != f) o->linked = false;
    Normalize(b, f->path);
    return 0;
  }
  if (g_begun) { errno = EPERM; return -1; }
  return (int)syscall(SYS_rename, a, b);
}
int mkdir(const char *p, mode_t m) noexcept {
  if (IsSim(p)) return 0;
  if (g_begun) { errno = EPERM; return -1; }
  return (int)syscall(SYS_mkdir, p, m);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  if (IsSimFd(fd)) {
    if (req == FIONREAD) {
      OpenFd *o = &g_fd[fd - kFdBase];
      *(int *)arg = o->pos < o->ino->size ? (int)(o->ino->size - o->pos) : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return (int)syscall(SYS_ioctl, fd, req, arg);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  if (n == 1 && IsSimFd(p->fd)) { p->revents = p->events; return 1; }
  return (int)syscall(SYS_poll, p, n, t);
}
int isatty(int fd) noexcept {
  if (IsSimFd(fd)) { errno = ENOTTY; return 0; }
  return REAL(isatty, fd);
}

// ---- control (called through ctypes) ---------------------------------------
void simfs_begin(u64 seed, int replay, u32 mode, u32 rate, u64 at, int verbose) {
  g_rng = seed * 0x9e3779b97f4a7c15ull + 77;
  g_replay = replay; g_mode = mode; g_rate = rate; g_at = at; g_verbose = verbose;
  g_nio = 0; g_nout = 0; g_fpos = 0; g_begun = true; g_disk_full = false; g_sticky_kind = 0; g_fault_kinds = 0;
  memset(g_fired, 0, sizeof(g_fired));
  g_links = false;
}
void simfs_links(int on) { g_links = on != 0; }
void simfs_fragile(const char *s) { snprintf(g_fragile, sizeof(g_fragile), "%s", s); }
void simfs_exempt(const char *s) { snprintf(g_exempt, sizeof(g_exempt), "%s", s); }
void simfs_add(u64 k, u32 kind, u32 param) {
  if (g_nin < kMaxF) { g_in[g_nin].k = k; g_in[g_nin].kind = kind; g_in[g_nin].param = param; g_nin++; }
}
void simfs_faults(unsigned mask) { g_fault_kinds = mask; g_sticky_kind = 0; if (!mask) g_disk_full = false; }
u64 simfs_fired(unsigned mask) {
  u64 t = 0;
  for (int i = 0; i < 11; i++) if (mask & (1u << i)) t += g_fired[i];
  return t;
}
u64 simfs_nio(void) { return g_nio; }
u64 simfs_hash(void) { return g_hash; }
u64 simfs_fault_hash(void) { return g_fault_hash; }
u32 simfs_nout(void) { return g_nout; }
void simfs_out(u32 i, u64 *k, u32 *kind, u32 *param) { *k = g_out[i].k; *kind = g_out[i].kind; *param = g_out[i].param; }
void simfs_put(const char *path, const void *d, size_t n) {
  Inode *f = FindIno(path);
  if (!f) f = NewIno(path);
  Reserve(f, n);
  if (n) memcpy(f->data, d, n);
  f->size = n;
  f->last_write = 0;
}
i64 simfs_size(const char *path) { Inode *f = FindIno(path); return f ? (i64)f->size : -1; }
const void *simfs_data(const char *path) { Inode *f = FindIno(path); return f ? f->data : nullptr; }
void simfs_remove(const char *path) { Inode *f = FindIno(path); if (f) f->linked = false; }
int simfs_open_files(void) { int n = 0; for (int i = 0; i < kMaxFd; i++) n += g_fd[i].used; return n; }
const char *simfs_kind(int i) { return kKindNames[i]; }
}
