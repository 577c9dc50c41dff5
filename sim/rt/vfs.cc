// Simulated file system and the system calls that reach it.
#include <dirent.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "heap.h"
#include "rt.h"

extern "C" int SimClose(int);
namespace rt {
namespace {

using sim::Fault;

struct Inode {
  int ino = 0;
  sim::fs::Kind kind = sim::fs::kFile;
  uint32_t mode = 0644;
  int dev = 1;
  std::string data;                 // file contents or link target
  std::map<std::string, int> ents;  // directory
  int parent = 0;
  int nlink = 0, opens = 0;
  int special = 0;                  // 1 null, 2 zero, 3 urandom
  timespec at{}, mt{}, ct{};
};
struct OpenFile {
  int ino = 0;
  int flags = 0;
  uint64_t pos = 0;
  int refs = 0;
};
struct Fd { int of = -1; bool cloexec = false; int tid = 0; bool dir = false; };
struct Map { uintptr_t a; size_t len; int ino; uint64_t off; bool shared, write; };
struct DirH { int fd; std::vector<std::pair<std::string, int>> ents; size_t pos = 0; struct dirent64 de; int tid; };

struct Fs {
  std::map<int, Inode> in;
  std::map<int, OpenFile> of;
  std::map<int, Fd> fd;
  std::vector<Map> maps;
  std::set<DirH*> dirs;
  std::map<FILE*, int> files;
  std::string cwd = "/";
  int next_ino = 1, next_of = 1;
  uint64_t capacity = ~0ull, used = 0, ops = 0;
  uintptr_t next_map = 0x300000000000ull;
  std::string bad;
  std::map<int, std::map<int, int>> locks;  // ino -> open file -> type
  uint64_t rnd = 0x1234567;
};
Fs* g;

bool On() { return InSim() && g; }
constexpr int kRootIno = 1;
constexpr int kMaxFd = 256;

Inode& I(int ino) { return g->in[ino]; }
timespec Now() {
  int64_t w = sim::WallNs();
  return timespec{w / 1000000000, w % 1000000000};
}
int NewInode(sim::fs::Kind k, uint32_t mode, int dev) {
  int i = g->next_ino++;
  Inode& n = g->in[i];
  n.ino = i;
  n.kind = k;
  n.mode = mode;
  n.dev = dev;
  n.at = n.mt = n.ct = Now();
  return i;
}
int Err(int e) { errno = e; return -1; }
void Release(int ino) {
  Inode& n = I(ino);
  if (n.nlink <= 0 && n.opens <= 0) {
    for (Map& m : g->maps) if (m.ino == ino) return;
    g->used -= n.data.size();
    g->in.erase(ino);
  }
}

// Resolves |path|. On success *out is the inode; *par/*name are the parent directory and
// last component (also when the last component does not exist: *out = 0, returns 0).
int Walk(const std::string& path, bool follow, int* out, int* par, std::string* name) {
  if (path.empty()) return ENOENT;
  if (path.size() >= PATH_MAX) return ENAMETOOLONG;
  std::string p = path[0] == '/' ? path : g->cwd + "/" + path;
  int links = 0;
  int cur = kRootIno, parent = kRootIno;
  std::string last;
  bool trailing = p.size() > 1 && p.back() == '/';
  std::vector<std::string> todo;  // reversed
  auto push = [&](const std::string& s) {
    std::vector<std::string> c;
    size_t i = 0;
    while (i < s.size()) {
      size_t j = s.find('/', i);
      if (j == std::string::npos) j = s.size();
      if (j > i) c.push_back(s.substr(i, j - i));
      i = j + 1;
    }
    for (size_t k = c.size(); k--;) todo.push_back(c[k]);
  };
  push(p);
  while (!todo.empty()) {
    std::string c = todo.back();
    todo.pop_back();
    Inode& d = I(cur);
    if (d.kind != sim::fs::kDir) return ENOTDIR;
    if (!(d.mode & 0100)) return EACCES;
    if (c == ".") { last = "."; parent = cur; continue; }
    if (c == "..") { cur = d.parent ? d.parent : kRootIno; parent = cur; last = ".."; continue; }
    if (c.size() > NAME_MAX) return ENAMETOOLONG;
    auto it = d.ents.find(c);
    if (it == d.ents.end()) {
      if (!todo.empty()) return ENOENT;
      if (par) *par = cur;
      if (name) *name = c;
      *out = 0;
      return 0;
    }
    int nx = it->second;
    Inode& n = I(nx);
    if (n.kind == sim::fs::kLink && (follow || !todo.empty() || trailing)) {
      if (++links > 40) return ELOOP;
      if (n.data.empty()) return ENOENT;
      if (n.data[0] == '/') cur = kRootIno;
      push(n.data);
      continue;
    }
    parent = cur;
    last = c;
    cur = nx;
  }
  if (trailing && I(cur).kind != sim::fs::kDir) return ENOTDIR;
  *out = cur;
  if (par) *par = parent;
  if (name) *name = last;
  return 0;
}
int Find(const std::string& path, bool follow, int* out) {
  int e = Walk(path, follow, out, nullptr, nullptr);
  if (e) return e;
  return *out ? 0 : ENOENT;
}
void LinkIn(int par, const std::string& name, int ino) {
  I(par).ents[name] = ino;
  I(par).mt = I(par).ct = Now();
  I(ino).nlink++;
  if (I(ino).kind == sim::fs::kDir) I(ino).parent = par;
}
void UnlinkFrom(int par, const std::string& name) {
  int ino = I(par).ents[name];
  I(par).ents.erase(name);
  I(par).mt = I(par).ct = Now();
  I(ino).nlink--;
  Release(ino);
}
// contents of shared mappings -> inode, before the contents are looked at
void SyncIn(int ino) {
  for (Map& m : g->maps)
    if (m.ino == ino && m.shared && m.write) {
      Inode& n = I(ino);
      if (m.off < n.data.size()) {
        size_t k = std::min<size_t>(m.len, n.data.size() - m.off);
        memcpy(&n.data[m.off], (void*)m.a, k);
      }
    }
}
// inode -> mappings, after the contents or the size changed
void SyncOut(int ino) {
  for (Map& m : g->maps)
    if (m.ino == ino && m.shared) {
      Inode& n = I(ino);
      size_t size = n.data.size();
      size_t valid = m.off < size ? std::min<size_t>(m.len, size - m.off) : 0;
      size_t pages = (valid + 4095) & ~4095ull, all = (m.len + 4095) & ~4095ull;
      Sys(SYS_mprotect, m.a, all, PROT_READ | PROT_WRITE);
      memcpy((void*)m.a, n.data.data() + (valid ? m.off : 0), valid);
      memset((void*)(m.a + valid), 0, all - valid);
      if (!m.write) Sys(SYS_mprotect, m.a, all, PROT_READ);
      if (pages < all) Sys(SYS_mprotect, m.a + pages, all - pages, PROT_NONE);
    }
}
int64_t Grow(Inode& n, uint64_t size, uint64_t from = 0) {  // returns size actually reached
  if (size <= n.data.size()) return size;
  uint64_t more = size - n.data.size();
  uint64_t room = g->capacity > g->used ? g->capacity - g->used : 0;
  if (more > room) { more = room; NoteFault(sim::kEnospc); }
  if (n.data.size() + more <= from) return n.data.size();  // nothing would be stored
  n.data.resize(n.data.size() + more, 0);
  g->used += more;
  return n.data.size();
}
int LowestFd() {
  int f = 3;
  for (auto& kv : g->fd) {
    if (kv.first != f) break;
    ++f;
  }
  return f;
}
OpenFile* OF(int fd) {
  auto it = g->fd.find(fd);
  if (it == g->fd.end()) return nullptr;
  return &g->of[it->second.of];
}
void BadFd(const char* what, int fd) {
  if (fd == -1 && strcmp(what, "close") != 0) return;  // plain EBADF: nobody's descriptor is used
  char b[96];
  snprintf(b, sizeof b, "%s of descriptor %d which is not open; ", what, fd);
  if (g->bad.size() < 400) g->bad += b;
}
int CloseFd(int fd) {
  auto it = g->fd.find(fd);
  if (it == g->fd.end()) { BadFd("close", fd); return Err(EBADF); }
  int o = it->second.of;
  g->fd.erase(it);
  OpenFile& f = g->of[o];
  if (--f.refs == 0) {
    int ino = f.ino;
    g->of.erase(o);
    Inode& n = I(ino);
    n.opens--;
    auto l = g->locks.find(ino);
    if (l != g->locks.end()) { l->second.erase(o); if (l->second.empty()) g->locks.erase(l); }
    Release(ino);
  }
  return 0;
}
int OpenIno(int ino, int flags) {
  int fd = LowestFd();
  int o = g->next_of++;
  OpenFile& f = g->of[o];
  f.ino = ino;
  f.flags = flags;
  f.refs = 1;
  I(ino).opens++;
  Fd& d = g->fd[fd];
  d.of = o;
  d.cloexec = flags & O_CLOEXEC;
  d.tid = CurTid();
  d.dir = I(ino).kind == sim::fs::kDir;
  return fd;
}
void Op() { g->ops++; AdvanceTime(200); }
bool F(Fault f, uint32_t* a = nullptr, uint32_t m = 0) { return Decide(f, a, m); }

int Open(const char* path, int flags, mode_t mode) {
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEmfile) || g->fd.size() >= kMaxFd) return Err(EMFILE);
  if (F(sim::kEacces)) return Err(EACCES);
  if (F(sim::kEio)) return Err(EIO);
  int ino, par;
  std::string name;
  int e = Walk(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), &ino, &par, &name);
  if (e) return Err(e);
  if (!ino) {
    if (!(flags & O_CREAT)) return Err(ENOENT);
    if (flags & O_DIRECTORY) return Err(EINVAL);
    if (!(I(par).mode & 0200)) return Err(EACCES);
    if (F(sim::kEnospc)) return Err(ENOSPC);
    ino = NewInode(sim::fs::kFile, mode & 07777 & ~022, I(par).dev);
    LinkIn(par, name, ino);
  } else {
    Inode& n = I(ino);
    if ((flags & O_CREAT) && (flags & O_EXCL)) return Err(EEXIST);
    if (n.kind == sim::fs::kLink) return Err(ELOOP);
    int acc = flags & O_ACCMODE;
    if (n.kind == sim::fs::kDir && (acc != O_RDONLY || (flags & O_CREAT))) return Err(EISDIR);
    if ((flags & O_DIRECTORY) && n.kind != sim::fs::kDir) return Err(ENOTDIR);
    if (acc != O_WRONLY && !(n.mode & 0400)) return Err(EACCES);
    if (acc != O_RDONLY && !(n.mode & 0200)) return Err(EACCES);
    if ((flags & O_TRUNC) && n.kind == sim::fs::kFile && acc != O_RDONLY) {
      SyncIn(ino);
      g->used -= n.data.size();
      n.data.clear();
      n.mt = n.ct = Now();
      SyncOut(ino);
    }
  }
  return OpenIno(ino, flags);
}

ssize_t ReadIno(Inode& n, void* buf, size_t len, uint64_t pos) {
  if (n.special == 1) return 0;
  if (n.special == 2) { memset(buf, 0, len); return len; }
  if (n.special == 3) {
    for (size_t i = 0; i < len; ++i) ((uint8_t*)buf)[i] = (uint8_t)Mix(g->rnd, i);
    g->rnd = Mix(g->rnd, len);
    return len;
  }
  SyncIn(n.ino);
  if (pos >= n.data.size()) return 0;
  size_t k = std::min<size_t>(len, n.data.size() - pos);
  memcpy(buf, n.data.data() + pos, k);
  return k;
}
void CheckBuf(const void* p, size_t n, bool w, const char* what) {
  if (HeapOwns(p) && !HeapAccessible(p, n)) {
    char b[160];
    snprintf(b, sizeof b, "memory error: %s of %zu bytes reaches outside the caller's live allocation", what, n);
    EndRun(5, b);
  }
}
ssize_t DoRead(int fd, void* buf, size_t len, int64_t at) {
  SyscallPoint();
  HeapScope hs;
  Op();
  OpenFile* f = OF(fd);
  if (!f) { BadFd("read", fd); return Err(EBADF); }
  if (at < -1) return Err(EINVAL);
  Inode& n = I(f->ino);
  if (n.kind == sim::fs::kDir) return Err(EISDIR);
  if ((f->flags & O_ACCMODE) == O_WRONLY) return Err(EBADF);
  if (!n.special) {
    if (F(sim::kEintr)) return Err(EINTR);
    if (F(sim::kEio)) return Err(EIO);
  }
  CheckBuf(buf, len, true, "read()");
  uint32_t a;
  if (len > 1 && F(sim::kShort, &a)) len = 1 + a % (len - 1 > 64 && (a & 1) ? 64 : len - 1);
  ssize_t r = ReadIno(n, buf, len, at >= 0 ? (uint64_t)at : f->pos);
  if (r > 0 && at < 0) f->pos += r;
  n.at = Now();
  return r;
}
ssize_t DoWrite(int fd, const void* buf, size_t len, int64_t at) {
  SyscallPoint();
  HeapScope hs;
  Op();
  OpenFile* f = OF(fd);
  if (!f) { BadFd("write", fd); return Err(EBADF); }
  if (at < -1) return Err(EINVAL);
  if ((f->flags & O_ACCMODE) == O_RDONLY) return Err(EBADF);
  Inode& n = I(f->ino);
  if (n.special) return len;
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEio)) return Err(EIO);
  if (F(sim::kEnospc)) return Err(ENOSPC);
  CheckBuf(buf, len, false, "write()");
  uint32_t a;
  if (len > 1 && F(sim::kShort, &a)) len = 1 + a % (len - 1 > 64 && (a & 1) ? 64 : len - 1);
  if (!len) return 0;
  SyncIn(f->ino);
  uint64_t pos = at >= 0 ? (uint64_t)at : f->pos;
  if (f->flags & O_APPEND) pos = n.data.size();
  uint64_t end = pos + len;
  if (end > n.data.size()) {
    uint64_t got = Grow(n, end, pos);
    if (got < end) {
      if (got <= pos) { SyncOut(f->ino); return Err(ENOSPC); }
      len = got - pos;
    }
  }
  memcpy(&n.data[pos], buf, len);
  if (at < 0) f->pos = pos + len;
  n.mt = n.ct = Now();
  SyncOut(f->ino);
  return len;
}
void FillStat(const Inode& n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_dev = n.dev;
  st->st_ino = n.ino;
  st->st_nlink = n.kind == sim::fs::kDir ? 2 : n.nlink;
  uint32_t t = n.kind == sim::fs::kDir ? S_IFDIR : n.kind == sim::fs::kLink ? S_IFLNK : n.kind == sim::fs::kSpecial ? S_IFCHR : S_IFREG;
  st->st_mode = t | (n.kind == sim::fs::kLink ? 0777 : n.mode);
  st->st_uid = st->st_gid = 1000;
  st->st_size = n.kind == sim::fs::kDir ? 4096 : n.data.size();
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_atim = n.at;
  st->st_mtim = n.mt;
  st->st_ctim = n.ct;
}
int DoStat(const char* path, struct stat* st, bool follow) {
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEio)) return Err(EIO);
  if (F(sim::kEacces)) return Err(EACCES);
  int ino;
  int e = Find(path, follow, &ino);
  if (e) return Err(e);
  SyncIn(ino);
  FillStat(I(ino), st);
  return 0;
}
int DoFstat(int fd, struct stat* st) {
  SyscallPoint();
  HeapScope hs;
  Op();
  OpenFile* f = OF(fd);
  if (!f) { BadFd("fstat", fd); return Err(EBADF); }
  if (F(sim::kEio)) return Err(EIO);
  FillStat(I(f->ino), st);
  return 0;
}
int64_t DoSeek(int fd, int64_t off, int whence) {
  HeapScope hs;
  g->ops++;
  OpenFile* f = OF(fd);
  if (!f) { BadFd("lseek", fd); return Err(EBADF); }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)f->pos : whence == SEEK_END ? (int64_t)I(f->ino).data.size() : -1;
  if (base < 0) return Err(EINVAL);
  int64_t p;
  if (__builtin_add_overflow(base, off, &p) || p < 0) return Err(EINVAL);
  f->pos = p;
  return p;
}
int DoTruncate(int fd, int64_t len) {
  SyscallPoint();
  HeapScope hs;
  Op();
  OpenFile* f = OF(fd);
  if (!f) { BadFd("ftruncate", fd); return Err(EBADF); }
  if (len < 0 || (f->flags & O_ACCMODE) == O_RDONLY) return Err(EINVAL);
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEio)) return Err(EIO);
  if (F(sim::kEnospc)) return Err(ENOSPC);
  Inode& n = I(f->ino);
  if (n.special) return Err(EINVAL);
  SyncIn(f->ino);
  if (len > (1ll << 32)) return Err(EFBIG);
  if ((uint64_t)len > n.data.size()) {
    uint64_t more = len - n.data.size();  // sparse: always succeeds
    n.data.resize(len, 0);
    g->used += more;
  } else {
    g->used -= n.data.size() - len;
    n.data.resize(len);
  }
  n.mt = n.ct = Now();
  SyncOut(f->ino);
  return 0;
}

// ---- FILE streams -----------------------------------------------------------------
ssize_t CookieRead(void* c, char* b, size_t n) { return DoRead((int)(intptr_t)c, b, n, -1); }
ssize_t CookieWrite(void* c, const char* b, size_t n) {
  // stdio's file back end keeps writing until everything is out or an error occurs
  size_t done = 0;
  while (done < n) {
    ssize_t r = DoWrite((int)(intptr_t)c, b + done, n - done, -1);
    if (r <= 0) break;
    done += r;
  }
  return done;
}
int CookieSeek(void* c, off64_t* p, int w) {
  int64_t r = DoSeek((int)(intptr_t)c, *p, w);
  if (r < 0) return -1;
  *p = r;
  return 0;
}

int CookieClose(void* c) { return SimClose((int)(intptr_t)c); }
int ModeFlags(const char* m) {
  int f;
  bool plus = false;
  int extra = 0;
  for (const char* p = m + 1; *p && *p != ','; ++p) {
    if (*p == '+') plus = true;
    if (*p == 'e') extra |= O_CLOEXEC;
    if (*p == 'x') extra |= O_EXCL;
  }
  switch (*m) {
    case 'r': f = plus ? O_RDWR : O_RDONLY; break;
    case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: return -1;
  }
  return f | extra;
}
FILE* Stream(int fd, const char* mode) {
  char m[4] = {mode[0], 0, 0, 0};
  for (const char* p = mode + 1; *p && *p != ','; ++p)
    if (*p == '+') m[1] = '+';
  cookie_io_functions_t io{CookieRead, CookieWrite, CookieSeek, CookieClose};
  FILE* f = fopencookie((void*)(intptr_t)fd, m, io);
  if (f) { HeapScope hs; g->files[f] = fd; }
  return f;
}

std::string TreeText(int ino, const std::string& rel, bool contents, std::vector<std::string>* list) {
  std::string out;
  Inode& n = I(ino);
  for (auto& kv : n.ents) {
    Inode& c = I(kv.second);
    std::string r = rel + kv.first;
    if (c.kind == sim::fs::kDir) {
      if (list) list->push_back(r + "/");
      out += r + "/ d\n";
      out += TreeText(kv.second, r + "/", contents, list);
    } else {
      if (list) list->push_back(r);
      SyncIn(kv.second);
      out += r + (c.kind == sim::fs::kLink ? " l " : " f ") + std::to_string(c.data.size()) + ":" + c.data + "\n";
    }
  }
  return out;
}
}  // namespace

void VfsReset() {
  g = new Fs();
  g->next_ino = 1;
  int r = NewInode(sim::fs::kDir, 0755, 1);
  I(r).nlink = 1;
  I(r).parent = r;
  sim::fs::MkdirP("/tmp", 0777);
  sim::fs::MkdirP("/dev/shm", 0777);
  int par;
  Find("/dev", true, &par);
  const char* names[] = {"null", "zero", "urandom", "random"};
  for (int i = 0; i < 4; ++i) {
    int x = NewInode(sim::fs::kSpecial, 0666, 1);
    I(x).special = i == 3 ? 3 : i + 1;
    LinkIn(par, names[i], x);
  }
}
void VfsCrashThread(int tid) {
  HeapScope hs;
  std::vector<int> fds;
  for (auto& kv : g->fd) if (kv.second.tid == tid) fds.push_back(kv.first);
  for (int f : fds) CloseFd(f);
  for (auto it = g->dirs.begin(); it != g->dirs.end();)
    if ((*it)->tid == tid) it = g->dirs.erase(it); else ++it;
}
}  // namespace rt

namespace sim {
namespace fs {
using namespace rt;
void MkdirP(const std::string& path, unsigned mode) {
  HeapScope hs;
  std::string cur;
  size_t i = 1;
  while (i <= path.size()) {
    size_t j = path.find('/', i);
    if (j == std::string::npos) j = path.size();
    cur = path.substr(0, j);
    int ino, par;
    std::string name;
    int e = Walk(cur, true, &ino, &par, &name);
    if (!e && !ino) {
      int d = NewInode(kDir, mode, I(par).dev);
      LinkIn(par, name, d);
    }
    i = j + 1;
  }
}
void Put(const std::string& path, const std::string& data, unsigned mode) {
  HeapScope hs;
  int ino, par;
  std::string name;
  if (Walk(path, true, &ino, &par, &name)) Fail("sim::fs::Put: bad path %s", path.c_str());
  if (!ino) {
    ino = NewInode(kFile, mode, I(par).dev);
    LinkIn(par, name, ino);
  }
  Inode& n = I(ino);
  g->used += data.size() - n.data.size();
  n.data = std::string(data.data(), data.size());
  n.mode = mode;
  SyncOut(ino);
}
void Symlink(const std::string& target, const std::string& path) {
  HeapScope hs;
  int ino, par;
  std::string name;
  if (Walk(path, false, &ino, &par, &name) || ino) Fail("sim::fs::Symlink: bad path");
  ino = NewInode(kLink, 0777, I(par).dev);
  I(ino).data = std::string(target.data(), target.size());
  LinkIn(par, name, ino);
}
bool Get(const std::string& path, std::string* data) {
  int ino;
  size_t n;
  {
    HeapScope hs;
    if (Find(path, true, &ino) || I(ino).kind != kFile) return false;
    SyncIn(ino);
    n = I(ino).data.size();
  }
  if (data) data->assign(I(ino).data.data(), n);
  return true;
}
Stat Lookup(const std::string& path) {
  HeapScope hs;
  int ino;
  if (Find(path, false, &ino)) return Stat{kNone, 0, 0, 0};
  Inode& n = I(ino);
  return Stat{n.kind, n.data.size(), n.mode, (uint64_t)n.ino};
}
std::vector<std::string> Tree(const std::string& root) {
  std::vector<std::string>* l;
  {
    HeapScope hs;
    l = new std::vector<std::string>();
    int ino;
    if (!Find(root, true, &ino) && I(ino).kind == kDir) TreeText(ino, "", false, l);
  }
  std::vector<std::string> out;
  for (auto& s : *l) out.push_back(std::string(s.data(), s.size()));
  HeapScope hs;
  delete l;
  return out;
}
std::string Snapshot(const std::string& root) {
  std::string* t;
  {
    HeapScope hs;
    t = new std::string();
    int ino;
    if (Find(root, false, &ino)) *t = "absent";
    else if (I(ino).kind == kDir) *t = "dir\n" + TreeText(ino, "", true, nullptr);
    else { SyncIn(ino); *t = (I(ino).kind == kLink ? "link " : "file ") + I(ino).data; }
  }
  std::string out(t->data(), t->size());
  HeapScope hs;
  delete t;
  return out;
}
size_t OpenFds() { return g->fd.size(); }
size_t OpenDirs() { return g->dirs.size(); }
size_t Maps() { return g->maps.size(); }
uint64_t Ops() { return g ? g->ops : 0; }
std::string BadOps() { return std::string(g->bad.data(), g->bad.size()); }
void SetCapacity(uint64_t b) { g->capacity = b == ~0ull ? b : g->used + b; }
void SetMount(const std::string& p, int dev) {
  MkdirP(p);
  HeapScope hs;
  int ino;
  Find(p, true, &ino);
  I(ino).dev = dev;
}
}  // namespace fs
}  // namespace sim

using namespace rt;

// ---- interposed calls --------------------------------------------------------------
extern "C" {
#define RET(x) do { long r_ = (x); if (r_ < 0 && r_ > -4096) { errno = -r_; return -1; } return r_; } while (0)
static bool Mine(int fd) { return On() && fd >= 3; }

int open(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!On()) RET(Sys(SYS_openat, AT_FDCWD, (long)p, flags, m));
  return Open(p, flags, m);
}
int open64(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return open(p, flags, m);
}
int __open_2(const char* p, int flags) { return open(p, flags); }
int __open64_2(const char* p, int flags) { return open(p, flags); }
int openat(int d, const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!On()) RET(Sys(SYS_openat, d, (long)p, flags, m));
  return Open(p, flags, m);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return creat(p, m); }
int SimClose(int fd) {
  if (!On() || (fd >= 0 && fd < 3)) RET(Sys(SYS_close, fd));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (CloseFd(fd)) return -1;
  // the descriptor is gone whatever close reports (Linux semantics)
  if (F(sim::kEintr)) return Err(EINTR);
  return 0;
}
__attribute__((weak)) int close(int fd) { return SimClose(fd); }
// The library may wrap close() itself and look the system's one up.
void* __real_dlsym(void*, const char*);
void* __wrap_dlsym(void* h, const char* n) {
  if (!strcmp(n, "close") || !strcmp(n, "__interceptor___close")) return (void*)SimClose;
  return __real_dlsym(h, n);
}
ssize_t read(int fd, void* b, size_t n) { if (!Mine(fd)) RET(Sys(SYS_read, fd, (long)b, n)); return DoRead(fd, b, n, -1); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!Mine(fd)) RET(Sys(SYS_pread64, fd, (long)b, n, o));
  if (o < 0) return Err(EINVAL);
  return DoRead(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) { if (!Mine(fd)) RET(Sys(SYS_write, fd, (long)b, n)); return DoWrite(fd, b, n, -1); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!Mine(fd)) RET(Sys(SYS_pwrite64, fd, (long)b, n, o));
  if (o < 0) return Err(EINVAL);
  return DoWrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!Mine(fd)) RET(Sys(SYS_readv, fd, (long)v, c));
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) {
    ssize_t r = DoRead(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!Mine(fd)) RET(Sys(SYS_writev, fd, (long)v, c));
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = DoWrite(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
off_t lseek(int fd, off_t o, int w) { if (!Mine(fd)) RET(Sys(SYS_lseek, fd, o, w)); return DoSeek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t l) { if (!Mine(fd)) RET(Sys(SYS_ftruncate, fd, l)); return DoTruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int fallocate(int fd, int mode, off_t o, off_t l) {
  if (!Mine(fd)) RET(Sys(SYS_fallocate, fd, mode, o, l));
  SyscallPoint();
  HeapScope hs;
  Op();
  OpenFile* f = OF(fd);
  if (!f) { BadFd("fallocate", fd); return Err(EBADF); }
  if (o < 0 || l <= 0) return Err(EINVAL);
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEnospc)) return Err(ENOSPC);
  if (F(sim::kEinval)) return Err(EOPNOTSUPP);
  Inode& n = I(f->ino);
  if ((uint64_t)(o + l) > n.data.size()) {
    SyncIn(f->ino);
    uint64_t need = o + l - n.data.size();
    if (g->capacity != ~0ull && g->used + need > g->capacity) { NoteFault(sim::kEnospc); return Err(ENOSPC); }
    Grow(n, o + l);
    SyncOut(f->ino);
  }
  return 0;
}
int fallocate64(int fd, int mode, off64_t o, off64_t l) { return fallocate(fd, mode, o, l); }
int posix_fallocate(int fd, off_t o, off_t l) { int e = errno; int r = fallocate(fd, 0, o, l); if (r) { r = errno; errno = e; } return r; }
int fsync(int fd) {
  if (!Mine(fd)) RET(Sys(SYS_fsync, fd));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (!OF(fd)) { BadFd("fsync", fd); return Err(EBADF); }
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEio)) return Err(EIO);
  return 0;
}
int fdatasync(int fd) { if (!Mine(fd)) RET(Sys(SYS_fdatasync, fd)); return fsync(fd); }
int posix_fadvise(int fd, off_t, off_t, int) { if (!Mine(fd)) return 0; HeapScope hs; Op(); return OF(fd) ? 0 : EBADF; }
int posix_fadvise64(int fd, off64_t a, off64_t b, int c) { return posix_fadvise(fd, a, b, c); }
int stat(const char* p, struct stat* s) { if (!On()) RET(Sys(SYS_stat, (long)p, (long)s)); return DoStat(p, s, true); }
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int lstat(const char* p, struct stat* s) { if (!On()) RET(Sys(SYS_lstat, (long)p, (long)s)); return DoStat(p, s, false); }
int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int fstat(int fd, struct stat* s) { if (!Mine(fd)) RET(Sys(SYS_fstat, fd, (long)s)); return DoFstat(fd, s); }
int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
int fstatat(int d, const char* p, struct stat* s, int fl) {
  if (!On()) RET(Sys(SYS_newfstatat, d, (long)p, (long)s, fl));
  return DoStat(p, s, !(fl & AT_SYMLINK_NOFOLLOW));
}
int fstatat64(int d, const char* p, struct stat64* s, int fl) { return fstatat(d, p, (struct stat*)s, fl); }
int access(const char* p, int m) {
  if (!On()) RET(Sys(SYS_access, (long)p, m));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEacces)) return Err(EACCES);
  int ino;
  int e = Find(p, true, &ino);
  if (e) return Err(e);
  uint32_t md = I(ino).mode;
  if ((m & R_OK) && !(md & 0400)) return Err(EACCES);
  if ((m & W_OK) && !(md & 0200)) return Err(EACCES);
  if ((m & X_OK) && !(md & 0100)) return Err(EACCES);
  return 0;
}
int faccessat(int, const char* p, int m, int) { return access(p, m); }
int unlink(const char* p) {
  if (!On()) RET(Sys(SYS_unlink, (long)p));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEacces)) return Err(EACCES);
  if (F(sim::kEio)) return Err(EIO);
  int ino, par;
  std::string name;
  int e = Walk(p, false, &ino, &par, &name);
  if (e) return Err(e);
  if (!ino) return Err(ENOENT);
  if (I(ino).kind == sim::fs::kDir) return Err(EISDIR);
  if (!(I(par).mode & 0200)) return Err(EACCES);
  SyncIn(ino);
  UnlinkFrom(par, name);
  return 0;
}
int rmdir(const char* p) {
  if (!On()) RET(Sys(SYS_rmdir, (long)p));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEacces)) return Err(EACCES);
  if (F(sim::kEio)) return Err(EIO);
  int ino, par;
  std::string name;
  int e = Walk(p, false, &ino, &par, &name);
  if (e) return Err(e);
  if (!ino) return Err(ENOENT);
  if (I(ino).kind != sim::fs::kDir) return Err(ENOTDIR);
  if (name == "." || name == ".." || ino == kRootIno) return Err(EINVAL);
  if (!I(ino).ents.empty()) return Err(ENOTEMPTY);
  if (!(I(par).mode & 0200)) return Err(EACCES);
  UnlinkFrom(par, name);
  return 0;
}
int remove(const char* p) {
  if (!On()) { if (unlink(p) == 0) return 0; return errno == EISDIR ? rmdir(p) : -1; }
  int r = unlink(p);
  if (r && errno == EISDIR) r = rmdir(p);
  return r;
}
int mkdir(const char* p, mode_t m) {
  if (!On()) RET(Sys(SYS_mkdir, (long)p, m));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEacces)) return Err(EACCES);
  if (F(sim::kEnospc)) return Err(ENOSPC);
  int ino, par;
  std::string name, q = p;
  while (q.size() > 1 && q.back() == '/') q.pop_back();
  int e = Walk(q, false, &ino, &par, &name);
  if (e) return Err(e);
  if (ino) return Err(EEXIST);
  if (!(I(par).mode & 0200)) return Err(EACCES);
  int d = NewInode(sim::fs::kDir, m & 07777 & ~022, I(par).dev);
  LinkIn(par, name, d);
  return 0;
}
int rename(const char* a, const char* b) {
  if (!On()) RET(Sys(SYS_rename, (long)a, (long)b));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEacces)) return Err(EACCES);
  if (F(sim::kExdev)) return Err(EXDEV);
  int ia, pa, ib, pb;
  std::string na, nb, qa = a, qb = b;
  while (qa.size() > 1 && qa.back() == '/') qa.pop_back();
  while (qb.size() > 1 && qb.back() == '/') qb.pop_back();
  int e = Walk(qa, false, &ia, &pa, &na);
  if (e) return Err(e);
  if (!ia) return Err(ENOENT);
  e = Walk(qb, false, &ib, &pb, &nb);
  if (e) return Err(e);
  if (I(pa).dev != I(pb).dev || I(ia).dev != I(pa).dev) return Err(EXDEV);
  if (!(I(pa).mode & 0200) || !(I(pb).mode & 0200)) return Err(EACCES);
  if (ib == ia) return 0;
  if (I(ia).kind == sim::fs::kDir) {
    for (int x = pb;; x = I(x).parent) {
      if (x == ia) return Err(EINVAL);
      if (x == kRootIno) break;
    }
  }
  if (ib) {
    bool da = I(ia).kind == sim::fs::kDir, db = I(ib).kind == sim::fs::kDir;
    if (da && !db) return Err(ENOTDIR);
    if (!da && db) return Err(EISDIR);
    if (db && !I(ib).ents.empty()) return Err(ENOTEMPTY);
    SyncIn(ib);
    UnlinkFrom(pb, nb);
  }
  I(pa).ents.erase(na);
  I(ia).nlink--;
  LinkIn(pb, nb, ia);
  return 0;
}
int symlink(const char* t, const char* p) {
  if (!On()) RET(Sys(SYS_symlink, (long)t, (long)p));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEacces)) return Err(EACCES);
  if (F(sim::kEnospc)) return Err(ENOSPC);
  int ino, par;
  std::string name;
  if (!*t) return Err(ENOENT);
  int e = Walk(p, false, &ino, &par, &name);
  if (e) return Err(e);
  if (ino) return Err(EEXIST);
  int l = NewInode(sim::fs::kLink, 0777, I(par).dev);
  I(l).data = t;
  LinkIn(par, name, l);
  return 0;
}
int link(const char* a, const char* p) {
  if (!On()) RET(Sys(SYS_link, (long)a, (long)p));
  SyscallPoint();
  HeapScope hs;
  Op();
  int ia, ino, par;
  std::string name;
  int e = Find(a, false, &ia);
  if (e) return Err(e);
  if (I(ia).kind == sim::fs::kDir) return Err(EPERM);
  e = Walk(p, false, &ino, &par, &name);
  if (e) return Err(e);
  if (ino) return Err(EEXIST);
  LinkIn(par, name, ia);
  return 0;
}
ssize_t readlink(const char* p, char* b, size_t n) {
  if (!On()) RET(Sys(SYS_readlink, (long)p, (long)b, n));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEacces)) return Err(EACCES);
  int ino;
  int e = Find(p, false, &ino);
  if (e) return Err(e);
  if (I(ino).kind != sim::fs::kLink) return Err(EINVAL);
  size_t k = std::min(n, I(ino).data.size());
  memcpy(b, I(ino).data.data(), k);
  return k;
}
int chmod(const char* p, mode_t m) {
  if (!On()) RET(Sys(SYS_chmod, (long)p, m));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEacces)) return Err(EACCES);
  int ino;
  int e = Find(p, true, &ino);
  if (e) return Err(e);
  I(ino).mode = m & 07777;
  return 0;
}
int fchmod(int fd, mode_t m) {
  if (!Mine(fd)) RET(Sys(SYS_fchmod, fd, m));
  HeapScope hs;
  OpenFile* f = OF(fd);
  if (!f) return Err(EBADF);
  I(f->ino).mode = m & 07777;
  return 0;
}
static int SetTimes(int ino, const struct timespec t[2]) {
  Inode& n = I(ino);
  timespec now = Now();
  if (!t) { n.at = n.mt = now; return 0; }
  for (int i = 0; i < 2; ++i)
    if (t[i].tv_nsec != UTIME_NOW && t[i].tv_nsec != UTIME_OMIT && (t[i].tv_nsec < 0 || t[i].tv_nsec > 999999999)) return Err(EINVAL);
  if (t[0].tv_nsec != UTIME_OMIT) n.at = t[0].tv_nsec == UTIME_NOW ? now : t[0];
  if (t[1].tv_nsec != UTIME_OMIT) n.mt = t[1].tv_nsec == UTIME_NOW ? now : t[1];
  n.ct = now;
  return 0;
}
int futimens(int fd, const struct timespec t[2]) {
  if (!Mine(fd)) RET(Sys(SYS_utimensat, fd, 0, (long)t, 0));
  SyscallPoint();
  HeapScope hs;
  Op();
  OpenFile* f = OF(fd);
  if (!f) { BadFd("futimens", fd); return Err(EBADF); }
  if (F(sim::kEio)) return Err(EIO);
  return SetTimes(f->ino, t);
}
int utimensat(int d, const char* p, const struct timespec t[2], int fl) {
  if (!On()) RET(Sys(SYS_utimensat, d, (long)p, (long)t, fl));
  HeapScope hs;
  int ino;
  int e = Find(p, true, &ino);
  if (e) return Err(e);
  return SetTimes(ino, t);
}
static void RandName(char* x) {
  static const char c[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  // a small space of names on purpose: collisions must be handled
  for (int i = 0; i < 6; ++i) { g->rnd = Mix(g->rnd, i); x[i] = i < 5 ? 'a' : c[g->rnd % 7]; }
}
int mkstemp(char* t) {
  size_t n = strlen(t);
  if (n < 6 || memcmp(t + n - 6, "XXXXXX", 6)) return Err(EINVAL);
  if (!On()) { static auto f = (int (*)(char*))dlsym(RTLD_NEXT, "mkstemp"); return f(t); }
  std::string* base;
  { HeapScope hs; base = new std::string(t); }
  int r = -1;
  for (int k = 0; k < 200; ++k) {
    char* x = t + n - 6;
    RandName(x);
    if (k > 20) snprintf(x, 7, "%06d", k);
    r = Open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (r >= 0 || errno != EEXIST) break;
  }
  if (r < 0 && errno == EINTR) memcpy(t, base->c_str(), n);  // the template is intact for a retry
  HeapScope hs;
  int e = errno;
  delete base;
  errno = e;
  return r;
}
int mkstemp64(char* t) { return mkstemp(t); }
int mkostemp(char* t, int) { return mkstemp(t); }
char* mkdtemp(char* t) {
  size_t n = strlen(t);
  if (n < 6 || memcmp(t + n - 6, "XXXXXX", 6)) { errno = EINVAL; return nullptr; }
  if (!On()) { static auto f = (char* (*)(char*))dlsym(RTLD_NEXT, "mkdtemp"); return f(t); }
  for (int k = 0; k < 200; ++k) {
    char* x = t + n - 6;
    RandName(x);
    if (k > 20) snprintf(x, 7, "%06d", k);
    if (mkdir(t, 0700) == 0) return t;
    if (errno != EEXIST) return nullptr;
  }
  return nullptr;
}
char* realpath(const char* p, char* out) {
  if (!On()) { static auto f = (char* (*)(const char*, char*))dlsym(RTLD_NEXT, "realpath"); return f(p, out); }
  SyscallPoint();
  std::string* s;
  {
    HeapScope hs;
    Op();
    if (F(sim::kEacces)) { errno = EACCES; return nullptr; }
    int ino;
    int e = Find(p, true, &ino);
    if (e) { errno = e; return nullptr; }
    s = new std::string();
    // climb to the root
    if (I(ino).kind != sim::fs::kDir) {
      int par;
      std::string name;
      int cur;
      Walk(p, true, &cur, &par, &name);
      *s = "/" + name;
      ino = par;
    }
    while (ino != kRootIno) {
      int par = I(ino).parent;
      for (auto& kv : I(par).ents) if (kv.second == ino) { *s = "/" + kv.first + *s; break; }
      ino = par;
    }
    if (s->empty()) *s = "/";
  }
  if (!out) out = (char*)malloc(PATH_MAX);
  memcpy(out, s->c_str(), s->size() + 1);
  HeapScope hs;
  delete s;
  return out;
}
char* __realpath_chk(const char* p, char* out, size_t) { return realpath(p, out); }
char* getcwd(char* b, size_t n) {
  if (!On()) { static auto f = (char* (*)(char*, size_t))dlsym(RTLD_NEXT, "getcwd"); return f(b, n); }
  SyscallPoint();
  if (F(sim::kEacces)) { errno = EACCES; return nullptr; }
  if (!b) b = (char*)malloc(n = PATH_MAX);
  if (g->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
  memcpy(b, g->cwd.c_str(), g->cwd.size() + 1);
  return b;
}
int chdir(const char* p) {
  if (!On()) RET(Sys(SYS_chdir, (long)p));
  char buf[PATH_MAX];
  struct stat st;
  if (stat(p, &st)) return -1;
  if (!S_ISDIR(st.st_mode)) return Err(ENOTDIR);
  if (!realpath(p, buf)) return -1;
  HeapScope hs;
  g->cwd = buf;
  return 0;
}
long pathconf(const char* p, int n) {
  if (!On()) { static auto f = (long (*)(const char*, int))dlsym(RTLD_NEXT, "pathconf"); return f(p, n); }
  return n == _PC_NAME_MAX ? 255 : 4096;
}
int dup(int fd) {
  if (!Mine(fd)) RET(Sys(SYS_dup, fd));
  SyscallPoint();
  HeapScope hs;
  Op();
  auto it = g->fd.find(fd);
  if (it == g->fd.end()) { BadFd("dup", fd); return Err(EBADF); }
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEmfile) || g->fd.size() >= kMaxFd) return Err(EMFILE);
  int n = LowestFd();
  int o = it->second.of;
  Fd& d = g->fd[n];
  d.of = o;
  d.tid = CurTid();
  g->of[o].refs++;
  return n;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!Mine(fd)) RET(Sys(SYS_fcntl, fd, cmd, arg));
  SyscallPoint();
  HeapScope hs;
  g->ops++;
  auto it = g->fd.find(fd);
  if (it == g->fd.end()) { BadFd("fcntl", fd); return Err(EBADF); }
  OpenFile& f = g->of[it->second.of];
  switch (cmd) {
    case F_GETFL: return f.flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC);
    case F_SETFL: f.flags = (f.flags & ~(O_APPEND | O_NONBLOCK)) | (arg & (O_APPEND | O_NONBLOCK)); return 0;
    case F_GETFD: return it->second.cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: it->second.cloexec = arg & FD_CLOEXEC; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: return dup(fd);
    case F_SETLK: case F_SETLKW: {
      if (F(sim::kEintr)) return Err(EINTR);
      struct flock* l = (struct flock*)arg;
      auto& held = g->locks[f.ino];
      if (l->l_type == F_UNLCK) { held.erase(it->second.of); return 0; }
      for (auto& k : held)
        if (k.first != it->second.of && (k.second == F_WRLCK || l->l_type == F_WRLCK)) return Err(EAGAIN);
      held[it->second.of] = l->l_type;
      return 0;
    }
  }
  return Err(EINVAL);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int flock(int fd, int op) { if (!Mine(fd)) RET(Sys(SYS_flock, fd, op)); return 0; }
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap;
  va_start(ap, rq);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!Mine(fd)) RET(Sys(SYS_ioctl, fd, rq, arg));
  return Err(ENOTTY);
}
int poll(struct pollfd* p, nfds_t n, int to) {
  if (!On()) RET(Sys(SYS_poll, (long)p, n, to));
  for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events & (POLLIN | POLLOUT);
  return n;
}
int isatty(int fd) {
  if (Mine(fd)) { errno = ENOTTY; return 0; }
  return 0;
}
int pipe2(int fds[2], int fl) { if (!On()) RET(Sys(SYS_pipe2, (long)fds, fl)); return Err(EMFILE); }
int pipe(int fds[2]) { return pipe2(fds, 0); }
ssize_t sendfile(int out, int in, off_t* off, size_t n) {
  if (!Mine(out)) RET(Sys(SYS_sendfile, out, in, (long)off, n));
  SyscallPoint();
  HeapScope hs;
  Op();
  OpenFile* fi = OF(in);
  OpenFile* fo = OF(out);
  if (!fi || !fo) { BadFd("sendfile", fi ? out : in); return Err(EBADF); }
  if (fo->flags & O_APPEND) return Err(EINVAL);
  if (F(sim::kEintr)) return Err(EINTR);
  if (F(sim::kEinval)) return Err(EINVAL);
  if (F(sim::kEio)) return Err(EIO);
  if (F(sim::kEnospc)) return Err(ENOSPC);
  Inode& a = I(fi->ino);
  if (a.kind == sim::fs::kDir) return Err(EINVAL);
  uint32_t x;
  if (n > 1 && F(sim::kShort, &x)) n = 1 + x % (n - 1);
  uint64_t pos = off ? (uint64_t)*off : fi->pos;
  SyncIn(fi->ino);
  if (pos >= a.data.size()) return 0;
  n = std::min<uint64_t>(n, a.data.size() - pos);
  n = std::min<uint64_t>(n, 0x7ffff000);
  std::string tmp = a.data.substr(pos, n);
  Inode& b = I(fo->ino);
  SyncIn(fo->ino);
  uint64_t end = fo->pos + n;
  if (end > b.data.size()) {
    uint64_t got = Grow(b, end, fo->pos);
    if (got < end) {
      if (got <= fo->pos) { SyncOut(fo->ino); return Err(ENOSPC); }
      n = got - fo->pos;
    }
  }
  memcpy(&b.data[fo->pos], tmp.data(), n);
  fo->pos += n;
  if (off) *off += n; else fi->pos += n;
  b.mt = b.ct = Now();
  SyncOut(fo->ino);
  return n;
}
ssize_t sendfile64(int o, int i, off64_t* off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int in, off64_t* oi, int out, off64_t* oo, size_t n, unsigned fl) {
  if (!On()) RET(Sys(SYS_copy_file_range, in, (long)oi, out, (long)oo, n, fl));
  return Err(EXDEV);
}

// ---- directories ----------------------------------------------------------------------
DIR* opendir(const char* p) {
  if (!On()) { static auto f = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir"); return f(p); }
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEmfile) || g->fd.size() >= kMaxFd) { errno = EMFILE; return nullptr; }
  if (F(sim::kEacces)) { errno = EACCES; return nullptr; }
  int ino;
  int e = Find(p, true, &ino);
  if (e) { errno = e; return nullptr; }
  if (I(ino).kind != sim::fs::kDir) { errno = ENOTDIR; return nullptr; }
  if (!(I(ino).mode & 0400)) { errno = EACCES; return nullptr; }
  DirH* d = new DirH();
  d->fd = -1;
  d->tid = CurTid();
  d->ents.push_back({".", ino});
  d->ents.push_back({"..", I(ino).parent});
  for (auto& kv : I(ino).ents) d->ents.push_back(kv);
  // directory order is arbitrary
  Rng r{g->rnd ^ ino};
  for (size_t i = d->ents.size(); i > 1; --i) std::swap(d->ents[i - 1], d->ents[r.Below(i)]);
  g->dirs.insert(d);
  return (DIR*)d;
}
struct dirent* readdir(DIR* dp) {
  DirH* d = (DirH*)dp;
  if (!On() || !g->dirs.count(d)) {
    static auto f = (struct dirent * (*)(DIR*)) dlsym(RTLD_NEXT, "readdir");
    if (On()) { sim::Fail("readdir on a directory handle that is not open"); }
    return f(dp);
  }
  SyscallPoint();
  HeapScope hs;
  Op();
  if (F(sim::kEio)) { errno = EIO; return nullptr; }
  while (d->pos < d->ents.size()) {
    auto& e = d->ents[d->pos++];
    if (!g->in.count(e.second)) continue;
    memset(&d->de, 0, sizeof d->de);
    d->de.d_ino = e.second;
    d->de.d_reclen = sizeof d->de;
    Inode& n = I(e.second);
    d->de.d_type = n.kind == sim::fs::kDir ? DT_DIR : n.kind == sim::fs::kLink ? DT_LNK : n.kind == sim::fs::kSpecial ? DT_CHR : DT_REG;
    if (Mix(g->rnd, 5) % 3 == 0) d->de.d_type = DT_UNKNOWN;
    strncpy(d->de.d_name, e.first.c_str(), 255);
    return (struct dirent*)&d->de;
  }
  return nullptr;
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* dp) {
  DirH* d = (DirH*)dp;
  if (!On()) { static auto f = (int (*)(DIR*))dlsym(RTLD_NEXT, "closedir"); return f(dp); }
  if (!g->dirs.count(d)) { g->bad += "closedir of a handle that is not open; "; return Err(EBADF); }
  SyscallPoint();
  HeapScope hs;
  Op();
  g->dirs.erase(d);
  delete d;
  return 0;
}

// ---- FILE ------------------------------------------------------------------------------
FILE* fopen(const char* p, const char* m) {
  if (!On()) { static auto f = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); return f(p, m); }
  int fl = ModeFlags(m);
  if (fl < 0) { errno = EINVAL; return nullptr; }
  int fd = Open(p, fl, 0666);
  if (fd < 0) return nullptr;
  return Stream(fd, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) {
  if (!Mine(fd)) { static auto f = (FILE * (*)(int, const char*)) dlsym(RTLD_NEXT, "fdopen"); return f(fd, m); }
  if (!OF(fd)) { HeapScope hs; BadFd("fdopen", fd); errno = EBADF; return nullptr; }
  if (F(sim::kEmfile)) { errno = ENOMEM; return nullptr; }
  int fl = ModeFlags(m);
  if (fl < 0) { errno = EINVAL; return nullptr; }
  if (fl & O_APPEND) OF(fd)->flags |= O_APPEND;
  return Stream(fd, m);
}
int fileno(FILE* f) {
  if (On()) {
    auto it = g->files.find(f);
    if (it != g->files.end()) return it->second;
  }
  static auto r = (int (*)(FILE*))dlsym(RTLD_NEXT, "fileno");
  return r(f);
}
int fileno_unlocked(FILE* f) { return fileno(f); }
int fclose(FILE* f) {
  static auto r = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  if (On()) {
    HeapScope hs;
    g->files.erase(f);
  }
  return r(f);
}

// ---- mappings ----------------------------------------------------------------------------
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (!On() || (flags & MAP_ANONYMOUS) || fd < 3) {
    long r = Sys(SYS_mmap, (long)addr, len, prot, flags, fd, off);
    if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
    return (void*)r;
  }
  SyscallPoint();
  HeapScope hs;
  Op();
  auto fail = [](int e) { errno = e; return MAP_FAILED; };
  OpenFile* f = OF(fd);
  if (!f) { BadFd("mmap", fd); return fail(EBADF); }
  if (!len || (off & 4095)) return fail(EINVAL);
  if (F(sim::kMapFail)) return fail(ENOMEM);
  int acc = f->flags & O_ACCMODE;
  if (acc == O_WRONLY) return fail(EACCES);
  if ((flags & MAP_SHARED) && (prot & PROT_WRITE) && acc != O_RDWR) return fail(EACCES);
  Inode& n = I(f->ino);
  if (n.kind != sim::fs::kFile) return fail(ENODEV);
  SyncIn(f->ino);
  size_t all = (len + 4095) & ~4095ull;
  uintptr_t a = g->next_map;
  g->next_map += all + 4096 * 4;
  long r = Sys(SYS_mmap, a, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  if (r != (long)a) return fail(ENOMEM);
  size_t valid = (uint64_t)off < n.data.size() ? std::min<size_t>(all, n.data.size() - off) : 0;
  memcpy((void*)a, n.data.data() + (valid ? off : 0), valid);
  size_t pages = (valid + 4095) & ~4095ull;
  int p = prot & (PROT_READ | PROT_WRITE);
  Sys(SYS_mprotect, a, all, p);
  if (pages < all) Sys(SYS_mprotect, a + pages, all - pages, PROT_NONE);
  g->maps.push_back(Map{a, all, f->ino, (uint64_t)off, (flags & MAP_SHARED) != 0, (prot & PROT_WRITE) != 0});
  return (void*)a;
}
void* mmap64(void* a, size_t l, int p, int fl, int fd, off64_t o) { return mmap(a, l, p, fl, fd, o); }
int munmap(void* p, size_t len) {
  uintptr_t a = (uintptr_t)p;
  if (!On() || a < 0x300000000000ull || a >= 0x310000000000ull) RET(Sys(SYS_munmap, (long)p, len));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (a & 4095) {
    if (g->bad.size() < 400) g->bad += "munmap of an unaligned address; ";
    return Err(EINVAL);
  }
  if (!len) return Err(EINVAL);
  size_t all = (len + 4095) & ~4095ull;
  for (size_t i = 0; i < g->maps.size(); ++i) {
    Map& m = g->maps[i];
    if (m.a == a) {
      if (m.len != all && g->bad.size() < 400) g->bad += "munmap of a different length than was mapped; ";
      int ino = m.ino;
      SyncIn(ino);
      Sys(SYS_munmap, a, m.len);
      if (all < m.len) { m.a += all; m.off += all; m.len -= all; Sys(SYS_mmap, m.a, m.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); }
      else { g->maps.erase(g->maps.begin() + i); Release(ino); }
      return 0;
    }
  }
  if (g->bad.size() < 400) g->bad += "munmap of a region that is not mapped; ";
  return 0;
}
int mprotect(void* p, size_t n, int prot) { RET(Sys(SYS_mprotect, (long)p, n, prot)); }
int msync(void* p, size_t n, int fl) {
  uintptr_t a = (uintptr_t)p;
  if (!On() || a < 0x300000000000ull || a >= 0x310000000000ull) RET(Sys(SYS_msync, (long)p, n, fl));
  SyscallPoint();
  HeapScope hs;
  Op();
  if (a & 4095) return Err(EINVAL);
  if (F(sim::kEio)) return Err(EIO);
  for (Map& m : g->maps) if (a >= m.a && a < m.a + m.len) { SyncIn(m.ino); return 0; }
  return Err(ENOMEM);
}
int statfs(const char* p, struct statfs* s) {
  if (!On()) RET(Sys(SYS_statfs, (long)p, (long)s));
  memset(s, 0, sizeof *s);
  s->f_bsize = 4096;
  return 0;
}
int statfs64(const char* p, struct statfs64* s) { return statfs(p, (struct statfs*)s); }
}  // extern "C"
