// Disk seam: an in-memory file system below /simfs with faults and crashes.
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <spawn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
namespace disk {
namespace {
constexpr uint32_t Block = 64;
struct Inode {
  uint32_t id;
  std::string data, durable;
  std::vector<uint8_t> dirty; // per block: written since last sync
};
struct JEntry { // metadata journal since the last sync
  enum Op { Link, Unlink, Trunc } op;
  std::string path;
  uint32_t ino;
  uint64_t size;
};
using InodeP = std::shared_ptr<Inode>;
struct Fs {
  std::map<std::string, InodeP> names, durNames;
  std::map<uint32_t, InodeP> inodes;
  std::vector<JEntry> journal;
  uint32_t nextIno = 1;
} *fsp = nullptr;
Fs &fs() {
  if (!fsp)
    fsp = new Fs();
  return *fsp;
}
struct Handle {
  bool used = false;
  InodeP ino;
  uint64_t pos = 0;
  int flags = 0;
  std::string path;
  bool sawHard = false;
} handles[1024];
Faults F;
uint64_t nHard = 0, nWriteHard = 0, nReadHard = 0, nStat = 0, nSoft = 0, nOps = 0;
bool crashChild = false;
char *shm = nullptr;
constexpr size_t ShmSize = 8 << 20;
int nullFd = -1;

bool ours(const char *p) {
  return p && !strncmp(p, Root, 6) && (p[6] == '/' || p[6] == 0);
}
bool mine(int fd) { return fd >= 0 && fd < 1024 && handles[fd].used; }

template <class T> T nextFn(const char *n) { return (T)dlsym(RTLD_NEXT, n); }

bool draw(uint32_t p) { return p && chance(p, 1000); }

void serialise();
// Start of a disk operation.  Returns true if it must fail for good.
// `mutating` operations may be cut by the crash; `partial` tells the caller to
// apply part of the effect and then call crashNow().
bool op(const char *what, bool wr, bool &partial) {
  partial = false;
  uint64_t n = nOps++;
  step(40);
  if (crashChild && F.crashAtOp >= 0 && (int64_t)n >= F.crashAtOp) {
    if (F.crashMid && wr) {
      partial = true;
      return false;
    }
    logf("disk: crash at op %llu (%s)", (unsigned long long)n, what);
    serialise();
    _exit(77);
  }
  if (F.failAtOp >= 0 && (int64_t)n == F.failAtOp)
    return true;
  return false;
}
void crashNow(const char *what) {
  logf("disk: crash inside %s", what);
  serialise();
  _exit(77);
}
int hard(const char *what, bool wr, int err) {
  nHard++;
  (wr ? nWriteHard : nReadHard)++;
  count((std::string("fault.") + what).c_str());
  logf("disk: %s fails errno %d", what, err);
  errno = err;
  return -1;
}
int soft(const char *what, int err) {
  nSoft++;
  count((std::string("fault.") + what).c_str());
  logf("disk: %s", what);
  errno = err;
  return -1;
}
uint64_t usedBytes() {
  uint64_t n = 0;
  for (auto &k : fs().names)
    n += k.second->data.size();
  return n;
}
void touch(Inode &i, uint64_t from, uint64_t to) {
  if (to <= from)
    return;
  size_t b1 = (to - 1) / Block;
  if (i.dirty.size() <= b1)
    i.dirty.resize(b1 + 1, 0);
  for (size_t b = from / Block; b <= b1; ++b)
    i.dirty[b] = 1;
}
void truncTo(Inode &i, uint64_t n) {
  i.data.resize(n, '\0');
  if (i.dirty.size() > (n + Block - 1) / Block)
    i.dirty.resize((n + Block - 1) / Block);
  fs().journal.push_back({JEntry::Trunc, "", i.id, n});
}
InodeP create(const std::string &p) {
  auto i = std::make_shared<Inode>();
  i->id = fs().nextIno++;
  fs().inodes[i->id] = i;
  fs().names[p] = i;
  fs().journal.push_back({JEntry::Link, p, i->id, 0});
  return i;
}
void syncAll(Inode *i) {
  if (i) {
    i->durable = i->data;
    i->dirty.clear();
  }
  fs().durNames = fs().names;
  // a trunc that reached the journal is final for synced inodes only
  std::vector<JEntry> rest;
  for (auto &e : fs().journal)
    if (e.op == JEntry::Trunc && (!i || e.ino != i->id))
      rest.push_back(e);
  fs().journal.swap(rest);
}
} // namespace

static int doOpen(const char *path, int flags) {
  sched::yieldPoint(2);
  sched::Hold hold;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  bool partial;
  bool fail = op("open", wr, partial);
  if (fail)
    return hard(wr ? "open_write_error" : "open_read_error", wr, EIO);
  if (draw(F.eintrOpen))
    return soft("open_interrupted", EINTR);
  if (draw(F.openFail)) {
    static const int errs[] = {EACCES, EIO, EMFILE, ENOSPC, EROFS};
    return hard(wr ? "open_write_error" : "open_read_error", wr,
                errs[choose(wr ? 5 : 3)]);
  }
  std::string p(path);
  auto it = fs().names.find(p);
  InodeP ino;
  if (it == fs().names.end()) {
    // directories: only the root and /simfs/d exist
    size_t sl = p.rfind('/');
    std::string dir = p.substr(0, sl);
    if (p == Root || p == std::string(Root) + "/d") {
      errno = EISDIR;
      return -1;
    }
    if (!(flags & O_CREAT) || (dir != Root && dir != std::string(Root) + "/d")) {
      errno = ENOENT;
      return -1;
    }
    ino = create(p);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) {
      errno = EEXIST;
      return -1;
    }
    ino = it->second;
    if ((flags & O_TRUNC) && wr && !ino->data.empty())
      truncTo(*ino, 0);
  }
  if (partial)
    crashNow("open");
  if (nullFd < 0)
    nullFd = nextFn<int (*)(const char *, int, ...)>("open")("/dev/null", O_RDWR);
  int fd = fcntl(nullFd, F_DUPFD, 300);
  if (fd < 0 || fd >= 1024) {
    errno = EMFILE;
    return -1;
  }
  Handle &h = handles[fd];
  h.used = true;
  h.ino = ino;
  h.pos = 0;
  h.flags = flags;
  h.path = p;
  h.sawHard = false;
  logf("disk: open %s %s", path, wr ? "w" : "r");
  return fd;
}
static ssize_t doRead(int fd, void *buf, size_t n, int64_t at, bool raw) {
  sched::yieldPoint(2);
  sched::Hold hold;
  Handle &h = handles[fd];
  bool partial;
  if (op("read", false, partial))
    return hard("read_error", false, EIO);
  if (raw && draw(F.eintrRead))
    return soft("read_interrupted", EINTR);
  if (draw(F.eioRead))
    return hard("read_error", false, EIO);
  uint64_t pos = at >= 0 ? (uint64_t)at : h.pos;
  uint64_t size = h.ino->data.size();
  size_t k = pos < size ? std::min<uint64_t>(n, size - pos) : 0;
  if (k > 1 && draw(F.shortRead)) {
    k = 1 + choose((uint32_t)std::min<size_t>(k - 1, 4000));
    soft("short_read", 0);
  }
  memcpy(buf, h.ino->data.data() + pos, k);
  if (at < 0)
    h.pos += k;
  return (ssize_t)k;
}
static ssize_t doWrite(int fd, const void *buf, size_t n, int64_t at, bool raw) {
  sched::yieldPoint(2);
  sched::Hold hold;
  Handle &h = handles[fd];
  if ((h.flags & O_ACCMODE) == O_RDONLY) {
    errno = EBADF;
    return -1;
  }
  bool partial;
  if (op("write", true, partial))
    return hard("write_error", true, EIO);
  if (raw && draw(F.eintrWrite))
    return soft("write_interrupted", EINTR);
  if (draw(F.eioWrite))
    return hard("write_error", true, EIO);
  if (draw(F.enospc))
    return hard("disk_full", true, ENOSPC);
  size_t k = n;
  if (F.capacity >= 0) {
    uint64_t used = usedBytes();
    uint64_t room = used < (uint64_t)F.capacity ? F.capacity - used : 0;
    if (k > room) {
      if (room == 0)
        return hard("disk_full", true, ENOSPC);
      k = room;
      soft("short_write_full", 0);
    }
  }
  if (k > 1 && draw(F.shortWrite)) {
    k = 1 + choose((uint32_t)std::min<size_t>(k - 1, 4000));
    soft("short_write", 0);
  }
  if (partial)
    k = choose((uint32_t)k + 1);
  uint64_t pos = (h.flags & O_APPEND) ? h.ino->data.size()
                 : at >= 0            ? (uint64_t)at
                                      : h.pos;
  if (h.ino->data.size() < pos + k)
    h.ino->data.resize(pos + k, '\0');
  memcpy(&h.ino->data[pos], buf, k);
  touch(*h.ino, pos, pos + k);
  if (at < 0)
    h.pos = pos + k;
  if (partial)
    crashNow("write");
  return (ssize_t)k;
}
static int doClose(int fd) {
  sched::yieldPoint(2);
  sched::Hold hold;
  Handle &h = handles[fd];
  bool wr = (h.flags & O_ACCMODE) != O_RDONLY;
  h.used = false;
  h.ino.reset();
  nextFn<int (*)(int)>("close")(fd);
  bool partial;
  bool f = op("close", wr, partial);
  if (partial)
    crashNow("close");
  if (wr && (f || draw(F.closeFail)))
    return hard("close_error", true, EIO);
  return 0;
}
static int doSync(int fd) {
  sched::yieldPoint(2);
  sched::Hold hold;
  bool partial;
  bool f = op("fsync", true, partial);
  if (partial)
    crashNow("fsync");
  if (f || draw(F.syncFail))
    return hard("fsync_error", true, EIO);
  syncAll(handles[fd].ino.get());
  return 0;
}
static int doRename(const char *a, const char *b) {
  sched::yieldPoint(2);
  sched::Hold hold;
  bool partial;
  bool f = op("rename", true, partial);
  if (partial)
    crashNow("rename");
  if (f || draw(F.renameFail))
    return hard("rename_error", true, EIO);
  auto it = fs().names.find(a);
  if (it == fs().names.end()) {
    errno = ENOENT;
    return -1;
  }
  InodeP i = it->second;
  fs().names.erase(it);
  fs().names[b] = i;
  fs().journal.push_back({JEntry::Link, b, i->id, 0});
  fs().journal.push_back({JEntry::Unlink, a, i->id, 0});
  return 0;
}
static int doUnlink(const char *a) {
  sched::yieldPoint(2);
  sched::Hold hold;
  bool partial;
  bool f = op("unlink", true, partial);
  if (partial)
    crashNow("unlink");
  if (f)
    return hard("unlink_error", true, EIO);
  auto it = fs().names.find(a);
  if (it == fs().names.end()) {
    errno = ENOENT;
    return -1;
  }
  fs().journal.push_back({JEntry::Unlink, a, it->second->id, 0});
  fs().names.erase(it);
  return 0;
}
template <class ST> static int fillStat(const char *path, Inode *i, ST *st) {
  sched::yieldPoint(2);
  sched::Hold hold;
  bool partial;
  if (op("stat", false, partial) || draw(F.statFail)) {
    ++nStat;
    return hard("stat_error", false, EIO);
  }
  memset(st, 0, sizeof *st);
  st->st_blksize = 4096;
  st->st_nlink = 1;
  if (!i) {
    std::string p(path);
    if (p == Root || p == std::string(Root) + "/" || p == std::string(Root) + "/d") {
      st->st_mode = S_IFDIR | 0755;
      return 0;
    }
    auto it = fs().names.find(p);
    if (it == fs().names.end()) {
      errno = ENOENT;
      return -1;
    }
    i = it->second.get();
  }
  st->st_mode = S_IFREG | 0644;
  st->st_ino = i->id;
  st->st_dev = 77;
  st->st_size = (off_t)i->data.size();
  st->st_blocks = (st->st_size + 511) / 512;
  return 0;
}

// ---- stdio streams -----------------------------------------------------------
static ssize_t cRead(void *c, char *b, size_t n) {
  return doRead((int)(intptr_t)c, b, n, -1, false);
}
static ssize_t cWrite(void *c, const char *b, size_t n) {
  size_t k = 0;
  while (k < n) {
    ssize_t w = doWrite((int)(intptr_t)c, b + k, n - k, -1, false);
    if (w < 0)
      return k ? 0 : 0; // 0 tells stdio that the write failed
    k += (size_t)w;
  }
  return (ssize_t)k;
}
static int cSeek(void *c, off64_t *o, int wh) {
  Handle &h = handles[(int)(intptr_t)c];
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)h.pos
                                                     : (int64_t)h.ino->data.size();
  if (base + *o < 0)
    return -1;
  h.pos = (uint64_t)(base + *o);
  *o = (off64_t)h.pos;
  return 0;
}
static int cClose(void *c) { return doClose((int)(intptr_t)c) ? EOF : 0; }
static FILE *doFopen(const char *path, const char *mode) {
  int fl = mode[0] == 'r' ? O_RDONLY
           : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC)
                            : (O_WRONLY | O_CREAT | O_APPEND);
  if (strchr(mode, '+'))
    fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (strchr(mode, 'x'))
    fl |= O_EXCL;
  int fd = doOpen(path, fl);
  if (fd < 0)
    return nullptr;
  cookie_io_functions_t io{cRead, cWrite, cSeek, cClose};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  if (f)
    f->_fileno = fd;
  return f;
}

// ---- scenario interface --------------------------------------------------------
void reset() {
  delete fsp;
  fsp = new Fs();
  for (auto &h : handles)
    h = Handle();
  clearFaults();
}
void setFaults(const Faults &f) {
  F = f;
  nHard = nWriteHard = nReadHard = nStat = nSoft = nOps = 0;
}
void clearFaults() { F = Faults(); }
void put(const std::string &p, const std::string &b) {
  auto it = fs().names.find(p);
  InodeP i = it == fs().names.end() ? create(p) : it->second;
  i->data = b;
  syncAll(i.get());
}
bool exists(const std::string &p) { return fs().names.count(p); }
std::string get(const std::string &p) {
  auto it = fs().names.find(p);
  return it == fs().names.end() ? "" : it->second->data;
}
void remove(const std::string &p) {
  fs().names.erase(p);
  syncAll(nullptr);
}
std::vector<std::string> list() {
  std::vector<std::string> v;
  for (auto &k : fs().names)
    v.push_back(k.first);
  return v;
}
uint64_t hardFaults() { return nHard; }
uint64_t statFaults() { return nStat; }
uint64_t writeHardFaults() { return nWriteHard; }
uint64_t readHardFaults() { return nReadHard; }
uint64_t softFaults() { return nSoft; }
uint64_t ops() { return nOps; }
uint64_t openHandles() {
  uint64_t n = 0;
  for (auto &h : handles)
    n += h.used;
  return n;
}

namespace {
struct Out {
  char *p;
  void u(uint64_t v) {
    memcpy(p, &v, 8);
    p += 8;
  }
  void s(const std::string &x) {
    u(x.size());
    memcpy(p, x.data(), x.size());
    p += x.size();
  }
};
struct In {
  const char *p;
  uint64_t u() {
    uint64_t v;
    memcpy(&v, p, 8);
    p += 8;
    return v;
  }
  std::string s() {
    uint64_t n = u();
    std::string x(p, n);
    p += n;
    return x;
  }
};
void serialise() {
  Out o{shm};
  Fs &f = fs();
  o.u(nOps);
  o.u(f.nextIno);
  o.u(f.inodes.size());
  for (auto &k : f.inodes) {
    o.u(k.first);
    o.s(k.second->data);
    o.s(k.second->durable);
    o.s(std::string(k.second->dirty.begin(), k.second->dirty.end()));
  }
  for (auto *m : {&f.names, &f.durNames}) {
    o.u(m->size());
    for (auto &k : *m) {
      o.s(k.first);
      o.u(k.second->id);
    }
  }
  o.u(f.journal.size());
  for (auto &e : f.journal) {
    o.u(e.op);
    o.s(e.path);
    o.u(e.ino);
    o.u(e.size);
  }
}
void deserialise() {
  In i{shm};
  delete fsp;
  fsp = new Fs();
  Fs &f = *fsp;
  nOps = i.u();
  f.nextIno = (uint32_t)i.u();
  for (uint64_t n = i.u(); n; --n) {
    auto ino = std::make_shared<Inode>();
    ino->id = (uint32_t)i.u();
    ino->data = i.s();
    ino->durable = i.s();
    std::string d = i.s();
    ino->dirty.assign(d.begin(), d.end());
    f.inodes[ino->id] = ino;
  }
  for (auto *m : {&f.names, &f.durNames})
    for (uint64_t n = i.u(); n; --n) {
      std::string p = i.s();
      (*m)[p] = f.inodes[(uint32_t)i.u()];
    }
  for (uint64_t n = i.u(); n; --n) {
    JEntry e;
    e.op = (JEntry::Op)i.u();
    e.path = i.s();
    e.ino = (uint32_t)i.u();
    e.size = i.u();
    f.journal.push_back(e);
  }
}
// Power is lost: decide what of the unsynced state reached the platter.
void powerLoss() {
  Fs &f = fs();
  size_t keep = f.journal.size() - choose((uint32_t)f.journal.size() + 1);
  auto names = f.durNames;
  std::map<uint32_t, std::vector<uint64_t>> truncs;
  std::map<uint32_t, bool> lostTrunc;
  for (size_t k = 0; k < f.journal.size(); ++k) {
    auto &e = f.journal[k];
    if (k >= keep) {
      if (e.op == JEntry::Trunc)
        lostTrunc[e.ino] = true;
      continue;
    }
    if (e.op == JEntry::Link)
      names[e.path] = f.inodes[e.ino];
    else if (e.op == JEntry::Unlink)
      names.erase(e.path);
    else
      truncs[e.ino].push_back(e.size);
  }
  uint32_t holes = choose(2) ? 0 : 1 + choose(3); // 0: no torn blocks
  for (auto &k : f.inodes) {
    Inode &n = *k.second;
    std::string base = n.durable;
    for (uint64_t t : truncs[n.id])
      base.resize(std::min<uint64_t>(base.size(), t));
    std::string out = base;
    if (!lostTrunc[n.id] && !n.dirty.empty()) {
      uint64_t lo = std::min(base.size(), n.data.size()),
               hi = std::max(base.size(), n.data.size());
      uint64_t size = hi - choose((uint32_t)(hi - lo) + 1);
      if (choose(3) == 0)
        size = hi;
      out.resize(size, '\0');
      for (size_t b = 0; b * Block < size; ++b) {
        if (b >= n.dirty.size() || !n.dirty[b])
          continue;
        bool lose = holes && choose(holes + 1) == 1;
        for (size_t x = b * Block; x < std::min<uint64_t>(size, (b + 1) * Block); ++x)
          out[x] = lose ? (x < base.size() ? base[x] : '\0')
                        : (x < n.data.size() ? n.data[x] : '\0');
        if (lose)
          count("fault.lost_block");
      }
      if (size < n.data.size())
        count("fault.torn_file");
    } else if (lostTrunc[n.id])
      count("fault.lost_metadata");
    n.data = n.durable = out;
    n.dirty.clear();
  }
  f.names = f.durNames = names;
  f.journal.clear();
  for (auto &k : f.names)
    logf("disk: after crash %s has %zu bytes", k.first.c_str(), k.second->data.size());
}
} // namespace

// Runs a program's main in a process of its own; its exit status, or -1 if it
// died.  The disk keeps what it wrote.
static bool leaving = false;
bool inProgram() { return leaving; }
static void leave() {
  if (leaving) {
    leaving = false;
    clearFaults();
    serialise();
    uint64_t *end = (uint64_t *)shm + ShmSize / 8;
    end[-1] = 0x600d;
    end[-2] = nHard;
    end[-3] = nWriteHard;
    end[-4] = nReadHard;
    end[-5] = nSoft;
    end[-6] = nStat;
    end[-7] = z3s::gaveUp();
    end[-8] = z3s::checks();
  }
}
int runProgram(const std::function<int()> &body, const std::string &out) {
  if (!shm)
    shm = (char *)mmap(nullptr, ShmSize, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ((uint64_t *)shm)[ShmSize / 8 - 1] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    leaving = true;
    atexit(leave);
    if (!out.empty()) {
      auto it = fs().names.find(out);
      Handle &h = handles[1];
      h.used = true;
      h.ino = it == fs().names.end() ? create(out) : it->second;
      truncTo(*h.ino, 0);
      h.flags = O_WRONLY;
      h.path = out;
    }
    exit(body());
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (R->violated)
    _exit(0);
  if (!WIFEXITED(st) || ((uint64_t *)shm)[ShmSize / 8 - 1] != 0x600d) {
    if (WIFEXITED(st))
      _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 97);
    signal(WTERMSIG(st), SIG_DFL);
    kill(getpid(), WTERMSIG(st));
    abort();
  }
  deserialise();
  uint64_t *end = (uint64_t *)shm + ShmSize / 8;
  nHard = end[-2];
  nWriteHard = end[-3];
  nReadHard = end[-4];
  nSoft = end[-5];
  nStat = end[-6];
  z3s::inProgram(end[-8], end[-7]);
  for (auto &h : handles)
    h = Handle();
  return WEXITSTATUS(st);
}
bool runUntilCrash(const std::function<void()> &body) {
  if (!shm)
    shm = (char *)mmap(nullptr, ShmSize, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    crashChild = true;
    body();
    crashChild = false;
    serialise();
    _exit(78);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (R->violated)
    _exit(0);
  if (!WIFEXITED(st) || (WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 78)) {
    if (WIFEXITED(st))
      _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 97);
    abort();
  }
  bool died = WEXITSTATUS(st) == 77;
  deserialise();
  for (auto &h : handles)
    h = Handle();
  clearFaults();
  if (died) {
    count("fault.crash");
    powerLoss();
  }
  return died;
}
} // namespace disk
} // namespace sim

// ---- interposed libc entry points ------------------------------------------------
using namespace sim::disk;
#define NEXT(name) (nextFn<decltype(&::name)>(#name))
extern "C" {
int open(const char *p, int fl, ...) {
  mode_t m = 0;
  va_list ap;
  va_start(ap, fl);
  m = va_arg(ap, int);
  va_end(ap);
  if (ours(p))
    return doOpen(p, fl);
  static auto r = nextFn<int (*)(const char *, int, ...)>("open");
  return r(p, fl, m);
}
int open64(const char *p, int fl, ...) {
  mode_t m = 0;
  va_list ap;
  va_start(ap, fl);
  m = va_arg(ap, int);
  va_end(ap);
  if (ours(p))
    return doOpen(p, fl);
  static auto r = nextFn<int (*)(const char *, int, ...)>("open64");
  return r(p, fl, m);
}
int openat(int d, const char *p, int fl, ...) {
  mode_t m = 0;
  va_list ap;
  va_start(ap, fl);
  m = va_arg(ap, int);
  va_end(ap);
  if (ours(p))
    return doOpen(p, fl);
  static auto r = nextFn<int (*)(int, const char *, int, ...)>("openat");
  return r(d, p, fl, m);
}
int __open_2(const char *p, int fl) { return open(p, fl, 0); }
int __open64_2(const char *p, int fl) { return open64(p, fl, 0); }
int creat(const char *p, mode_t m) {
  return open(p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
FILE *fopen(const char *p, const char *m) {
  if (ours(p))
    return doFopen(p, m);
  static auto r = nextFn<FILE *(*)(const char *, const char *)>("fopen");
  return r(p, m);
}
FILE *fopen64(const char *p, const char *m) {
  if (ours(p))
    return doFopen(p, m);
  static auto r = nextFn<FILE *(*)(const char *, const char *)>("fopen64");
  return r(p, m);
}
FILE *fdopen(int fd, const char *m) {
  if (mine(fd)) {
    cookie_io_functions_t io{cRead, cWrite, cSeek, cClose};
    FILE *f = fopencookie((void *)(intptr_t)fd, m, io);
    if (f)
      f->_fileno = fd;
    return f;
  }
  static auto r = nextFn<FILE *(*)(int, const char *)>("fdopen");
  return r(fd, m);
}
int mkstemp(char *t) {
  if (ours(t)) {
    static int n = 0;
    size_t l = strlen(t);
    if (l >= 6)
      snprintf(t + l - 6, 7, "%06d", n++);
    return doOpen(t, O_RDWR | O_CREAT | O_EXCL);
  }
  static auto r = nextFn<int (*)(char *)>("mkstemp");
  return r(t);
}
int mkstemp64(char *t) { return mkstemp(t); }
ssize_t read(int fd, void *b, size_t n) {
  if (mine(fd))
    return doRead(fd, b, n, -1, true);
  static auto r = nextFn<ssize_t (*)(int, void *, size_t)>("read");
  return r(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (mine(fd))
    return doRead(fd, b, n, o, true);
  static auto r = nextFn<ssize_t (*)(int, void *, size_t, off_t)>("pread");
  return r(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (mine(fd))
    return doRead(fd, b, n, o, true);
  static auto r = nextFn<ssize_t (*)(int, void *, size_t, off64_t)>("pread64");
  return r(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (mine(fd))
    return doWrite(fd, b, n, -1, true);
  static auto r = nextFn<ssize_t (*)(int, const void *, size_t)>("write");
  return r(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (mine(fd))
    return doWrite(fd, b, n, o, true);
  static auto r = nextFn<ssize_t (*)(int, const void *, size_t, off64_t)>("pwrite64");
  return r(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (mine(fd)) {
    ssize_t t = 0;
    for (int i = 0; i < k; ++i) {
      if (!v[i].iov_len)
        continue;
      ssize_t w = doWrite(fd, v[i].iov_base, v[i].iov_len, -1, true);
      if (w < 0)
        return t ? t : -1;
      t += w;
      if ((size_t)w < v[i].iov_len)
        break;
    }
    return t;
  }
  static auto r = nextFn<ssize_t (*)(int, const struct iovec *, int)>("writev");
  return r(fd, v, k);
}
// LLVM ends a program that did not notice an I/O failure of a stream.
__attribute__((noreturn)) void abort() noexcept {
  Dl_info d;
  if (inProgram() && nWriteHard &&
      dladdr(__builtin_return_address(0), &d) && d.dli_fname &&
      strstr(d.dli_fname, "libLLVM")) {
    sim::logf("the program aborts after an I/O failure");
    sim::disk::leave();
    _exit(134);
  }
  static auto r = nextFn<void (*)()>("abort");
  r();
  _exit(134);
}
int posix_spawn(pid_t *pid, const char *path,
                const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at,
                char *const argv[], char *const env[]) noexcept {
  if (inProgram()) {
    std::string arg = argv[0] && argv[1] ? argv[1] : "";
    sim::logf("disk: start %s %s", path, arg.c_str());
    put(std::string(Root) + "/.started",
        std::string(path) + "\n" + arg + "\n" + get(arg));
    *pid = 4000000;
    return 0;
  }
  static auto r = nextFn<int (*)(pid_t *, const char *, const posix_spawn_file_actions_t *,
                                 const posix_spawnattr_t *, char *const[], char *const[])>("posix_spawn");
  return r(pid, path, fa, at, argv, env);
}
int close(int fd) {
  if (mine(fd))
    return doClose(fd);
  static auto r = nextFn<int (*)(int)>("close");
  return r(fd);
}
int fsync(int fd) {
  if (mine(fd))
    return doSync(fd);
  static auto r = nextFn<int (*)(int)>("fsync");
  return r(fd);
}
int fdatasync(int fd) {
  if (mine(fd))
    return doSync(fd);
  static auto r = nextFn<int (*)(int)>("fdatasync");
  return r(fd);
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept {
  if (mine(fd)) {
    off64_t x = o;
    if (cSeek((void *)(intptr_t)fd, &x, wh)) {
      errno = EINVAL;
      return -1;
    }
    return x;
  }
  static auto r = nextFn<off64_t (*)(int, off64_t, int)>("lseek64");
  return r(fd, o, wh);
}
off_t lseek(int fd, off_t o, int wh) noexcept { return lseek64(fd, o, wh); }
int ftruncate64(int fd, off64_t n) noexcept {
  if (mine(fd)) {
    truncTo(*handles[fd].ino, n);
    return 0;
  }
  static auto r = nextFn<int (*)(int, off64_t)>("ftruncate64");
  return r(fd, n);
}
int ftruncate(int fd, off_t n) noexcept { return ftruncate64(fd, n); }
int fstat64(int fd, struct stat64 *st) noexcept {
  if (mine(fd))
    return fillStat("", handles[fd].ino.get(), st);
  static auto r = nextFn<int (*)(int, struct stat64 *)>("fstat64");
  return r(fd, st);
}
int fstat(int fd, struct stat *st) noexcept { return fstat64(fd, (struct stat64 *)st); }
int stat64(const char *p, struct stat64 *st) noexcept {
  if (ours(p))
    return fillStat(p, nullptr, st);
  static auto r = nextFn<int (*)(const char *, struct stat64 *)>("stat64");
  return r(p, st);
}
int stat(const char *p, struct stat *st) noexcept { return stat64(p, (struct stat64 *)st); }
int lstat64(const char *p, struct stat64 *st) noexcept {
  if (ours(p))
    return fillStat(p, nullptr, st);
  static auto r = nextFn<int (*)(const char *, struct stat64 *)>("lstat64");
  return r(p, st);
}
int lstat(const char *p, struct stat *st) noexcept { return lstat64(p, (struct stat64 *)st); }
int access(const char *p, int m) noexcept {
  if (ours(p)) {
    struct stat64 st;
    return fillStat(p, nullptr, &st);
  }
  static auto r = nextFn<int (*)(const char *, int)>("access");
  return r(p, m);
}
int rename(const char *a, const char *b) noexcept {
  if (ours(a) && ours(b))
    return doRename(a, b);
  static auto r = nextFn<int (*)(const char *, const char *)>("rename");
  return r(a, b);
}
int unlink(const char *a) noexcept {
  if (ours(a))
    return doUnlink(a);
  static auto r = nextFn<int (*)(const char *)>("unlink");
  return r(a);
}
int remove(const char *a) noexcept {
  if (ours(a))
    return doUnlink(a);
  static auto r = nextFn<int (*)(const char *)>("remove");
  return r(a);
}
char *realpath(const char *p, char *out) noexcept {
  if (ours(p)) {
    if (!out)
      return strdup(p);
    strcpy(out, p);
    return out;
  }
  static auto r = nextFn<char *(*)(const char *, char *)>("realpath");
  return r(p, out);
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) noexcept {
  static auto r = nextFn<void *(*)(void *, size_t, int, int, int, off64_t)>("mmap64");
  if (!(fl & MAP_ANONYMOUS) && mine(fd)) {
    void *p = r(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
      return p;
    auto &d = handles[fd].ino->data;
    if ((uint64_t)o < d.size())
      memcpy(p, d.data() + o, std::min<uint64_t>(n, d.size() - o));
    if (!(pr & PROT_WRITE))
      mprotect(p, n, pr);
    return p;
  }
  return r(a, n, pr, fl, fd, o);
}
}
