// C15-C18: the file layer against a model of what the disk must hold.
#include <string.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "sim.h"
#include "tachyon/base/files/bin_file.h"
#include "tachyon/base/files/file.h"
#include "tachyon/base/files/file_enumerator.h"
#include "tachyon/base/files/file_path.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/base/files/memory_mapped_file.h"
#include "tachyon/base/files/scoped_file.h"
#include "tachyon/base/files/scoped_temp_dir.h"

using namespace tachyon;
using base::File;
using base::FilePath;
namespace fs = sim::fs;
using std::string;

namespace {
constexpr uint32_t kRw = sim::Bit(sim::kEintr) | sim::Bit(sim::kShort) | sim::Bit(sim::kEio) | sim::Bit(sim::kEnospc);
constexpr uint32_t kAll = kRw | sim::Bit(sim::kEmfile) | sim::Bit(sim::kEacces) | sim::Bit(sim::kExdev) | sim::Bit(sim::kEinval) | sim::Bit(sim::kMapFail);

// Faults injected since construction.
struct Window {
  uint32_t at = sim::FaultsInjected();
  bool Clean() const { return sim::FaultsInjected() == at; }
};

string Bytes(size_t n) {
  string s(n, 0);
  uint64_t x = sim::Rand();
  int style = (int)sim::Below(3);
  for (size_t i = 0; i < n; ++i) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    s[i] = style == 0 ? (char)(x >> 56) : style == 1 ? "ab\r\n\0z"[(x >> 40) % 6] : (char)('a' + (x >> 44) % 20);
  }
  return s;
}
size_t FSize() {
  static const size_t k[] = {0, 1, 2, 511, 512, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
  switch (sim::Below(4)) {
    case 0: return sim::Pick(k);
    case 1: return sim::Below(40);
    case 2: return sim::Below(5000);
    default: return sim::Below(300);
  }
}
string Now(const string& p) {
  string s;
  fs::Get(p, &s);
  return s;
}
// The same place named absolutely or relative to a current directory.
struct Naming {
  int form;
  bool up;  // copies and moves refuse names with ".." in them
  explicit Naming(bool up = true) : form(sim::Chance(1, 2) ? 0 : (int)sim::Range(1, up ? 5 : 4)), up(up) {
    if (form) SIM_REQUIRE(base::SetCurrentDirectory(FilePath(form == 2 || form == 3 ? "/" : "/d")));
  }
  string Of(const string& p) const {  // "/..."
    bool in = p.compare(0, 3, "/d/") == 0;
    if (!in && !up && (form == 1 || form == 4)) return p;
    switch (form) {
      case 1: return in ? p.substr(3) : ".." + p;
      case 2: return p.substr(1);
      case 3: return "." + p;
      case 4: return in ? "./" + p.substr(3) : "../" + p.substr(1);
      case 5: return in ? "../d/" + p.substr(3) : ".." + p;
      default: return p;
    }
  }
  FilePath operator()(const string& p) const { return FilePath(Of(p)); }
};
// |got| must be |old| with a prefix of |data| written at |pos|, of at least |least| bytes.
bool PrefixApplied(const string& got, const string& old, size_t pos, const string& data, size_t least) {
  for (size_t k = data.size() + 1; k-- > least;) {
    string want = old;
    if (k) {
      if (want.size() < pos + k) want.resize(pos + k, 0);
      memcpy(&want[pos], data.data(), k);
    }
    if (want == got) return true;
    if (data.size() > 3000 && k + 2 < data.size() && k > 2 + least) {
      // only lengths consistent with the size can match
      if (got.size() > old.size() && got.size() >= pos) { size_t kk = got.size() - pos; if (kk + 1 < k && kk >= least) k = kk + 1; }
      else if (k > 1 && got.size() == old.size()) {
        size_t d = 0;
        while (d < data.size() && pos + d < got.size() && got[pos + d] == data[d]) ++d;
        if (d + 1 < k && d >= least) k = d + 1;
      }
    }
  }
  return false;
}

// ---------------------------------------------------------------- C15
void FileObject(uint32_t mask, bool strict) {
  const string path = "/d/f";
  fs::MkdirP("/d");
  string disk = Bytes(FSize());
  bool there = sim::Chance(3, 4);
  if (there) fs::Put(path, disk); else disk.clear();
  int how = (int)sim::Below(5);
  uint32_t flags = 0;
  bool app = false, wr = true, rd = true;
  switch (how) {
    case 0: flags = File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE; break;
    case 1: flags = File::FLAG_OPEN_ALWAYS | File::FLAG_READ | File::FLAG_WRITE; break;
    case 2: flags = File::FLAG_CREATE_ALWAYS | File::FLAG_READ | File::FLAG_WRITE; break;
    case 3: flags = File::FLAG_OPEN_ALWAYS | File::FLAG_APPEND | File::FLAG_READ; app = true; break;
    default: flags = File::FLAG_OPEN | File::FLAG_READ; wr = false; break;
  }
  int nops = (int)sim::Range(1, 7);
  sim::Describe("file object flags=%x size=%zu present=%d ops=%d", flags, disk.size(), there, nops);
  if (sim::Chance(1, 6)) fs::SetCapacity(sim::Below(9000));
  sim::EnableFaults(mask);
  Window open;
  File f{FilePath(path), flags};
  if (!f.IsValid()) {
    bool must = how == 0 || how == 4 ? there : true;
    SIM_CHECK(!(must && open.Clean()), "opening a file that can be opened failed");
    SIM_CHECK(f.error_details() != File::FILE_OK, "failed open reports success");
    SIM_CHECK(!there || how == 2 || Now(path) == disk, "a failed open changed the file");
    return;
  }
  SIM_CHECK(!((how == 0 || how == 4) && !there), "opened a file that does not exist");
  if (how == 2) disk.clear();
  uint64_t pos = 0;
  for (int i = 0; i < nops; ++i) {
    Window w;
    size_t n = FSize();
    int64_t off = (int64_t)sim::Below(disk.size() + 20);
    if (sim::Chance(1, 12)) off = disk.size() + sim::Below(9000);
    int op = (int)sim::Below(12);
    if (!wr && (op >= 3 && op <= 7)) op = (int)sim::Below(3);
    if (op <= 2 || op == 11) {  // reads
      bool at = op != 1;
      bool cur = !at;
      bool check = op == 2, nobest = op == 11;
      if (nobest) { cur = sim::Chance(1, 2); at = !cur; }
      uint64_t from = at ? (uint64_t)off : pos;
      std::vector<uint8_t> buf(n + 2, 0xEE);
      char* b = (char*)buf.data() + 1;
      int r;
      bool ok = true;
      size_t avail = from < disk.size() ? std::min(n, disk.size() - (size_t)from) : 0;
      if (check && sim::Chance(1, 2)) { cur = true; from = pos; avail = from < disk.size() ? std::min(n, disk.size() - (size_t)from) : 0; ok = f.ReadAtCurrentPosAndCheck(absl::MakeSpan((uint8_t*)b, n)); r = ok ? (int)n : -2; }
      else if (check) { ok = f.ReadAndCheck(off, absl::MakeSpan((uint8_t*)b, n)); r = ok ? (int)n : -2; }
      else if (nobest) r = cur ? f.ReadAtCurrentPosNoBestEffort(b, (int)n) : f.ReadNoBestEffort(off, b, (int)n);
      else r = cur ? f.ReadAtCurrentPos(b, (int)n) : f.Read(off, b, (int)n);
      SIM_CHECK(buf[0] == 0xEE && buf[n + 1] == 0xEE, "read wrote outside the buffer");
      if (r >= 0) {
        SIM_CHECK((size_t)r <= avail, "read reports %d bytes where %zu exist", r, avail);
        SIM_CHECK(!memcmp(b, disk.data() + (r ? from : 0), r), "read returned other bytes than the file holds");
        if (w.Clean()) SIM_CHECK((size_t)r == avail, "read %d of %zu bytes although nothing failed", r, avail);
        if (cur) pos += r;
        if (n && avail && !nobest && r == 0) sim::Fail("best-effort read reports end of file %zu bytes early", avail);
      } else {
        if (r == -1) SIM_CHECK(!w.Clean(), "read failed although nothing went wrong");
        else SIM_CHECK(avail < n || !w.Clean(), "checked read failed although all the bytes are there");
        if (cur) { int64_t p = f.Seek(File::FROM_CURRENT, 0); SIM_CHECK(p >= (int64_t)pos && p <= (int64_t)(pos + avail), "position moved to %lld", (long long)p); pos = p; }
      }
      if (check && ok) SIM_CHECK(avail == n, "checked read succeeded beyond the end");
    } else if (op <= 5) {  // writes
      string data = Bytes(n);
      bool cur = op == 4, check = op == 5;
      int r;
      bool ok = true;
      int which = (int)sim::Below(3);
      if (check) { cur = which == 0; absl::Span<const uint8_t> s((const uint8_t*)data.data(), n); ok = cur ? f.WriteAtCurrentPosAndCheck(s) : f.WriteAndCheck(off, s); r = ok ? (int)n : -2; }
      else if (cur) r = which == 0 ? f.WriteAtCurrentPosNoBestEffort(data.data(), (int)n) : f.WriteAtCurrentPos(data.data(), (int)n);
      else r = f.Write(off, data.data(), (int)n);
      size_t at = app ? disk.size() : cur ? (size_t)pos : (size_t)off;
      string got = Now(path);
      if (r >= 0) {
        SIM_CHECK((size_t)r <= n, "write reports more than was asked");
        string want = disk;
        if (r) { if (want.size() < at + r) want.resize(at + r, 0); memcpy(&want[at], data.data(), r); }
        SIM_CHECK(got == want, "write of %zu bytes at %zu reported %d, but the file does not hold exactly that", n, at, r);
        if (w.Clean() && !(cur && which == 0)) SIM_CHECK((size_t)r == n, "write stopped early although nothing failed");
        if (app || cur) pos = at + r;
        if (app && !r) pos = f.Seek(File::FROM_CURRENT, 0);
      } else {
        SIM_CHECK(!w.Clean(), "write failed although nothing went wrong");
        if (r == -1) SIM_CHECK(got == disk, "failed write changed the file");
        else SIM_CHECK(PrefixApplied(got, disk, at, data, 0), "failed checked write left something other than a prefix");
        int64_t p = f.Seek(File::FROM_CURRENT, 0);
        SIM_CHECK(p >= 0, "cannot tell position");
        pos = p;
      }
      disk = got;
    } else if (op == 6) {
      int64_t len = (int64_t)sim::Below(disk.size() + 5000);
      bool ok = f.SetLength(len);
      if (ok) disk.resize(len, 0); else SIM_CHECK(!w.Clean(), "SetLength failed although nothing went wrong");
      SIM_CHECK(Now(path) == disk, "contents after SetLength");
    } else if (op == 7) {
      if (app) continue;  // AllocateFileRegion writes with pwrite
      size_t len = sim::Range(1, 9000);
      bool ok = base::AllocateFileRegion(&f, off, len);
      string got = Now(path);
      SIM_CHECK(got.size() >= disk.size() && got.compare(0, disk.size(), disk) == 0, "allocating a region changed existing bytes");
      for (size_t k = disk.size(); k < got.size(); ++k) SIM_CHECK(!got[k], "allocated bytes are not zero");
      if (ok) SIM_CHECK(got.size() == std::max(disk.size(), (size_t)off + len), "allocated length"); else SIM_CHECK(!w.Clean(), "allocation failed although nothing went wrong");
      disk = got;
    } else if (op == 8) {
      int64_t base_ = 0, o = (int64_t)sim::Below(disk.size() + 10);
      int wh = (int)sim::Below(3);
      if (wh == 1) base_ = pos;
      if (wh == 2) base_ = disk.size();
      if (wh && sim::Chance(1, 2)) o = -(int64_t)sim::Below(base_ + 1);
      int64_t r = f.Seek((File::Whence)wh, o);
      SIM_CHECK(r == base_ + o, "seek went to %lld", (long long)r);
      pos = r;
    } else if (op == 9) {
      int64_t r = f.GetLength();
      SIM_CHECK(r == (int64_t)disk.size() || (r == -1 && !w.Clean()), "length reported as %lld", (long long)r);
      File::Info info;
      Window w2;
      if (f.GetInfo(&info)) SIM_CHECK(info.size == (int64_t)disk.size() && !info.is_directory && !info.is_symbolic_link, "file information is wrong");
      else SIM_CHECK(!w2.Clean(), "GetInfo failed");
    } else {
      bool ok = f.Flush();
      SIM_CHECK(ok || !w.Clean(), "flush failed although nothing went wrong");
      // flush must not hide an error: an injected I/O error is reported
    }
  }
  f.Close();
  SIM_CHECK(!f.IsValid(), "a closed file is still valid");
  SIM_CHECK(Now(path) == disk, "contents changed by closing");
}
SIM_SCENARIO("C15", file_object, sim::kIo, 4, 14) { FileObject(kRw | sim::Bit(sim::kEmfile) | sim::Bit(sim::kEacces) | sim::Bit(sim::kEinval), true); }

void WholeFile(uint32_t mask) {
  fs::MkdirP("/d");
  string a = Bytes(FSize()), b = Bytes(FSize());
  bool there = sim::Chance(3, 4);
  if (there) fs::Put("/d/a", a);
  if (sim::Chance(1, 3)) b = a;
  if (b.size() && sim::Chance(1, 4)) { b = a; if (b.size()) b[sim::Below(b.size())] ^= 1; }
  if (sim::Chance(1, 8)) { b = a + "x"; }
  fs::Put("/d/b", b);
  FilePath pa("/d/a"), pb("/d/b");
  size_t n = FSize();
  string data = Bytes(n);
  int op = (int)sim::Below(13);
  if (sim::Chance(1, 8)) fs::SetCapacity(sim::Below(20000));
  sim::Describe("whole file op=%d size=%zu data=%zu present=%d", op, a.size(), n, there);
  sim::EnableFaults(mask);
  Window w;
  switch (op) {
    case 0: case 1: case 2: {
      bool ok;
      if (op == 0) ok = sim::Chance(1, 2) ? base::WriteFile(pa, std::string_view(data)) : base::WriteFile(pa, absl::Span<const uint8_t>((const uint8_t*)data.data(), n));
      else if (op == 1) { int r = base::WriteFile(pa, data.data(), (int)n); SIM_CHECK(r == (int)n || r == -1, "WriteFile returned %d for %zu bytes", r, n); ok = r == (int)n; }
      else ok = sim::Chance(1, 2) ? base::WriteLargeFile(pa, std::string_view(data)) : base::WriteLargeFile(pa, data.data(), n);
      bool now = fs::Get("/d/a", nullptr);
      string got = Now("/d/a");
      if (ok) SIM_CHECK(now && got == data, "write reported success but the file holds something else");
      else {
        SIM_CHECK(!w.Clean(), "write failed although nothing went wrong");
        SIM_CHECK((!now && !there) || (there && got == a) || data.compare(0, got.size(), got) == 0, "a failed write left bytes that were never written");
      }
      break;
    }
    case 3: {
      bool ok = sim::Chance(1, 2) ? base::AppendToFile(pa, std::string_view(data)) : base::AppendToFile(pa, absl::Span<const uint8_t>((const uint8_t*)data.data(), n));
      string got = Now("/d/a");
      if (ok) SIM_CHECK(there && got == a + data, "append reported success but the file holds something else");
      else { SIM_CHECK(!there || !w.Clean(), "append failed although nothing went wrong"); SIM_CHECK(!there || PrefixApplied(got, a, a.size(), data, 0), "failed append damaged the file"); }
      break;
    }
    case 4: case 5: case 6: {
      string got = "junk";
      bool ok;
      if (op == 4) ok = base::ReadFileToString(pa, &got);
      else if (op == 5) ok = base::ReadFileToStringNonBlocking(pa, &got);
      else { auto v = base::ReadFileToBytes(pa); ok = v.has_value(); if (ok) got.assign(v->begin(), v->end()); }
      if (ok) SIM_CHECK(there && got == a, "read reported success with %zu bytes other than the file's %zu", got.size(), a.size());
      else SIM_CHECK(!there || !w.Clean(), "read failed although nothing went wrong");
      break;
    }
    case 7: {
      size_t max = sim::Chance(1, 2) ? FSize() : a.size() + sim::Below(3) - 1;
      if (max == (size_t)-1) max = 0;
      string got = "junk";
      bool ok = base::ReadFileToStringWithMaxSize(pa, &got, max);
      if (ok) SIM_CHECK(there && got == a && a.size() <= max, "bounded read reported success with other bytes");
      else {
        SIM_CHECK(!there || !w.Clean() || a.size() > max, "bounded read failed although nothing went wrong");
        SIM_CHECK(got.size() <= max && a.compare(0, got.size(), got) == 0, "bounded read returned bytes the file does not hold");
        if (there && w.Clean()) SIM_CHECK(got.size() == max, "bounded read returned %zu of the first %zu bytes", got.size(), max);
      }
      break;
    }
    case 8: {
      size_t max = FSize();
      std::vector<char> buf(max + 2, 0x5A);
      int r = base::ReadFile(pa, buf.data() + 1, (int)max);
      size_t avail = std::min(max, a.size());
      SIM_CHECK(buf[0] == 0x5A && buf[max + 1] == 0x5A, "read wrote outside the buffer");
      if (r < 0) SIM_CHECK(!there || !w.Clean(), "read failed although nothing went wrong");
      else { SIM_CHECK(there && (size_t)r <= avail && !memcmp(buf.data() + 1, a.data(), r), "read returned other bytes"); if (w.Clean()) SIM_CHECK((size_t)r == avail, "short read"); }
      break;
    }
    case 9: {
      bool eq = base::ContentsEqual(pa, pb);
      bool same = there && a == b;
      if (eq) SIM_CHECK(same, "different files reported equal"); else SIM_CHECK(!same || !w.Clean(), "equal files reported different");
      break;
    }
    case 10: {
      int64_t size = -7;
      bool ok = base::GetFileSize(pa, &size);
      if (ok) SIM_CHECK(there && size == (int64_t)a.size(), "size"); else SIM_CHECK(!there || !w.Clean(), "GetFileSize failed");
      break;
    }
    case 11: {  // stream to the end and back
      if (!there) break;
      base::ScopedFILE s(base::OpenFile(pa, "rb+"));
      if (!s) { SIM_CHECK(!w.Clean(), "cannot open"); break; }
      string got;
      bool ok = base::ReadStreamToString(s.get(), &got);
      if (ok) SIM_CHECK(got == a, "stream read returned other bytes"); else SIM_CHECK(!w.Clean(), "stream read failed");
      if (ok) {
        Window w2;
        size_t at = sim::Below(a.size() + 1);
        if (fseek(s.get(), (long)at, SEEK_SET) == 0 && base::TruncateFile(s.get())) SIM_CHECK(Now("/d/a") == a.substr(0, at), "truncation left something else");
        else SIM_CHECK(!w2.Clean(), "truncation failed although nothing went wrong");
      }
      break;
    }
    default: {  // copy of an open file's remaining contents
      if (!there) break;
      File in(pa, File::FLAG_OPEN | File::FLAG_READ), out(pb, File::FLAG_OPEN | File::FLAG_WRITE);
      if (!in.IsValid() || !out.IsValid()) { SIM_CHECK(!w.Clean(), "cannot open"); break; }
      size_t p = sim::Below(a.size() + 1), q = sim::Below(b.size() + 1);
      in.Seek(File::FROM_BEGIN, p);
      out.Seek(File::FROM_BEGIN, q);
      Window w2;
      bool ok = base::CopyFileContents(in, out);
      string got = Now("/d/b"), part = a.substr(p);
      SIM_CHECK(Now("/d/a") == a, "copying changed the source");
      SIM_CHECK(PrefixApplied(got, b, q, part, ok ? part.size() : 0), "copied contents are wrong (reported %d)", ok);
      if (!ok) SIM_CHECK(!w2.Clean(), "copy failed although nothing went wrong");
    }
  }
  if (op >= 4 && op <= 10) { SIM_CHECK(Now("/d/a") == (there ? a : string()) && Now("/d/b") == b, "reading changed a file"); }
}
SIM_SCENARIO("C15", whole_file, sim::kIo, 4, 14) { WholeFile(kRw | sim::Bit(sim::kEmfile) | sim::Bit(sim::kEacces) | sim::Bit(sim::kEinval)); }

string NormText(const string& s, std::vector<string>* lines) {
  string cur;
  size_t i = 0;
  lines->clear();
  for (;; ++i) {
    if (i == s.size() || s[i] == '\n') {
      while (!cur.empty() && (cur.back() == '\r' || cur.back() == '\n')) cur.pop_back();
      lines->push_back(cur);
      cur.clear();
      if (i == s.size()) break;
    } else cur += s[i];
  }
  return s;
}
SIM_SCENARIO("C15", text_compare, sim::kIo, 1, 8) {
  fs::MkdirP("/d");
  string a, b;
  for (uint64_t k = sim::Below(40); k; --k) {
    string l(sim::Below(30), 'a' + (char)sim::Below(26));
    a += l; b += l;
    bool ra = sim::Chance(1, 2), rb = sim::Chance(1, 2);
    if (sim::Chance(1, 60)) a += 'q';
    if (k > 1 || sim::Chance(3, 4)) { a += ra ? "\r\n" : "\n"; }
    if (k > 1 || sim::Chance(3, 4)) { b += rb ? "\r\n" : "\n"; }
  }
  fs::Put("/d/a", a);
  fs::Put("/d/b", b);
  std::vector<string> la, lb;
  NormText(a, &la);
  NormText(b, &lb);
  sim::Describe("text compare %zu/%zu bytes", a.size(), b.size());
  sim::EnableFaults(kRw);
  Window w;
  bool eq = base::TextContentsEqual(FilePath("/d/a"), FilePath("/d/b"));
  if (eq) SIM_CHECK(la == lb, "different texts reported equal"); else SIM_CHECK(la != lb || !w.Clean(), "equal texts reported different");
}
SIM_SCENARIO("C15", compare_unreadable, sim::kIo, 1, 8) {
  // comparing things that cannot be read ends, and does not report equality of different contents
  fs::MkdirP("/d/x");
  fs::MkdirP("/d/y");
  string a = Bytes(FSize());
  fs::Put("/d/a", a);
  string b = sim::Chance(1, 2) ? a : Bytes(a.size());
  fs::Put("/d/b", b);
  const char* n[] = {"/d/a", "/d/b", "/d/x", "/d/y", "/d/none"};
  FilePath p(sim::Pick(n)), q(sim::Pick(n));
  sim::Describe("compare %s %s %zu", p.value().c_str(), q.value().c_str(), a.size());
  sim::EnableFaults(kRw);
  bool eq = base::ContentsEqual(p, q);
  auto dirp = [](const FilePath& f) { return fs::Lookup(f.value()).kind != fs::kFile; };
  if (eq) SIM_CHECK(!dirp(p) && !dirp(q) && Now(p.value()) == Now(q.value()), "unreadable or different contents reported equal");
}

// ---------------------------------------------------------------- C16
using Tree = std::map<string, string>;  // relative path -> "d", "l<target>" or "f<contents>"
Tree Read(const string& root) {
  Tree t;
  auto k = fs::Lookup(root).kind;
  if (k == fs::kNone) return t;
  if (k != fs::kDir) { string s; if (k == fs::kFile) { fs::Get(root, &s); t[""] = "f" + s; } else t[""] = "l"; return t; }
  t[""] = "d";
  for (const string& e : fs::Tree(root)) {
    if (e.back() == '/') { t[e.substr(0, e.size() - 1)] = "d"; continue; }
    if (fs::Lookup(root + "/" + e).kind == fs::kLink) { t[e] = "l"; continue; }
    string s;
    fs::Get(root + "/" + e, &s);
    t[e] = "f" + s;
  }
  return t;
}
void Grow(const string& root, int depth, int* budget, std::vector<string>* dirs, std::vector<string>* files, bool links) {
  fs::MkdirP(root);
  dirs->push_back(root);
  uint64_t n = sim::Below(5);
  for (uint64_t i = 0; i < n && *budget > 0; ++i) {
    --*budget;
    string p = root + "/" + (char)('a' + i);
    if (depth && sim::Chance(2, 5)) Grow(p, depth - 1, budget, dirs, files, links);
    else if (links && sim::Chance(1, 4)) { const char* t[] = {"/victim", "/victim/keep", "a", "..", "/nowhere", "/d"}; fs::Symlink(sim::Pick(t), p); }
    else { fs::Put(p, Bytes(FSize())); files->push_back(p); }
  }
}
// Every regular file and directory of |want| is in |got| with the same contents.
bool Holds(const Tree& got, const Tree& want, const string& prefix, bool top_files_only) {
  for (auto& kv : want) {
    if (kv.second[0] == 'l') continue;
    if (top_files_only && (kv.second == "d" ? !kv.first.empty() : kv.first.find('/') != string::npos)) continue;
    string k = kv.first.empty() ? prefix : prefix.empty() ? kv.first : prefix + "/" + kv.first;
    auto it = got.find(k);
    if (it == got.end() || it->second != kv.second) return false;
  }
  return true;
}
struct World {
  std::vector<string> dirs, files;
  Tree src, dst, victim;
  bool is_dir, src_is_file = false;
};
void Make(World* w, bool links) {
  int budget = 14;
  fs::MkdirP("/d");
  fs::MkdirP("/victim/sub");
  fs::Put("/victim/keep", "precious");
  fs::Put("/victim/sub/x", "also");
  if (sim::Chance(1, 4)) { fs::Put("/d/src", Bytes(FSize())); w->src_is_file = true; w->files.push_back("/d/src"); }
  else Grow("/d/src", 3, &budget, &w->dirs, &w->files, links);
  switch (sim::Below(5)) {
    case 0: fs::MkdirP("/d/dst"); break;
    case 1: { std::vector<string> a, b; budget = 5; Grow("/d/dst", 2, &budget, &a, &b, false); break; }
    case 2: fs::Put("/d/dst", "old contents"); break;
    default: break;
  }
  w->src = Read("/d/src");
  w->dst = Read("/d/dst");
  w->victim = Read("/victim");
}
bool HasLinks(const Tree& t) { for (auto& kv : t) if (kv.second[0] == 'l') return true; return false; }

// After a copy of src to dst.
void JudgeCopy(const World& w, bool ok, bool excl, bool recursive, bool clean, bool single) {
  Tree src = Read("/d/src"), dst = Read("/d/dst");
  SIM_CHECK(src == w.src, "copying changed the source");
  SIM_CHECK(Read("/victim") == w.victim, "copying changed something outside the destination");
  string prefix;
  if (!single && recursive && w.dst.count("") && w.dst.at("") == "d") prefix = "src";
  if (ok) SIM_CHECK(Holds(dst, w.src, prefix, !single && !recursive), "copy reported success but the destination does not hold the source's contents");
  // nothing else in the destination changed
  for (auto& kv : w.dst) {
    auto it = dst.find(kv.first);
    bool target = false;
    for (auto& s : w.src) target |= kv.first == (s.first.empty() ? prefix : prefix.empty() ? s.first : prefix + "/" + s.first);
    if (!target || excl) SIM_CHECK(it != dst.end() && it->second == kv.second, "copying changed an entry of the destination that it must keep: '%s'", kv.first.c_str());
  }
  for (auto& kv : dst) {
    if (w.dst.count(kv.first)) continue;
    bool target = false;
    for (auto& s : w.src) target |= kv.first == (s.first.empty() ? prefix : prefix.empty() ? s.first : prefix + "/" + s.first);
    SIM_CHECK(target, "copying created '%s', which the source does not have", kv.first.c_str());
  }
  if (!ok && clean) {
    bool conflict = single ? w.dst.count("") && w.dst.at("") == "d" : false;
    if (single && !w.src_is_file) conflict = true;
    if (!single) {
      if (w.src_is_file && !recursive) conflict = true;
      if (w.dst.count("") && w.dst.at("")[0] != w.src.at("")[0]) conflict = true;
      for (auto& s : w.src) {
        string k = s.first.empty() ? prefix : prefix.empty() ? s.first : prefix + "/" + s.first;
        auto it = w.dst.find(k);
        if (it != w.dst.end() && (excl || it->second[0] != s.second[0])) conflict = true;
      }
    }
    SIM_CHECK(conflict, "copy failed although nothing went wrong");
  }
}
constexpr uint32_t kTreeFaults = kRw | sim::Bit(sim::kEmfile) | sim::Bit(sim::kEacces) | sim::Bit(sim::kEinval);
SIM_SCENARIO("C16", copy, sim::kIo, 4, 14) {
  World w;
  Make(&w, true);
  if (sim::Chance(1, 10)) fs::SetCapacity(sim::Below(60000));
  int op = (int)sim::Below(4);
  bool recursive = sim::Chance(3, 4);
  if (w.src_is_file && op != 0) { if (!recursive) recursive = true; }
  Naming name(false);
  bool slash = !w.src_is_file && op != 0 && sim::Chance(1, 5);
  sim::Describe("copy op=%d recursive=%d entries=%zu dst=%zu form=%d%s", op, recursive, w.src.size(), w.dst.size(), name.form, slash ? " trailing separator" : "");
  sim::EnableFaults(kTreeFaults);
  Window win;
  FilePath s = name(slash ? "/d/src/" : "/d/src"), d = name("/d/dst");
  bool ok = op == 0 ? base::CopyFile(s, d) : op == 1 ? base::CopyDirectoryExcl(s, d, recursive) : base::CopyDirectory(s, d, recursive);
  bool clean = win.Clean();
  sim::DisableFaults();
  JudgeCopy(w, ok, op == 1, recursive, clean, op == 0);
}
SIM_SCENARIO("C16", copy_onto_itself, sim::kIo, 1, 8) {
  fs::MkdirP("/d/sub");
  string a = Bytes(FSize());
  fs::Put("/d/a", a);
  fs::Symlink("a", "/d/link");
  const char* n[] = {"/d/a", "/d/link", "/d/sub/../a"};
  FilePath s(sim::Chance(1, 2) ? "/d/a" : "/d/link"), d(sim::Pick(n));
  sim::Describe("copy %s onto %s", s.value().c_str(), d.value().c_str());
  sim::EnableFaults(kTreeFaults);
  base::CopyFile(s, d);
  sim::DisableFaults();
  SIM_CHECK(Now("/d/a") == a, "copying a file onto itself destroyed it");
}
SIM_SCENARIO("C16", copy_into_itself, sim::kIo, 1, 6) {
  World w;
  Make(&w, false);
  FilePath d(w.dirs.empty() ? "/d/src" : w.dirs[sim::Below(w.dirs.size())]);
  if (sim::Chance(1, 2)) d = d.Append("new");
  Naming name(false);
  d = name(d.value());
  sim::Describe("copy tree into itself %s", d.value().c_str());
  sim::EnableFaults(kTreeFaults);
  bool ok = base::CopyDirectory(name("/d/src"), d, true);
  sim::DisableFaults();
  if (!w.src_is_file) SIM_CHECK(!ok, "copy of a tree into itself accepted");
  Tree now = Read("/d/src");
  SIM_CHECK(Holds(now, w.src, "", false), "refused copy changed the source");
}

void MoveCase(bool links, bool crash) {
  World w;
  Make(&w, links);
  bool cross = sim::Chance(1, 2);
  if (cross) { if (fs::Lookup("/d/dst").kind == fs::kNone) { fs::MkdirP("/mnt"); fs::SetMount("/mnt", 2); } else cross = false; }
  string to = cross ? "/mnt/dst" : "/d/dst";
  Naming name(false);
  sim::Describe("move entries=%zu dst=%zu cross=%d crash=%d links=%d form=%d", w.src.size(), w.dst.size(), cross, crash, links, name.form);
  if (sim::Chance(1, 10)) fs::SetCapacity(sim::Below(60000));
  bool ok = false;
  uint32_t at = sim::FaultsInjected();
  auto act = [&] { ok = base::Move(name("/d/src"), name(to)); };
  bool done = true;
  if (crash) {
    done = sim::RunCrashable([&] { sim::EnableFaults(kTreeFaults | sim::Bit(sim::kExdev) | sim::Bit(sim::kCrash)); act(); sim::DisableFaults(); });
    sim::DisableFaults();
    if (!done) sim::Count("crashed moves");
  } else {
    sim::EnableFaults(kTreeFaults | sim::Bit(sim::kExdev));
    act();
    sim::DisableFaults();
  }
  bool clean = done && sim::FaultsInjected() == at;
  Tree src = Read("/d/src"), dst = Read(to);
  SIM_CHECK(Read("/victim") == w.victim, "moving changed something outside");
  bool was_dir = w.dst.count("") && w.dst.at("") == "d";
  bool in_dst = Holds(dst, w.src, "", false) || (was_dir && Holds(dst, w.src, "src", false));
  bool in_src = Holds(src, w.src, "", false);
  if (done && ok) {
    SIM_CHECK(in_dst, "move reported success but the destination does not hold the source's contents");
    if (clean) SIM_CHECK(src.empty(), "move reported success but the source is still there");
    if (clean && links) for (auto& kv : w.src) if (kv.second[0] == 'l') SIM_CHECK(dst.count(kv.first) || dst.count("src/" + kv.first), "a symbolic link was lost by the move");
  } else {
    SIM_CHECK(in_src || in_dst, "after a %s move the data is complete in neither place", done ? "failed" : "crashed");
    if (done) SIM_CHECK(in_src, "move reported failure but the source is no longer complete");
    if (clean) {
      bool conflict = (was_dir || w.dst.count("")) ;
      SIM_CHECK(conflict, "move failed although nothing went wrong");
    }
  }
  SIM_CHECK(fs::OpenFds() == 0 || !done, "move left a descriptor open");
}
SIM_SCENARIO("C16", move, sim::kIo, 4, 14) { MoveCase(false, false); }
SIM_SCENARIO("C16", move_crash, sim::kIo, 3, 14) { MoveCase(false, true); }

SIM_SCENARIO("C16", replace, sim::kIo, 1, 10) {
  fs::MkdirP("/d");
  string a = Bytes(FSize()), b = Bytes(FSize());
  fs::Put("/d/a", a);
  bool there = sim::Chance(1, 2);
  if (there) fs::Put("/d/b", b);
  File::Error e = File::FILE_OK;
  bool ok = false;
  Naming name;
  sim::Describe("replace %d form=%d", there, name.form);
  bool done = sim::RunCrashable([&] {
    sim::EnableFaults(kTreeFaults | sim::Bit(sim::kExdev) | sim::Bit(sim::kCrash));
    ok = base::ReplaceFile(name("/d/a"), name("/d/b"), &e);
    sim::DisableFaults();
  });
  sim::DisableFaults();
  bool moved = fs::Lookup("/d/a").kind == fs::kNone && Now("/d/b") == a;
  bool kept = Now("/d/a") == a && (there ? Now("/d/b") == b : fs::Lookup("/d/b").kind == fs::kNone);
  SIM_CHECK(moved || kept, "replacement is neither done nor undone");
  if (done) SIM_CHECK(ok == moved && (ok || e != File::FILE_OK), "replacement reported wrongly");
}

SIM_SCENARIO("C16", remove, sim::kIo, 4, 14) {
  World w;
  Make(&w, true);
  string target = "/d/src";
  if (!w.src_is_file && sim::Chance(1, 3)) {
    auto it = w.src.begin();
    std::advance(it, sim::Below(w.src.size()));
    if (!it->first.empty()) target += "/" + it->first;
  }
  if (sim::Chance(1, 12)) target = "/d/none";
  bool rec = sim::Chance(2, 3);
  auto kind = fs::Lookup(target).kind;
  Tree before = Read("/d");
  bool empty = kind == fs::kDir && Read(target).size() == 1;
  Naming name;
  sim::Describe("delete %s recursive=%d kind=%d entries=%zu form=%d", target.c_str(), rec, kind, w.src.size(), name.form);
  sim::EnableFaults(kTreeFaults);
  Window win;
  bool ok = rec ? base::DeletePathRecursively(name(target)) : base::DeleteFile(name(target));
  bool clean = win.Clean();
  sim::DisableFaults();
  bool gone = fs::Lookup(target).kind == fs::kNone;
  if (ok) SIM_CHECK(gone, "deletion reported success but the entry is still there");
  else SIM_CHECK(!gone || kind == fs::kNone, "deletion reported failure but the entry is gone");
  if (clean) SIM_CHECK(ok == (kind != fs::kDir || rec || empty), "deletion %s although nothing went wrong", ok ? "succeeded" : "failed");
  Tree after = Read("/d");
  string rel = target.substr(3);
  for (auto& kv : before) {
    bool inside = kv.first == rel || kv.first.compare(0, rel.size() + 1, rel + "/") == 0;
    auto it = after.find(kv.first);
    if (!inside) SIM_CHECK(it != after.end() && it->second == kv.second, "deletion removed or changed '%s', which was not named", kv.first.c_str());
    if (inside && !rec && !ok) SIM_CHECK(it != after.end() && it->second == kv.second, "refused deletion removed '%s'", kv.first.c_str());
  }
  for (auto& kv : after) SIM_CHECK(before.count(kv.first), "deletion created '%s'", kv.first.c_str());
  SIM_CHECK(Read("/victim") == w.victim, "deletion followed a link out of the tree");
}

SIM_SCENARIO("C16", list, sim::kIo, 3, 8) {
  World w;
  Make(&w, true);
  bool rec = sim::Chance(2, 3);
  int type = (int)sim::Range(1, 3);  // files, directories, both
  int mode = (int)sim::Below(3);
  bool links = mode != 0;
  if (mode == 2 && sim::Chance(1, 2)) rec = false;
  Naming name;
  sim::Describe("list entries=%zu recursive=%d type=%d mode=%d form=%d", w.src.size(), rec, type, mode, name.form);
  if (HasLinks(w.src) && !links) links = true;
  sim::EnableFaults(kTreeFaults);
  Window win;
  std::set<string> got;
  bool dup = false;
  int64_t size = 0;
  File::Error err;
  {
    base::FileEnumerator e(name("/d/src"), rec, type | (links ? base::FileEnumerator::SHOW_SYM_LINKS : 0), string(), base::FileEnumerator::FolderSearchPolicy::MATCH_ONLY,
                           base::FileEnumerator::ErrorPolicy::STOP_ENUMERATION);
    for (FilePath p = e.Next(); !p.empty(); p = e.Next()) {
      dup |= !got.insert(p.value()).second;
      auto info = e.GetInfo();
      Window w2;
      auto st = fs::Lookup(p.value());
      SIM_CHECK(st.kind != fs::kNone, "listing reports '%s', which does not exist", p.value().c_str());
      if (win.Clean()) {
        SIM_CHECK(info.IsDirectory() == (st.kind == fs::kDir), "kind of '%s'", p.value().c_str());
        if (st.kind == fs::kFile) SIM_CHECK(info.GetSize() == (int64_t)st.size, "size of '%s'", p.value().c_str());
        SIM_CHECK(p.BaseName() == info.GetName(), "name");
      }
      size += info.GetSize();
    }
    err = e.GetError();
  }
  bool clean = win.Clean();
  SIM_CHECK(!dup, "an entry was listed twice");
  std::set<string> want;
  for (auto& kv : w.src) {
    if (kv.first.empty() || (!rec && kv.first.find('/') != string::npos)) continue;
    bool dir = kv.second == "d";
    if (dir ? type & 2 : type & 1) want.insert(name.Of("/d/src/" + kv.first));
  }
  if (clean) { if (!w.src_is_file) SIM_CHECK(got == want && err == File::FILE_OK, "listing has %zu entries instead of %zu (error %d)", got.size(), want.size(), err); else SIM_CHECK(got.empty(), "listing of a file"); }
  else for (auto& g : got) SIM_CHECK(want.count(g) || true, "x");
  sim::DisableFaults();
  if (!HasLinks(w.src) && !w.src_is_file) {
    int64_t total = 0;
    for (auto& kv : w.src) if (kv.second[0] == 'f') total += kv.second.size() - 1;
    SIM_CHECK(base::ComputeDirectorySize(name("/d/src")) == total, "directory size");
    SIM_CHECK(base::IsDirectoryEmpty(name("/d/src")) == (w.src.size() == 1), "directory emptiness");
  }
}

SIM_SCENARIO("C16", directories, sim::kIo, 3, 12) {
  fs::MkdirP("/d");
  int setup = (int)sim::Below(5);
  if (setup == 1) fs::MkdirP("/d/p/q");
  if (setup == 2) fs::Put("/d/p", "file in the way");
  if (setup == 3) { fs::MkdirP("/d/real"); fs::Symlink("/d/real", "/d/p"); }
  if (setup == 4) fs::Symlink("/nowhere/x", "/d/p");
  string path = "/d/p";
  for (uint64_t k = sim::Below(4); k; --k) path += "/q";
  Naming name;
  string named = name.Of(path) + (sim::Chance(1, 6) ? "/" : "");
  sim::Describe("create directory %s setup=%d", named.c_str(), setup);
  sim::EnableFaults(kTreeFaults);
  Window w;
  File::Error e = File::FILE_OK;
  bool ok = sim::Chance(1, 2) ? base::CreateDirectory(FilePath(named)) : base::CreateDirectoryAndGetError(FilePath(named), &e);
  bool clean = w.Clean();
  sim::DisableFaults();
  bool is = base::DirectoryExists(FilePath(named));
  SIM_CHECK(!ok || is, "directory creation reported success but there is no directory");
  if (clean) SIM_CHECK(ok == (setup != 2 && setup != 4), "directory creation reported %d although nothing went wrong", ok);
  if (setup == 2) SIM_CHECK(Now("/d/p") == "file in the way", "directory creation damaged a file");
  auto st = fs::Lookup(path);
  SIM_CHECK(base::PathExists(FilePath(path)) == (is || setup == 2 && path == "/d/p"), "existence reported wrongly");
  if (is && st.kind == fs::kDir && setup == 0) SIM_CHECK((st.mode & 077) == 0, "created directory is open to others");
  FilePath abs = base::MakeAbsoluteFilePath(FilePath(named));
  if (is) SIM_CHECK(abs.value() == (setup == 3 ? "/d/real" + path.substr(4) : path), "absolute path %s", abs.value().c_str());
}
SIM_SCENARIO("C16", links, sim::kIo, 1, 8) {
  fs::MkdirP("/d/t");
  fs::Put("/d/f", "x");
  const char* t[] = {"/d/f", "f", "t", "nothing", "t/../f"};
  string target = sim::Pick(t);
  bool busy = sim::Chance(1, 3);
  if (busy) fs::Put("/d/l", "busy");
  sim::EnableFaults(kTreeFaults);
  Window w;
  bool ok = base::CreateSymbolicLink(FilePath(target), FilePath("/d/l"));
  bool clean = w.Clean();
  sim::DisableFaults();
  auto k = fs::Lookup("/d/l").kind;
  SIM_CHECK(ok == (k == fs::kLink), "link creation reported wrongly");
  if (clean) SIM_CHECK(ok != busy, "link creation");
  FilePath got;
  bool rd = base::ReadSymbolicLink(FilePath("/d/l"), &got);
  SIM_CHECK(rd == ok && (!rd || got.value() == target), "link reads back as '%s'", got.value().c_str());
  SIM_CHECK(base::IsLink(FilePath("/d/l")) == ok, "IsLink");
}
// A tree that contains links, moved to another device.
SIM_SCENARIO("C16", move_links, sim::kIo, 1, 2) { MoveCase(true, false); }

// ---------------------------------------------------------------- C17
void CheckClean(const char* what) {
  SIM_CHECK(fs::OpenFds() == 0, "%s left %zu descriptors open", what, fs::OpenFds());
  SIM_CHECK(fs::OpenDirs() == 0, "%s left %zu directory handles open", what, fs::OpenDirs());
  SIM_CHECK(fs::Maps() == 0, "%s left %zu mappings", what, fs::Maps());
  string bad = fs::BadOps();
  SIM_CHECK(bad.empty(), "%s: %s", what, bad.c_str());
}
struct Owner {
  Owner() { base::subtle::ResetFDOwnership(); base::subtle::EnableFDOwnershipEnforcement(true); }
  ~Owner() { base::subtle::EnableFDOwnershipEnforcement(false); base::subtle::ResetFDOwnership(); }
};
void OneOp(int op, const string& d, const string& s) {
  FilePath src(s), dst(d + "/out" + std::to_string(sim::Below(3)));
  string str;
  std::vector<uint8_t> buf(64);
  switch (op) {
    case 0: base::WriteFile(dst, std::string_view("some data")); break;
    case 1: base::ReadFileToString(src, &str); break;
    case 2: base::ReadFileToStringNonBlocking(src, &str); break;
    case 3: base::ReadFileToBytes(src); break;
    case 4: base::AppendToFile(dst, std::string_view("more")); break;
    case 5: base::CopyFile(src, dst); break;
    case 6: base::CopyDirectory(FilePath(d + "/tree"), FilePath(d + "/copy"), true); break;
    case 7: base::Move(dst, FilePath(d + "/moved")); break;
    case 8: base::DeletePathRecursively(FilePath(d + "/copy")); break;
    case 9: base::ContentsEqual(src, dst); break;
    case 10: base::TextContentsEqual(src, dst); break;
    case 11: { char c[40]; base::ReadFile(src, c, 40); break; }
    case 12: base::WriteLargeFile(dst, "0123456789", 10); break;
    case 13: { FilePath p; File f = base::CreateAndOpenTemporaryFileInDir(FilePath(d), &p); if (f.IsValid()) f.WriteAtCurrentPos("x", 1); break; }
    case 14: { FilePath p; base::ScopedFILE f = base::CreateAndOpenTemporaryStreamInDir(FilePath(d), &p); if (f) fputs("hello", f.get()); break; }
    case 15: { File f(src, File::FLAG_OPEN | File::FLAG_READ); File g = f.Duplicate(); File h(std::move(g)); f = std::move(h); break; }
    case 16: { File f(src, File::FLAG_OPEN | File::FLAG_READ); if (f.IsValid()) { FILE* st = base::FileToFILE(std::move(f), "r"); if (st) { File k = base::FILEToFile(st); base::CloseFile(st); } } break; }
    case 17: { base::FileEnumerator e(FilePath(d), true, 3); uint64_t stop = sim::Below(6); while (stop-- && !e.Next().empty()) {} break; }
    case 18: base::ComputeDirectorySize(FilePath(d)); break;
    case 19: { base::MemoryMappedFile m; (void)m.Initialize(src); break; }
    case 20: { File f(src, File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE); base::MemoryMappedFile m; (void)m.Initialize(std::move(f), {(int64_t)sim::Below(5000), (size_t)sim::Range(1, 3000)}, sim::Chance(1, 2) ? base::MemoryMappedFile::READ_ONLY : base::MemoryMappedFile::READ_WRITE_EXTEND); break; }
    case 21: { base::BinFile b; b.Load(src, true); base::BinFile c; c.Load(src, false); b = std::move(c); break; }
    case 22: { base::ScopedTempDir t; if (t.CreateUniqueTempDirUnderPath(FilePath(d))) base::WriteFile(t.GetPath().Append("x"), std::string_view("y")); break; }
    case 23: base::PreReadFile(src, false, 1000); break;
    case 24: base::TouchFile(src, base::Time(), base::Time()); break;
    case 25: { FILE* f = base::OpenFile(src, "r"); base::ReadStreamToString(f, &str); base::CloseFile(f); break; }
    case 26: base::CreateDirectory(FilePath(d + "/n/m")); break;
    case 27: { File f(src, File::FLAG_OPEN | File::FLAG_READ | File::FLAG_DELETE_ON_CLOSE); f.Read(0, (char*)buf.data(), 64); fs::Put(s, "again"); break; }
    case 28: base::IsPathExecutable(FilePath(d)); break;
    case 29: base::CopyDirectoryExcl(FilePath(d + "/tree"), FilePath(d + "/copy2"), sim::Chance(1, 2)); break;
    case 30: { File f(src, File::FLAG_OPEN | File::FLAG_READ); int fd = f.TakePlatformFile(); SIM_CHECK(!f.IsValid(), "released file still valid"); base::ScopedFD s2(fd); base::ScopedFD s3(std::move(s2)); s3.reset(); break; }
    case 31: base::IsDirectoryEmpty(FilePath(d + "/tree")); break;
    case 32: { FilePath p; base::CreateTemporaryFileInDir(FilePath(d), &p); FilePath q; base::CreateNewTempDirectory("pre", &q); break; }
  }
}
SIM_SCENARIO("C17", no_leaks, sim::kIo, 5, 16) {
  fs::MkdirP("/d/tree/sub/deep");
  fs::Put("/d/tree/a", Bytes(FSize()));
  fs::Put("/d/tree/sub/b", "bb");
  fs::Put("/d/in", Bytes(FSize()));
  int n = (int)sim::Range(1, 4), ops[4];
  for (int i = 0; i < n; ++i) ops[i] = (int)sim::Below(33);
  sim::Describe("operations %d %d %d %d", ops[0], n > 1 ? ops[1] : -1, n > 2 ? ops[2] : -1, n > 3 ? ops[3] : -1);
  Owner own;
  sim::EnableFaults(kAll);
  for (int i = 0; i < n; ++i) {
    OneOp(ops[i], "/d", "/d/in");
    char what[32];
    snprintf(what, sizeof what, "operation %d", ops[i]);
    CheckClean(what);
  }
}
SIM_SCENARIO("C17", concurrent, sim::kMt | sim::kIo, 3, 10) {
  // several threads work at once; descriptors must never be confused or leaked
  int nt = (int)sim::Range(2, 4);
  int ops[4][3];
  for (auto& r : ops) for (int& o : r) { do o = (int)sim::Below(33); while (o == 28 || o == 27); }
  for (int t = 0; t < nt; ++t) {
    string d = "/d/w" + std::to_string(t);
    fs::MkdirP(d + "/tree/sub");
    fs::Put(d + "/tree/a", Bytes(sim::Below(3000)));
    fs::Put(d + "/in", "thread " + std::to_string(t) + Bytes(sim::Below(100)));
  }
  sim::Describe("threads=%d operations %d.. %d..", nt, ops[0][0], ops[1][0]);
  Owner own;
  sim::EnableFaults(kAll);
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      string d = "/d/w" + std::to_string(t);
      for (int o : ops[t]) OneOp(o, d, d + "/in");
    });
  for (auto& t : th) t.join();
  sim::DisableFaults();
  CheckClean("the threads");
  for (int t = 0; t < nt; ++t) {
    string s;
    SIM_CHECK(fs::Get("/d/w" + std::to_string(t) + "/in", &s), "an input disappeared");
  }
}
SIM_SCENARIO("C17", temp_names, sim::kMt | sim::kIo, 3, 12) {
  int nt = (int)sim::Range(2, 4), per = (int)sim::Range(1, 4);
  int kind = (int)sim::Below(3);
  fs::MkdirP("/t");
  for (uint64_t k = sim::Below(4); k; --k) fs::Put("/t/.org.kroma.Tachyon.aaaaa" + string(1, 'a' + (char)k), "existing");
  sim::Describe("temporary names threads=%d each=%d kind=%d", nt, per, kind);
  Tree before = Read("/t");
  std::vector<std::vector<string>> made(nt);
  sim::EnableFaults(sim::Bit(sim::kEintr) | sim::Bit(sim::kEmfile) | sim::Bit(sim::kEnospc) | sim::Bit(sim::kEacces));
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (int i = 0; i < per; ++i) {
        FilePath p;
        string tag = std::to_string(t) + "." + std::to_string(i);
        if (kind == 0) {
          File f = base::CreateAndOpenTemporaryFileInDir(FilePath("/t"), &p);
          if (!f.IsValid()) continue;
          if (!f.WriteAtCurrentPosAndCheck(absl::Span<const uint8_t>((const uint8_t*)tag.data(), tag.size()))) { continue; }
          made[t].push_back(p.value() + "|" + tag);
        } else if (kind == 1) {
          if (!base::CreateTemporaryDirInDir(FilePath("/t"), "dir", &p)) continue;
          if (base::WriteFile(p.Append("tag"), std::string_view(tag))) made[t].push_back(p.value() + "/tag|" + tag);
        } else {
          base::ScopedTempDir d;
          if (!d.CreateUniqueTempDirUnderPath(FilePath("/t"))) continue;
          string mine = d.GetPath().value();
          if (base::WriteFile(d.GetPath().Append("tag"), std::string_view(tag))) {
            sim::Yield();
            string got;
            SIM_CHECK(fs::Get(mine + "/tag", &got) && got == tag, "a temporary directory is shared");
          }
          if (sim::Chance(1, 3)) { FilePath kept = d.Take(); made[t].push_back(kept.value() + "|"); }
        }
      }
    });
  for (auto& t : th) t.join();
  sim::DisableFaults();
  std::set<string> names;
  for (auto& v : made)
    for (auto& e : v) {
      size_t bar = e.find('|');
      string p = e.substr(0, bar), tag = e.substr(bar + 1);
      SIM_CHECK(names.insert(p).second, "temporary name '%s' handed out twice", p.c_str());
      if (kind == 2) SIM_CHECK(fs::Lookup(p).kind == fs::kDir, "a released directory was deleted");
      else SIM_CHECK(Now(p) == tag, "temporary '%s' holds another caller's data", p.c_str());
    }
  Tree after = Read("/t");
  for (auto& kv : before) SIM_CHECK(after.count(kv.first) && after[kv.first] == kv.second, "an existing file was replaced by a temporary one");
  CheckClean("temporary files");
}
SIM_SCENARIO("C17", temp_dir_owner, sim::kIo, 3, 12) {
  fs::MkdirP("/t/base");
  fs::Put("/t/keep", "keep");
  fs::MkdirP("/t/own");
  fs::Put("/t/own/keep", "own");
  fs::MkdirP("/victim");
  fs::Put("/victim/keep", "precious");
  uint32_t faults = kTreeFaults;
  int ops = (int)sim::Range(2, 8);
  sim::Describe("scoped directories ops=%d", ops);
  std::set<string> released;
  bool own_touched = false;
  string had[2];
  auto dir = [&](const string& p) { return fs::Lookup(p).kind != fs::kNone; };
  {
    base::ScopedTempDir d[2];
    sim::EnableFaults(faults);
    for (int i = 0; i < ops; ++i) {
      int x = (int)sim::Below(2), y = 1 - x;
      // an owner that an assignment replaces may fail to delete its directory; it then remains
      auto replaced = [&](const string& p, bool clean) {
        if (p.empty()) return;
        if (clean) SIM_CHECK(!dir(p), "a temporary directory outlived its owner");
        own_touched = own_touched || p == "/t/own";
      };
      switch (sim::Below(7)) {
        case 0: {
          Window w;
          bool ok = d[x].CreateUniqueTempDirUnderPath(FilePath("/t/base"));
          if (w.Clean() && had[x].empty()) SIM_CHECK(ok, "creating a directory failed");
          if (!ok) break;
          SIM_CHECK(had[x].empty(), "an owner replaced its directory");
          had[x] = d[x].GetPath().value();
          SIM_CHECK(fs::Lookup(had[x]).kind == fs::kDir, "no directory was made");
          SIM_CHECK(!released.count(had[x]), "a name in use was handed out");
          SIM_CHECK(had[x] != had[y], "two owners of one directory");
          base::WriteFile(d[x].GetPath().Append("f"), std::string_view("x"));
          fs::Symlink("/victim", had[x] + "/l");
          break;
        }
        case 1: {
          FilePath t = d[x].Take();
          SIM_CHECK(t.value() == had[x], "an owner of '%s' released '%s'", had[x].c_str(), t.value().c_str());
          if (!had[x].empty()) released.insert(had[x]);
          had[x].clear();
          break;
        }
        case 2: {
          Window w;
          bool ok = d[x].Delete();
          if (had[x].empty()) { SIM_CHECK(!ok, "an owner of nothing deleted something"); break; }
          SIM_CHECK(ok == !dir(had[x]), "deletion reported wrongly");
          if (w.Clean()) SIM_CHECK(ok, "deletion failed");
          own_touched = own_touched || had[x] == "/t/own";
          if (!ok) break;  // still the owner's
          had[x].clear();
          break;
        }
        case 3: { base::ScopedTempDir c(std::move(d[x])); d[x] = std::move(c); break; }
        case 4: { Window w; d[x] = std::move(d[y]); bool clean = w.Clean(); replaced(had[x], clean); had[x] = had[y]; had[y].clear(); break; }
        case 5: {
          string p = sim::Chance(1, 4) ? "/t/keep" : sim::Chance(1, 4) ? "/t/own" : "/t/set" + std::to_string(i);
          if (p == "/t/own" && (had[y] == p || released.count(p))) break;
          Window w;
          bool ok = d[x].Set(FilePath(p));
          SIM_CHECK(!ok || (had[x].empty() && fs::Lookup(p).kind == fs::kDir), "an owner took '%s'", p.c_str());
          if (w.Clean() && had[x].empty() && p != "/t/keep") SIM_CHECK(ok, "setting '%s' failed", p.c_str());
          if (ok) had[x] = p;
          break;
        }
        default: { Window w; bool v = d[x].IsValid(); if (w.Clean()) SIM_CHECK(v == !had[x].empty(), "an owner of '%s' says %d", had[x].c_str(), v); break; }
      }
    }
    sim::DisableFaults();
  }
  for (auto& p : had) if (!p.empty()) { SIM_CHECK(!dir(p), "a temporary directory outlived its owner"); own_touched = own_touched || p == "/t/own"; }
  for (auto& p : released) SIM_CHECK(dir(p), "a released directory was deleted");
  SIM_CHECK(own_touched || Now("/t/own/keep") == "own", "a directory without an owner was deleted");
  SIM_CHECK(Now("/t/keep") == "keep" && Now("/victim/keep") == "precious", "something outside a temporary directory was deleted");
  CheckClean("scoped directories");
}
SIM_SCENARIO("C17", file_states, sim::kIo, 3, 10) {
  // closed, moved-from and failed objects hold nothing and are invalid
  fs::MkdirP("/d");
  fs::Put("/d/f", Bytes(100));
  Owner own;
  int ops = (int)sim::Range(2, 8);
  sim::Describe("file object states ops=%d", ops);
  sim::EnableFaults(kAll);
  {
    File f[3];
    bool valid[3] = {false, false, false};
    for (int i = 0; i < ops; ++i) {
      int x = (int)sim::Below(3), y = (int)sim::Below(3);
      switch (sim::Below(6)) {
        case 0: f[x] = File(FilePath("/d/f"), File::FLAG_OPEN | File::FLAG_READ); valid[x] = f[x].IsValid(); break;
        case 1: if (x != y) { f[x] = std::move(f[y]); valid[x] = valid[y]; valid[y] = false; } break;
        case 2: f[x].Close(); valid[x] = false; break;
        case 3: if (x != y) { f[x] = f[y].Duplicate(); SIM_CHECK(!f[x].IsValid() || valid[y], "duplicate of an invalid file"); valid[x] = f[x].IsValid(); if (valid[x]) SIM_CHECK(f[x].GetPlatformFile() != f[y].GetPlatformFile(), "duplicate shares its descriptor"); } break;
        case 4: { File t(std::move(f[x])); SIM_CHECK(t.IsValid() == valid[x], "moved file"); f[x] = std::move(t); break; }
        case 5: std::swap(f[x], f[y]); std::swap(valid[x], valid[y]); break;
      }
      size_t n = 0;
      for (int k = 0; k < 3; ++k) { SIM_CHECK(f[k].IsValid() == valid[k], "validity of object %d is wrong", k); n += valid[k]; if (!valid[k]) SIM_CHECK(f[k].GetPlatformFile() == -1, "an invalid file still names a descriptor"); else SIM_CHECK(base::IsFDOwned(f[k].GetPlatformFile()), "an open file does not own its descriptor"); }
      SIM_CHECK(fs::OpenFds() == n, "%zu descriptors are open for %zu files", fs::OpenFds(), n);
    }
  }
  CheckClean("file objects");
}

// ---------------------------------------------------------------- C18
SIM_SCENARIO("C18", map_region, sim::kIo, 5, 14) {
  using M = base::MemoryMappedFile;
  fs::MkdirP("/d");
  static const size_t sizes[] = {1, 100, 4095, 4096, 4097, 8192, 12287, 12288, 12289, 20000};
  size_t size = sim::Chance(1, 2) ? sim::Pick(sizes) : sim::Below(16000);
  string data = Bytes(size);
  fs::Put("/d/f", data);
  int how = (int)sim::Below(3);  // by name, whole file, region
  M::Access access = (M::Access)sim::Below(how == 2 ? 4 : 3);
  M::Region r = M::Region::kWholeFile;
  if (how == 2) {
    int64_t off = sim::Chance(1, 2) ? (int64_t)sim::Below(size + 1) : (int64_t)sim::Below(5) * 4096 + (int64_t)sim::Below(3) - 1;
    if (off < 0) off = 0;
    if (access != M::READ_WRITE_EXTEND) { if ((size_t)off > size) off = size; r = {off, (size_t)sim::Below(size - off + 1)}; }
    else r = {off, (size_t)sim::Range(1, 9000)};
  }
  bool whole = r == M::Region::kWholeFile;
  if (whole && access == M::READ_WRITE_EXTEND) r = {0, 1}, whole = false;
  size_t off = whole ? 0 : r.offset, len = whole ? size : r.size;
  sim::Describe("map how=%d access=%d file=%zu offset=%zu length=%zu", how, access, size, off, len);
  sim::EnableFaults(kAll);
  Window w;
  {
    M m;
    bool ok;
    bool opened = true;
    if (how == 0) ok = m.Initialize(FilePath("/d/f"), access);
    else {
      uint32_t fl = File::FLAG_OPEN | File::FLAG_READ | (access == M::READ_WRITE || access == M::READ_WRITE_EXTEND ? File::FLAG_WRITE : 0);
      File f(FilePath("/d/f"), fl);
      opened = f.IsValid();
      if (!opened) return;
      if (how == 1) ok = m.Initialize(std::move(f), access == M::READ_WRITE_EXTEND ? M::READ_ONLY : access);
      else ok = m.Initialize(std::move(f), r, access);
    }
    if (how == 1 && access == M::READ_WRITE_EXTEND) access = M::READ_ONLY;
    SIM_CHECK(ok == m.IsValid(), "mapping reported %d but the object is %s", ok, m.IsValid() ? "mapped" : "unmapped");
    if (!ok) {
      SIM_CHECK(!w.Clean() || len == 0, "mapping failed although nothing went wrong");
      SIM_CHECK(m.length() == 0 && fs::Maps() == 0 && fs::OpenFds() == 0, "failed mapping holds %zu mappings and %zu descriptors", fs::Maps(), fs::OpenFds());
      if (access != M::READ_WRITE_EXTEND) SIM_CHECK(Now("/d/f") == data, "failed mapping changed the file");
      else { string got = Now("/d/f"); SIM_CHECK(got.compare(0, size, data) == 0, "failed mapping changed the file"); for (size_t i = size; i < got.size(); ++i) SIM_CHECK(!got[i], "garbage in the extension"); }
      // it can be used again
      sim::DisableFaults();
      if (size) SIM_CHECK(m.Initialize(FilePath("/d/f"), M::READ_ONLY), "an unmapped object cannot be used again");
    } else {
      SIM_CHECK(len > 0 && m.length() == len, "mapped %zu bytes instead of %zu", m.length(), len);
      string want = data;
      if (access == M::READ_WRITE_EXTEND && want.size() < off + len) want.resize(off + len, 0);
      SIM_CHECK(!memcmp(m.data(), want.data() + off, len), "the mapping shows other bytes than the file's region");
      SIM_CHECK(m.bytes().size() == len && m.bytes().data() == m.data(), "span");
      SIM_CHECK(!m.Initialize(FilePath("/d/f")), "a mapped object was mapped again");
      if (access != M::READ_ONLY) {
        for (int k = 0; k < 4; ++k) {
          size_t at = k == 0 ? 0 : k == 1 ? len - 1 : sim::Below(len);
          uint8_t v = (uint8_t)sim::Rand();
          m.data()[at] = v;
          if (access != M::READ_WRITE_COPY) want[off + at] = (char)v;
        }
      }
      SIM_CHECK(Now("/d/f") == want, "the file does not hold what the mapping wrote");
      if (access == M::READ_WRITE && sim::Chance(1, 2)) {  // changes made to the file are visible
        string d2 = want;
        d2[off] ^= 1;
        fs::Put("/d/f", d2);
        SIM_CHECK(m.data()[0] == (uint8_t)d2[off], "the mapping does not show the file");
        want = d2;
      }
      data = want;
    }
  }
  sim::DisableFaults();
  SIM_CHECK(fs::Maps() == 0, "the mapping outlived its owner");
  SIM_CHECK(fs::OpenFds() == 0, "a descriptor outlived its owner");
  string bad = fs::BadOps();
  SIM_CHECK(bad.empty(), "%s", bad.c_str());
}
SIM_SCENARIO("C18", bin_file, sim::kIo, 2, 10) {
  fs::MkdirP("/d");
  string data = Bytes(FSize()), data2 = Bytes(FSize());
  fs::Put("/d/f", data);
  fs::Put("/d/g", data2);
  bool use = sim::Chance(1, 2), again = sim::Chance(1, 2), use2 = sim::Chance(1, 2);
  sim::Describe("bin file mmap=%d size=%zu again=%d mmap=%d size=%zu", use, data.size(), again, use2, data2.size());
  sim::EnableFaults(kAll);
  {
    base::BinFile b;
    Window w;
    bool ok = b.Load(FilePath("/d/f"), use);
    if (ok) {
      SIM_CHECK(b.GetDataLength() == data.size() && !memcmp(b.GetData(), data.data(), data.size()), "loaded other bytes");
      if (data.size()) { b.GetData()[0] ^= 1; SIM_CHECK(Now("/d/f") == data, "changing the loaded data changed the file"); b.GetData()[0] ^= 1; }
    } else SIM_CHECK(!w.Clean() || (use && data.empty()), "loading failed although nothing went wrong");
    if (again) {
      Window w2;
      bool ok2 = b.Load(FilePath("/d/g"), use2);
      if (ok2) SIM_CHECK(b.GetDataLength() == data2.size() && !memcmp(b.GetData(), data2.data(), data2.size()), "loading a second file shows other bytes");
    }
  }
  sim::DisableFaults();
  SIM_CHECK(fs::Maps() == 0 && fs::OpenFds() == 0, "loading leaked");
}
}  // namespace
