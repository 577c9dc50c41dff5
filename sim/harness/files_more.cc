// C15-C17, continued: enumeration with patterns, links and absolute paths, permissions, locks, names,
// descriptors, temporary directories, file states.
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "sim.h"
#include "tachyon/base/files/file.h"
#include "tachyon/base/files/file_enumerator.h"
#include "tachyon/base/files/file_path.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/base/files/scoped_file.h"
#include "tachyon/base/files/scoped_temp_dir.h"

using namespace tachyon;
using base::File;
using base::FileEnumerator;
using base::FilePath;
namespace fs = sim::fs;
using std::string;

namespace {
constexpr uint32_t kFaults = sim::Bit(sim::kEintr) | sim::Bit(sim::kEio) | sim::Bit(sim::kEacces) | sim::Bit(sim::kEmfile);
struct Window {
  uint32_t at = sim::FaultsInjected();
  bool Clean() const { return sim::FaultsInjected() == at; }
};

// By the definition: * any string, ? one character.
bool Glob(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') return Glob(p + 1, s) || (*s && Glob(p, s + 1));
  return *s && (*p == '?' || *p == *s) && Glob(p + 1, s + 1);
}
bool Matches(const string& pattern, const string& name) { return pattern.empty() || Glob(pattern.c_str(), name.c_str()); }

string Name() {
  const char* stem[] = {"a", "b", "ab", "ba", "x", "aa"};
  const char* ext[] = {"", "", ".txt", ".t", ".tar.gz", ".a"};
  return string(sim::Pick(stem)) + sim::Pick(ext);
}
struct Entry { string path; bool dir, link; };  // path relative to the root
void Fill(const string& root, const string& rel, int depth, bool links, std::vector<Entry>* out) {
  std::set<string> used;
  for (size_t k = sim::Below(5); k-- > 0;) {
    string n = Name();
    if (!used.insert(n).second) continue;
    string p = rel.empty() ? n : rel + "/" + n;
    uint64_t what = sim::Below(links ? 6 : 4);
    if (depth && what < 2) {
      fs::MkdirP(root + "/" + p);
      out->push_back({p, true, false});
      Fill(root, p, depth - 1, links, out);
    } else if (what >= 4) {
      fs::Symlink(sim::Pick({root, string("/nowhere"), string("/d/other"), root + "/" + p}), root + "/" + p);
      out->push_back({p, false, true});
    } else {
      fs::Put(root + "/" + p, string(sim::Below(9), 'x'));
      out->push_back({p, false, false});
    }
  }
}

SIM_SCENARIO("C16", patterns, sim::kIo, 3, 8) {
  fs::MkdirP("/d/src");
  fs::Put("/d/other", "");
  std::vector<Entry> all;
  Fill("/d/src", "", (int)sim::Range(0, 3), true, &all);
  bool rec = sim::Chance(2, 3), names = !rec && sim::Chance(1, 3), dots = !rec && sim::Chance(1, 3), show = sim::Chance(1, 2);
  int type = (int)sim::Range(1, 3);
  string pattern = sim::Pick({string(), string("*"), string("a*"), string("*.txt"), string("?"), string("??*"), string("*.*"), string("b?"), string("x"), string("*a"), string("*a*.t*"), string("none")});
  auto policy = sim::Chance(1, 2) ? FileEnumerator::FolderSearchPolicy::MATCH_ONLY : FileEnumerator::FolderSearchPolicy::ALL;
  bool match_only = policy == FileEnumerator::FolderSearchPolicy::MATCH_ONLY;
  bool stop = sim::Chance(1, 2), each = sim::Chance(1, 2), slash = sim::Chance(1, 4);
  if (each) stop = false;
  int flags = names ? FileEnumerator::NAMES_ONLY : type | (show ? FileEnumerator::SHOW_SYM_LINKS : 0);
  if (names) type = 3, show = true;
  if (dots) flags |= FileEnumerator::INCLUDE_DOT_DOT;
  sim::Describe("list %zu entries, recursive=%d flags=%d pattern='%s' %s", all.size(), rec, flags, pattern.c_str(), match_only ? "match only" : "all");
  std::multiset<string> want;
  for (const Entry& e : all) {
    // The chain of directories that leads to it has to be searched.
    size_t at = e.path.find('/');
    if (!rec && at != string::npos) continue;
    string top = e.path.substr(0, at), last = e.path.substr(e.path.rfind('/') + 1);
    bool dir = e.dir;
    if (e.link && !show) {
      string t = "/d/src/" + e.path;
      dir = base::DirectoryExists(FilePath(t));  // a link to the root
    }
    if (match_only ? !Matches(pattern, top) : !Matches(pattern, last)) continue;
    if (!(type & (dir ? 2 : 1))) continue;
    want.insert("/d/src/" + e.path);
  }
  if (dots && (type & 2) && Matches(pattern, "..")) want.insert("/d/src/..");
  std::multiset<string> got;
  File::Error err = File::FILE_OK;
  sim::EnableFaults(kFaults);
  Window w;
  {
    FileEnumerator e(FilePath(slash ? "/d/src/" : "/d/src"), rec, flags, pattern, policy, stop ? FileEnumerator::ErrorPolicy::STOP_ENUMERATION : FileEnumerator::ErrorPolicy::IGNORE_ERRORS);
    if (each) {
      e.ForEach([&](const FilePath& p) { got.insert(p.value()); });
    } else {
      for (FilePath p = e.Next(); !p.empty(); p = e.Next()) {
        got.insert(p.value());
        if (names) continue;
        auto info = e.GetInfo();
        SIM_CHECK(info.GetName() == p.BaseName(), "information about '%s' comes with '%s'", info.GetName().value().c_str(), p.value().c_str());
      }
    }
    err = e.GetError();
  }
  bool clean = w.Clean();
  sim::DisableFaults();
  if (clean) {
    SIM_CHECK(err == File::FILE_OK, "listing reports error %d although nothing went wrong", err);
    for (auto& g : got) SIM_CHECK(want.count(g), "'%s' listed, which was not asked for", g.c_str());
    for (auto& x : want) SIM_CHECK(got.count(x) == 1, "'%s' listed %zu times", x.c_str(), got.count(x));
  } else {
    for (auto& g : got) SIM_CHECK(got.count(g) == 1 && fs::Lookup(g).kind != fs::kNone || g == "/d/src/..", "'%s' listed %zu times", g.c_str(), got.count(g));
  }
}

// --- links and absolute paths: resolved by the definition, component by component ---
std::vector<string> Split(const string& p) {
  std::vector<string> r;
  string cur;
  for (char c : p + "/") {
    if (c == '/') { if (!cur.empty()) r.push_back(cur); cur.clear(); }
    else cur += c;
  }
  return r;
}
string Join(const std::vector<string>& v) {
  string s;
  for (auto& x : v) s += "/" + x;
  return s.empty() ? "/" : s;
}
bool Resolve(const string& cwd, const string& path, string* out) {
  std::vector<string> done = path[0] == '/' ? std::vector<string>() : Split(cwd), todo = Split(path);
  std::reverse(todo.begin(), todo.end());
  int hops = 0;
  bool must_be_dir = path.size() > 1 && path.back() == '/';
  while (!todo.empty()) {
    string c = todo.back();
    todo.pop_back();
    if (fs::Lookup(Join(done)).kind != fs::kDir) return false;
    if (c == ".") continue;
    if (c == "..") { if (!done.empty()) done.pop_back(); continue; }
    done.push_back(c);
    auto st = fs::Lookup(Join(done));
    if (st.kind == fs::kNone) return false;
    if (st.kind == fs::kLink) {
      if (++hops > 30) return false;
      FilePath t;
      if (!base::ReadSymbolicLink(FilePath(Join(done)), &t)) return false;
      done.pop_back();
      if (t.value()[0] == '/') done.clear();
      auto more = Split(t.value());
      for (size_t i = more.size(); i-- > 0;) todo.push_back(more[i]);
      if (t.value().back() == '/' && todo.empty()) must_be_dir = true;
    }
  }
  *out = Join(done);
  auto k = fs::Lookup(*out).kind;
  return k != fs::kNone && (!must_be_dir || k == fs::kDir);
}
string Lexical(const string& cwd, const string& path) {
  std::vector<string> r = path[0] == '/' ? std::vector<string>() : Split(cwd);
  for (auto& c : Split(path)) {
    if (c == ".") continue;
    if (c == "..") { if (!r.empty()) r.pop_back(); continue; }
    r.push_back(c);
  }
  return Join(r);
}
SIM_SCENARIO("C16", paths, sim::kIo, 2, 8) {
  fs::MkdirP("/d/t/u");
  fs::MkdirP("/d/v");
  fs::Put("/d/f", "1");
  fs::Put("/d/t/f", "22");
  fs::Put("/d/t/u/g", "333");
  const char* targets[] = {"/d/f", "f", "t", "../d/t", "t/u", "nothing", "l1", "l2", "../v/l1", "/d/v", ".", "..", "./t/../f", "/d/t/u", "u/../f", "/"};
  const char* places[] = {"/d/l1", "/d/l2", "/d/t/l1", "/d/v/l1", "/d/t/u/l2"};
  for (auto* p : places) if (sim::Chance(3, 4)) fs::Symlink(sim::Pick(targets), p);
  string cwd = sim::Pick({string("/d"), string("/d/t"), string("/"), string("/d/t/u")});
  SIM_REQUIRE(base::SetCurrentDirectory(FilePath(cwd)));
  const char* comps[] = {"d", "t", "u", "v", "f", "g", "l1", "l2", "..", ".", "none", "l1", ".."};
  string path = sim::Chance(1, 2) ? (sim::Chance(1, 2) ? "/d/" : "/") : "";
  size_t n = sim::Range(1, 5);
  for (size_t i = 0; i < n; ++i) { path += sim::Pick(comps); if (i + 1 < n) path += "/"; }
  sim::Describe("path %s in %s", path.c_str(), cwd.c_str());
  string want;
  bool can = Resolve(cwd, path, &want);
  auto direct = [&] {  // the kind of the place itself, with links before the last component followed
    std::vector<string> v = Split(path);
    if (v.empty() || v.back() == "." || v.back() == "..") return fs::kNone;
    string last = v.back();
    size_t cut = path.size() - last.size();
    string dir = path.substr(0, cut), r;
    if (dir.empty()) dir = ".";
    if (!Resolve(cwd, dir, &r)) return fs::kNone;
    return fs::Lookup(r == "/" ? "/" + last : r + "/" + last).kind;
  };
  FilePath here;
  SIM_CHECK(base::GetCurrentDirectory(&here) && here.value() == cwd, "current directory is reported as '%s'", here.value().c_str());
  sim::EnableFaults(kFaults);
  Window w;
  FilePath abs = base::MakeAbsoluteFilePath(FilePath(path));
  if (w.Clean()) SIM_CHECK(can ? abs.value() == want : abs.empty(), "absolute path of '%s' is '%s' instead of '%s'", path.c_str(), abs.value().c_str(), can ? want.c_str() : "");
  else SIM_CHECK(abs.empty() || (can && abs.value() == want), "absolute path of '%s' is '%s' instead of '%s'", path.c_str(), abs.value().c_str(), want.c_str());
  Window w2;
  FilePath norm("untouched");
  bool ok = base::NormalizeFilePath(FilePath(path), &norm);
  sim::DisableFaults();
  bool is_dir = can && fs::Lookup(want).kind == fs::kDir;
  bool clean2 = w2.Clean();
  if (ok) SIM_CHECK(can && norm.value() == want && (!is_dir || !clean2), "normalised to '%s'", norm.value().c_str());
  else SIM_CHECK(norm.value() == "untouched" && (!can || is_dir || !clean2), "'%s' not normalised", path.c_str());
  auto lex = base::MakeAbsoluteFilePathNoResolveSymbolicLinks(FilePath(path));
  SIM_CHECK(lex && lex->value() == Lexical(cwd, path), "'%s' without following links is '%s'", path.c_str(), lex ? lex->value().c_str() : "(none)");
  bool link = direct() == fs::kLink;
  SIM_CHECK(base::IsLink(FilePath(path)) == link, "whether '%s' is a link is reported wrongly", path.c_str());
  FilePath t;
  bool got = base::ReadSymbolicLink(FilePath(path), &t);
  SIM_CHECK(got == link, "reading the link '%s' %s", path.c_str(), got ? "succeeds" : "fails");
  auto la = base::ReadSymbolicLinkAbsolute(FilePath(path));
  SIM_CHECK(la.has_value() == link, "reading the link '%s' %s", path.c_str(), la ? "succeeds" : "fails");
  if (link) {
    string dir = path.find('/') == string::npos ? "." : path.substr(0, path.rfind('/') ? path.rfind('/') : 1);
    string full = t.value()[0] == '/' ? t.value() : dir + "/" + t.value();
    SIM_CHECK(la->value() == Lexical(cwd, full), "link '%s' leads to '%s' instead of '%s'", path.c_str(), la->value().c_str(), Lexical(cwd, full).c_str());
  }
  // What is seen through the path is what lies where it leads.
  SIM_CHECK(base::PathExists(FilePath(path)) == can, "existence of '%s' is reported wrongly", path.c_str());
  SIM_CHECK(base::DirectoryExists(FilePath(path)) == is_dir, "whether '%s' is a directory is reported wrongly", path.c_str());
  File::Info info;
  bool has = base::GetFileInfo(FilePath(path), &info);
  SIM_CHECK(has == can, "information about '%s' %s", path.c_str(), has ? "given" : "refused");
  if (has) SIM_CHECK(info.is_directory == is_dir && (is_dir || info.size == (int64_t)fs::Lookup(want).size), "information about '%s' is wrong", path.c_str());
  int64_t size = -7;
  bool sized = base::GetFileSize(FilePath(path), &size);
  SIM_CHECK(sized == can, "size of '%s' %s", path.c_str(), sized ? "given" : "refused");
  if (sized && !is_dir) SIM_CHECK(size == (int64_t)fs::Lookup(want).size, "size of '%s'", path.c_str());
}

SIM_SCENARIO("C16", permissions, sim::kIo, 1, 10) {
  unsigned bits = (unsigned)sim::Below(01000), high = sim::Chance(1, 2) ? (unsigned)(sim::Below(8) << 9) : 0;
  int want = (int)sim::Below(01000);
  bool dir = sim::Chance(1, 3), through = sim::Chance(1, 3), none = sim::Chance(1, 8);
  fs::MkdirP("/d");
  if (dir) fs::MkdirP("/d/p", high | bits);
  else fs::Put("/d/p", "x", high | bits);
  fs::MkdirP("/l");
  fs::Symlink("../d/p", "/l/l");
  FilePath p(none ? "/d/none" : through ? "/l/l" : "/d/p");
  sim::Describe("%s mode %o to %o", p.value().c_str(), high | bits, want);
  sim::EnableFaults(kFaults);
  Window w;
  int mode = -1;
  bool ok = base::GetPosixFilePermissions(p, &mode);
  if (w.Clean()) SIM_CHECK(ok == !none, "reading the permissions %s", ok ? "succeeds" : "fails");
  if (ok) SIM_CHECK(mode == (int)bits, "permissions %o are read as %o", bits, mode);
  Window w2;
  bool set = base::SetPosixFilePermissions(p, want);
  bool clean = w2.Clean();
  sim::DisableFaults();
  unsigned now = fs::Lookup("/d/p").mode & 07777;
  if (clean) SIM_CHECK(set == !none, "setting the permissions %s", set ? "succeeds" : "fails");
  if (set) SIM_CHECK(now == (high | (unsigned)want), "permissions %o became %o instead of %o", high | bits, now, high | want);
  else SIM_CHECK(now == (high | bits) || (!clean && now == (high | (unsigned)want)), "refused change of permissions changed them");
  unsigned m = none ? 0 : now;
  SIM_CHECK(base::PathIsReadable(p) == ((m & 0400) != 0), "whether it is readable");
  SIM_CHECK(base::PathIsWritable(p) == ((m & 0200) != 0), "whether it is writable");
}

// --- names ---
SIM_SCENARIO("C17", unique_names, sim::kIo, 1, 6) {
  fs::MkdirP("/d/x.y");
  const char* names[] = {"f", "f.txt", "a.tar.gz", ".hidden", "f.", "x.y/f", "f (1).txt", "dir/f"};
  string name = sim::Pick(names);
  fs::MkdirP("/d/dir");
  string path = "/d/" + name;
  size_t slash = path.rfind('/'), dot = path.rfind('.');
  // tar.gz counts as one extension; a leading dot is an extension as well
  if (path.size() > 7 && path.compare(path.size() - 7, 7, ".tar.gz") == 0) dot = path.size() - 7;
  if (dot == string::npos || dot < slash) dot = path.size();
  auto with = [&](int k) { return k ? path.substr(0, dot) + " (" + std::to_string(k) + ")" + path.substr(dot) : path; };
  bool full = sim::Chance(1, 6);
  std::set<int> taken;
  for (int k = 0; k <= 100; ++k) if (full || (k < 6 && sim::Chance(2, 3))) taken.insert(k);
  if (full && sim::Chance(1, 2)) taken.erase((int)sim::Below(101));
  for (int k : taken) { if (sim::Chance(1, 5)) fs::MkdirP(with(k)); else fs::Put(with(k), "x"); }
  int want = 0;
  while (want <= 100 && taken.count(want)) ++want;
  sim::Describe("unique name for %s, %zu taken, first free %d", path.c_str(), taken.size(), want);
  int num = base::GetUniquePathNumber(FilePath(path));
  FilePath u = base::GetUniquePath(FilePath(path));
  if (want > 100) SIM_CHECK(num == -1 && u.empty(), "a name was found although all are taken: %d '%s'", num, u.value().c_str());
  else SIM_CHECK(num == want && u.value() == with(want), "the unique name is '%s' (%d) instead of '%s'", u.value().c_str(), num, with(want).c_str());
}

SIM_SCENARIO("C17", temp_dirs, sim::kIo, 2, 12) {
  fs::MkdirP("/d/base");
  fs::MkdirP("/tmp");
  size_t before = fs::Tree("/tmp").size();
  sim::Describe("scoped temporary directories");
  sim::EnableFaults(kFaults);
  string first, second;
  {
    base::ScopedTempDir a, b;
    SIM_CHECK(!a.IsValid(), "a new scoped directory is valid");
    bool ok = sim::Chance(1, 2) ? a.CreateUniqueTempDir() : a.CreateUniqueTempDirUnderPath(FilePath("/d/base/deep/er"));
    sim::DisableFaults();
    SIM_CHECK(ok == a.IsValid(), "creation reported %d", ok);
    sim::EnableFaults(kFaults);
    if (ok) {
      first = a.GetPath().value();
      SIM_CHECK(fs::Lookup(first).kind == fs::kDir, "the temporary directory does not exist");
      SIM_CHECK((fs::Lookup(first).mode & 077) == 0, "the temporary directory is open to others");
      // A second creation on the same owner is refused and changes nothing.
      bool again = sim::Chance(1, 3) ? a.CreateUniqueTempDir() : sim::Chance(1, 2) ? a.CreateUniqueTempDirUnderPath(FilePath("/d/base")) : a.Set(FilePath("/d/base"));
      SIM_CHECK(!again && a.GetPath().value() == first, "an owner took a second directory");
      if (sim::Chance(1, 2)) fs::Put(first + "/f", "x");
      switch (sim::Below(4)) {
        case 0: {
          base::ScopedTempDir c(std::move(a));
          sim::DisableFaults();
          SIM_CHECK(c.IsValid() && c.GetPath().value() == first && !a.IsValid(), "moving a scoped directory");
          SIM_CHECK(fs::Lookup(first).kind == fs::kDir, "moving an owner deleted the directory");
          sim::EnableFaults(kFaults);
          break;
        }
        case 1: {
          if (b.CreateUniqueTempDirUnderPath(FilePath("/d/base"))) second = b.GetPath().value();
          SIM_CHECK(second.empty() || second != first, "two owners got the same directory");
          b = std::move(a);
          SIM_CHECK(b.GetPath().value() == first && !a.IsValid(), "move assignment of a scoped directory");
          SIM_CHECK(fs::Lookup(first).kind == fs::kDir, "moving an owner deleted the directory");
          break;
        }
        case 2: {
          FilePath t = a.Take();
          SIM_CHECK(t.value() == first && !a.IsValid(), "taking a directory from its owner");
          SIM_CHECK(fs::Lookup(first).kind == fs::kDir, "taking a directory deleted it");
          sim::DisableFaults();
          base::DeletePathRecursively(t);
          sim::EnableFaults(kFaults);
          break;
        }
        default: {
          bool gone = a.Delete();
          SIM_CHECK(gone == (fs::Lookup(first).kind == fs::kNone), "deletion of the temporary directory reported %d", gone);
          if (gone) SIM_CHECK(!a.IsValid(), "a deleted directory is still owned");
          break;
        }
      }
    }
  }
  bool clean = sim::FaultsInjected() == 0;
  sim::DisableFaults();
  if (clean) {
    SIM_CHECK(first.empty() || fs::Lookup(first).kind == fs::kNone, "'%s' outlived its owner", first.c_str());
    SIM_CHECK(second.empty() || fs::Lookup(second).kind == fs::kNone, "'%s' outlived its owner", second.c_str());
    SIM_CHECK(fs::Tree("/tmp").size() == before, "something is left in the temporary directory");
  }
  SIM_CHECK(fs::OpenFds() == 0 && fs::OpenDirs() == 0 && fs::BadOps().empty(), "descriptors left or misused: %s", fs::BadOps().c_str());
}

// --- raw descriptors ---
SIM_SCENARIO("C15", descriptors, sim::kIo, 2, 12) {
  constexpr uint32_t kRw = sim::Bit(sim::kEintr) | sim::Bit(sim::kShort) | sim::Bit(sim::kEio) | sim::Bit(sim::kEnospc);
  fs::MkdirP("/d");
  string a(sim::Below(sim::Chance(1, 3) ? 9000 : 60), 0), data(sim::Below(sim::Chance(1, 3) ? 9000 : 60), 0);
  for (auto& c : a) c = (char)sim::Rand();
  for (auto& c : data) c = (char)sim::Rand();
  fs::Put("/d/a", a);
  base::ScopedFD fd(open("/d/a", O_RDWR));
  SIM_REQUIRE(fd.is_valid());
  size_t at = sim::Below(a.size() + 3);
  lseek(fd.get(), (off_t)at, SEEK_SET);
  bool write = sim::Chance(1, 2);
  size_t n = write ? data.size() : sim::Below(a.size() + 4);
  sim::Describe("%s %zu bytes at %zu of %zu", write ? "write" : "read", n, at, a.size());
  sim::EnableFaults(kRw);
  Window w;
  if (write) {
    bool ok = sim::Chance(1, 2) ? base::WriteFileDescriptor(fd.get(), std::string_view(data)) : base::WriteFileDescriptor(fd.get(), absl::Span<const uint8_t>((const uint8_t*)data.data(), data.size()));
    sim::DisableFaults();
    string got, want = a;
    fs::Get("/d/a", &got);
    if (n) {
      if (want.size() < at + n) want.resize(at + n, 0);
      memcpy(&want[at], data.data(), n);
    }
    if (ok) SIM_CHECK(got == want, "a reported write of %zu bytes at %zu left something else", n, at);
    else SIM_CHECK(!w.Clean(), "a write failed although nothing went wrong");
    for (size_t i = 0; i < got.size(); ++i)
      SIM_CHECK(i < want.size() && (got[i] == want[i] || (i < a.size() && got[i] == a[i])), "byte %zu is neither the old nor the new one", i);
    SIM_CHECK(got.size() >= a.size(), "a write made the file shorter");
  } else {
    std::vector<char> buf(n + 2, 0x55);
    bool ok = base::ReadFromFD(fd.get(), buf.data(), n);
    sim::DisableFaults();
    size_t have = at < a.size() ? a.size() - at : 0;
    if (w.Clean()) SIM_CHECK(ok == (have >= n), "reading %zu of %zu bytes %s", n, have, ok ? "succeeds" : "fails");
    if (ok) SIM_CHECK(have >= n && memcmp(buf.data(), a.data() + at, n) == 0, "a reported read of %zu bytes at %zu returned something else", n, at);
    SIM_CHECK(buf[n] == 0x55 && buf[n + 1] == 0x55, "bytes behind the end of the buffer were written");
  }
  // Flags of a descriptor.
  SIM_CHECK(base::SetNonBlocking(fd.get()) && (fcntl(fd.get(), F_GETFL) & O_NONBLOCK) && (fcntl(fd.get(), F_GETFL) & O_ACCMODE) == O_RDWR, "non-blocking mode");
  SIM_CHECK(base::SetCloseOnExec(fd.get()) && (fcntl(fd.get(), F_GETFD) & FD_CLOEXEC), "close-on-exec mode");
}

SIM_SCENARIO("C15", streams, sim::kIo, 1, 10) {
  fs::MkdirP("/d");
  string a(sim::Below(sim::Chance(1, 2) ? 9000 : 70), 0);
  for (auto& c : a) c = (char)sim::Rand();
  fs::Put("/d/a", a);
  size_t at = sim::Below(a.size() + 3);
  size_t max = sim::Pick<size_t>({0, 1, a.size() / 2, a.size() ? a.size() - 1 : 0, a.size(), a.size() + 1, size_t(-1)});
  bool limit = sim::Chance(1, 2);
  if (!limit) max = size_t(-1);
  sim::Describe("read a stream of %zu bytes standing at %zu, at most %zu", a.size(), at, max);
  base::ScopedFILE f(base::OpenFile(FilePath("/d/a"), "rb"));
  SIM_REQUIRE(f);
  fseek(f.get(), (long)at, SEEK_SET);
  if (sim::Chance(1, 2)) fgetc(f.get());
  sim::EnableFaults(sim::Bit(sim::kEintr) | sim::Bit(sim::kShort) | sim::Bit(sim::kEio));
  Window w;
  string got = "old";
  bool ok = limit ? base::ReadStreamToStringWithMaxSize(f.get(), max, &got) : base::ReadStreamToString(f.get(), &got);
  bool clean = w.Clean();
  sim::DisableFaults();
  if (clean) SIM_CHECK(ok == (a.size() <= max) && got == a.substr(0, std::min(max, a.size())), "stream of %zu bytes, at most %zu: %d with %zu bytes", a.size(), max, ok, got.size());
  if (ok) SIM_CHECK(got == a, "a reported complete read returned something else");
  else SIM_CHECK(a.compare(0, got.size(), got) == 0 && got.size() <= max, "a failed read returned bytes that are not in the file");
}

// --- locks: another descriptor stands for another process ---
SIM_SCENARIO("C17", locks, sim::kIo, 1, 8) {
  fs::MkdirP("/d");
  fs::Put("/d/a", "x");
  size_t nf = sim::Range(2, 4);
  std::vector<File> f;
  std::vector<int> held(nf, 0);  // 0 none, 1 shared, 2 exclusive
  for (size_t i = 0; i < nf; ++i) f.emplace_back(FilePath("/d/a"), File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE);
  string hist;
  sim::EnableFaults(sim::Bit(sim::kEintr));
  for (size_t k = sim::Range(1, 10); k-- > 0;) {
    size_t i = sim::Below(nf);
    int op = (int)sim::Below(3);
    hist += std::to_string(i) + "usx"[op] + " ";
    sim::Describe("locks: %s", hist.c_str());
    if (!f[i].IsValid()) continue;
    bool free = true;
    for (size_t j = 0; j < nf; ++j) if (j != i && held[j] && (op == 2 || held[j] == 2)) free = false;
    if (op == 0) {
      Window w;
      File::Error e = f[i].Unlock();
      SIM_CHECK(e == File::FILE_OK || !w.Clean(), "unlocking reports error %d", e);
      if (e == File::FILE_OK) held[i] = 0;
      if (sim::Chance(1, 6)) { f[i].Close(); held[i] = 0; }
    } else {
      Window w;
      File::Error e = f[i].Lock(op == 1 ? File::LockMode::kShared : File::LockMode::kExclusive);
      if (w.Clean()) SIM_CHECK((e == File::FILE_OK) == free, "locking reports error %d although the file is %s", e, free ? "free" : "locked by somebody else");
      else SIM_CHECK(e != File::FILE_OK || free, "locking succeeds although the file is locked by somebody else");
      if (e == File::FILE_OK) held[i] = op;
    }
  }
}
}  // namespace
