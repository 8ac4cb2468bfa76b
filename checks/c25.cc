// C25: imports, exports and failures give back everything they take.
#include <dirent.h>
#include <unistd.h>

#include <algorithm>
#include <set>

#include "common.hh"
#include "jobs.hh"
// From the sanitizer's allocator interface.
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
size_t __sanitizer_get_allocated_size(const volatile void*);
size_t __sanitizer_get_current_allocated_bytes();
}
using namespace harness;
using keepass::Key;

namespace {
// Bytes allocated now and at most, seen through the allocator's hooks.
volatile bool g_on = false;
long long g_cur = 0, g_peak = 0;
void on_malloc(const volatile void*, size_t n) { if (g_on) { g_cur += static_cast<long long>(n); if (g_cur > g_peak) g_peak = g_cur; } }
void on_free(const volatile void* p) { if (g_on && p) g_cur -= static_cast<long long>(__sanitizer_get_allocated_size(p)); }
void hooks() {
  static bool done = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
  if (!done) pbt::discard();
}

std::set<std::string> listing(const std::string& dir) {
  std::set<std::string> s;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) s.insert(e->d_name);
    closedir(d);
  }
  return s;
}
size_t open_files() { return listing("/proc/self/fd").size(); }

struct Use { bool grew; long long bytes, peak; };
// Runs f with allocation counted; what f itself keeps must be gone at its end.
Use measure(const std::function<void()>& f) {
  size_t before = __sanitizer_get_current_allocated_bytes();
  g_cur = g_peak = 0;
  g_on = true;
  f();
  g_on = false;
  size_t after = __sanitizer_get_current_allocated_bytes();
  return {after > before, static_cast<long long>(after) - static_cast<long long>(before), g_peak};
}
// Something is kept when every one of several runs keeps something.
struct Verdict {
  int runs = 0, grew = 0;
  long long bytes = 0;
  void add(const Use& u) { ++runs; grew += u.grew; bytes += u.bytes; }
};

Outcome import_any(bool kdb, const std::string& p, const Key& k) {
  Outcome o;
  if (kdb) { Imported i = import_kdb(p, k); o = i; } else { Imported i = import_kdbx(p, k); o = i; }
  return o;
}
}  // namespace

// Imports in every way they can go.
static void imports(Case& c) {
  begin(c);
  hooks();
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 2);
  Way way = Way(c.t.below(kWays));
  int fault = c.t.chance(1, 5) ? 1 : 0;
  const int kWarm = 2, kRuns = 3;
  std::vector<Job> jobs;
  for (int i = 0; i < kWarm + kRuns; ++i) jobs.push_back(make_job(c, kdb, way, c.t.chance(1, 12) ? 60000 : 0));
  std::string p = c.dir + "/f", what = std::string(kdb ? "KDB, " : "KDBX, ") + kWayNames[way] + (fault ? ", read error" : "");
  Verdict v;
  size_t ok = 0;
  bool use = c.t.chance(1, 2);
  for (size_t i = 0; i < jobs.size(); ++i) {
    Job& j = jobs[i];
    bridge::write_file(p, j.file);
    Key key = way == kWrongKey ? Key("not it") : make_key(c, j.cr);
    FaultPlan plan;
    plan.read_fail_at = int64_t(c.t.below(j.file.size() + 1));
    std::set<std::string> dir = listing(c.dir);
    size_t fds = open_files();
    bool good = false;
    Use u = measure([&] {
      if (fault) arm(plan);
      if (use) {
        Imported im = kdb ? import_kdb(p, key) : import_kdbx(p, key);
        good = im.ok();
        if (im.ok()) (void)im.db->root()->ToJson();
      } else {
        good = import_any(kdb, p, key).ok();
      }
      if (fault) disarm();
    });
    c.eval();
    ok += good;
    PBT_REQUIRE(open_files() == fds, "file-left-open", what << ": the import left a file open");
    PBT_REQUIRE(listing(c.dir) == dir, "file-left-over", what << ": the import changed the files beside it");
    size_t limit = 6000000 + 400 * (j.file.size() + j.plain);
    PBT_REQUIRE(u.peak < static_cast<long long>(limit), "memory", what << ": importing " << j.file.size() << " bytes (" << j.plain << " decoded) took " << u.peak << " bytes of memory");
    if (i >= size_t(kWarm)) v.add(u);
    c.nontrivial(j.file);
  }
  PBT_REQUIRE(v.grew < v.runs, "memory-kept", what << ": every one of " << v.runs << " imports (of different files) kept memory, " << v.bytes << " bytes in all");
  c.label(what);
  c.describe(what + ", " + std::to_string(ok) + " of " + std::to_string(jobs.size()) + " succeeded");
}

// Exports, with and without errors.
static void exports(Case& c) {
  begin(c);
  hooks();
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 2);
  int way = int(c.t.below(4));  // good, write error, no directory, close error
  static const char* const names[] = {"valid", "write error", "no such directory", "close error"};
  const int kWarm = 2, kRuns = 3;
  std::vector<Job> jobs;
  for (int i = 0; i < kWarm + kRuns; ++i) jobs.push_back(make_job(c, kdb, kGood, c.t.chance(1, 12) ? 60000 : 0));
  std::string p = c.dir + (way == 2 ? "/none/f" : "/f"), what = std::string(kdb ? "KDB, " : "KDBX, ") + names[way];
  Verdict v;
  for (size_t i = 0; i < jobs.size(); ++i) {
    Job& j = jobs[i];
    Key key = make_key(c, j.cr);
    FaultPlan plan;
    if (way == 1) plan.write_fail_at = int64_t(c.t.below(j.file.size()));
    if (way == 3) plan.close_fails = true;
    std::set<std::string> dir = listing(c.dir);
    if (way != 2) dir.insert("f");
    size_t fds = open_files();
    Use u = measure([&] {
      if (way & 1) arm(plan);
      Outcome o = kdb ? export_kdb(p, *j.lib, key) : export_kdbx(p, *j.lib, key);
      if (way & 1) disarm();
    });
    c.eval();
    PBT_REQUIRE(open_files() == fds, "file-left-open", what << ": the export left a file open");
    std::set<std::string> now = listing(c.dir);
    now.insert("f");
    dir.insert("f");
    PBT_REQUIRE(now == dir, "file-left-over", what << ": the export left other files than its destination");
    size_t limit = 6000000 + 400 * (j.file.size() + j.plain);
    PBT_REQUIRE(u.peak < static_cast<long long>(limit), "memory", what << ": exporting a database of " << j.plain << " bytes took " << u.peak << " bytes of memory");
    if (i >= size_t(kWarm)) v.add(u);
    c.nontrivial(j.file);
  }
  PBT_REQUIRE(v.grew < v.runs, "memory-kept", what << ": every one of " << v.runs << " exports kept memory, " << v.bytes << " bytes in all");
  c.label(what);
  c.describe(what);
}

// Importers, exporters and keys that are used over and over.
static void reuse(Case& c) {
  begin(c);
  hooks();
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 2);
  Way way = Way(c.t.below(kWays));
  Job j = make_job(c, kdb, way, 0);
  std::string p = c.dir + "/f", q = c.dir + "/g", kf = c.dir + "/k";
  bridge::write_file(p, j.file);
  bridge::write_file(kf, gen::keyfile_text(c.t, std::string(32, 'k'), c.t.chance(1, 2)));
  keepass::KdbFile df;
  keepass::KdbxFile xf;
  Key key("not it");
  bool keyfile = c.t.chance(1, 4);
  if (way != kWrongKey && !keyfile) key = make_key(c, j.cr);
  bool exp = c.t.chance(1, 2);
  std::string what = std::string(kdb ? "KDB, " : "KDBX, ") + kWayNames[way] + (exp ? ", exporting" : "") + (keyfile ? ", setting a key file" : "");
  Verdict v;
  for (int i = 0; i < 8; ++i) {
    size_t fds = open_files();
    Use u = measure([&] {
      if (keyfile) guarded([&] { key.SetKeyFile(kf); });
      { Imported im = kdb ? import_kdb(p, key, &df) : import_kdbx(p, key, &xf); }
      if (exp) { Outcome o = kdb ? export_kdb(q, *j.lib, key, &df) : export_kdbx(q, *j.lib, key, &xf); }
    });
    c.eval();
    PBT_REQUIRE(open_files() == fds, "file-left-open", what << ": a file was left open");
    if (i >= 4) v.add(u);
  }
  PBT_REQUIRE(v.grew < v.runs, "memory-grows", what << ": every further use of the same objects on the same files kept more memory, " << v.bytes << " bytes in " << v.runs << " uses");
  c.label(what);
  c.describe(what);
  c.nontrivial(j.file + what);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C25";
  k.rule = "distinct files imported or exported with their memory, open files and directory observed";
  k.assumptions = {"memory is what the allocator hands out; something is kept when each of several runs on different databases, after two others, ends with more memory in use than it began with",
                   "peak memory: 6 MB and 400 times the size of the file and its decoded content"};
  k.subs = {{"imports", 1500, 50000, imports}, {"exports", 500, 15000, exports}, {"reuse", 800, 20000, reuse}};
  return pbt::run_check(k, argc, argv);
}
