// C31: running out of memory is reported, never silent.
//
// Allocations of the library are made to fail: operator new is replaced here,
// malloc, calloc and realloc of everything linked in are wrapped (check.sh).
#include <unistd.h>
#include <cstdlib>
#include <new>

#include "common.hh"
using namespace harness;
using keepass::Key;

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
size_t __sanitizer_get_current_allocated_bytes();
}

namespace {
// Counting while armed; the allocation with this number fails (and all later
// ones when it is for good).
thread_local bool t_armed = false;
thread_local uint64_t t_count = 0, t_fail_at = 0, t_failed = 0;
thread_local bool t_for_good = false;
bool fails() {
  if (!t_armed) return false;
  ++t_count;
  bool f = t_fail_at && (t_count == t_fail_at || (t_for_good && t_count > t_fail_at));
  t_failed += f;
  return f;
}
struct Armed {
  Armed(uint64_t at, bool for_good) { t_count = t_failed = 0; t_fail_at = at; t_for_good = for_good; t_armed = true; }
  ~Armed() { t_armed = false; }
};
}  // namespace
extern "C" {
void* __wrap_malloc(size_t n) { return fails() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { return fails() ? nullptr : __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { return fails() ? nullptr : __real_realloc(p, n); }
}
void* operator new(size_t n) {
  void* p = fails() ? nullptr : __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace {
struct Place { uint64_t at; bool for_good; };
// All places when there are few, else some, with the first and last ones.
std::vector<Place> places(Case& c, uint64_t total, size_t max) {
  std::vector<Place> v;
  if (total <= max) {
    for (uint64_t i = 1; i <= total; ++i) v.push_back({i, c.t.chance(1, 3)});
    return v;
  }
  for (size_t i = 0; i < max; ++i) {
    uint64_t at = i == 0 ? total : i == 1 ? 1 : c.t.chance(1, 4) ? 1 + c.t.below(std::min<uint64_t>(total, 100)) : 1 + c.t.below(total);
    v.push_back({at, c.t.chance(1, 3)});
  }
  return v;
}
std::string at(const Place& p, uint64_t total) {
  return "allocation " + std::to_string(p.at) + " of " + std::to_string(total) + (p.for_good ? " and all later ones" : "") + " failed";
}
void reported(const Outcome& o, const std::string& what) {
  PBT_REQUIRE(o.kind != kUnknown, "exception", what << ": something that is no standard exception was thrown");
  PBT_REQUIRE(o.kind != kPassword, "password", what << ": reported as a wrong password");
}
// Whether f keeps memory each time it is repeated.
void no_leak(const std::function<void()>& f, const std::string& what) {
  long long grew = 0;
  for (int i = 0; i < 4; ++i) {
    size_t before = __sanitizer_get_current_allocated_bytes();
    f();
    size_t after = __sanitizer_get_current_allocated_bytes();
    if (after <= before) return;
    grew = static_cast<long long>(after - before);
  }
  pbt::fail("leak", what + ": " + std::to_string(grew) + " bytes are not given back");
}

struct Subject {
  bool kdb;
  model::Db m;
  gen::Cred cr;
  std::shared_ptr<keepass::Database> lib;
};
Subject subject(Case& c) {
  Subject s;
  pbt::set_tz("UTC0");
  s.kdb = c.t.chance(1, 2);
  gen::Opt o;
  o.kdb = s.kdb;
  o.strict_xml = true;
  o.max_groups = 5;
  o.max_entries = 4;
  o.big = c.t.chance(1, 5) ? 30000 : 0;
  s.m = gen::db(c.t, o);
  s.m.rounds = 1 + s.m.rounds % 5;
  s.cr = simple_cred();
  s.lib = bridge::to_db(s.m, !s.kdb);
  return s;
}

void exporting(Case& c) {
  begin(c);
  Subject s = subject(c);
  Key key = make_key(c, s.cr);
  std::string p = c.dir + "/f", what = s.kdb ? "exporting KDB" : s.m.compress ? "exporting compressed KDBX" : "exporting KDBX";
  keepass::KdbFile kf;
  keepass::KdbxFile xf;
  auto save = [&](uint64_t fail, bool good) {
    return guarded([&] {
      Armed a(fail, good);
      if (s.kdb) kf.Export(p, *s.lib, key); else xf.Export(p, *s.lib, key);
    });
  };
  Outcome first = save(0, false);
  PBT_REQUIRE(first.ok(), "export-failed", first.str());
  uint64_t total = t_count;
  c.describe(what + ", " + std::to_string(total) + " allocations, " + model::shape(s.m));
  c.label(what);
  const model::DumpOpt& dump = s.kdb ? kKdbDump : kKdbxDump;
  std::string want = model::dump(s.m, dump), mem = model::dump(bridge::from_db(*s.lib), dump);
  auto check_file = [&](const std::string& how) {
    try {
      model::Db d = s.kdb ? ref::read_kdb(bridge::read_file(p), comps(s.cr)).db : ref::read_kdbx(bridge::read_file(p), comps(s.cr)).db;
      Imported i = s.kdb ? import_kdb(p, key) : import_kdbx(p, key);
      PBT_REQUIRE(i.ok(), "silent", how << ", the export returned, but its file cannot be imported: " << i.str());
      same(want, model::dump(bridge::from_db(*i.db), dump), "silent", how + ", the export returned, but its file lacks something");
    } catch (const ref::Error& e) { pbt::fail("silent", how + ", the export returned, but its file is not valid: " + e.what()); }
  };
  for (const Place& pl : places(c, total, c.thorough ? 200 : 30)) {
    std::string how = what + ": " + at(pl, total);
    unlink(p.c_str());
    Outcome o = save(pl.at, pl.for_good);
    c.eval();
    if (!t_failed) continue;
    c.nontrivial(pbt::mix(pbt::hash_str(want), pl.at * 2 + pl.for_good));
    if (o.ok()) { c.label(what + ": managed without"); check_file(how); }
    else reported(o, how);
    no_leak([&] { (void)save(pl.at, pl.for_good); }, how);
  }
  same(mem, model::dump(bridge::from_db(*s.lib), dump), "disturbed", what + ": the database changed");
  unlink(p.c_str());
  Outcome o = save(0, false);
  PBT_REQUIRE(o.ok(), "stuck", what << ": after failures, with memory again: " << o.str());
  check_file(what + ": after failures, with memory again");
}

void importing(Case& c) {
  begin(c);
  Subject s = subject(c);
  Key key = make_key(c, s.cr);
  std::string p = c.dir + "/f", what = s.kdb ? "importing KDB" : s.m.compress ? "importing compressed KDBX" : "importing KDBX";
  bool foreign = c.t.chance(1, 2);
  pbt::SplitMix r = c.t.sub();
  if (foreign) bridge::write_file(p, s.kdb ? ref::write_kdb(s.m, comps(s.cr), ref::gen_kdb_style(c.t), r) : ref::write_kdbx(s.m, comps(s.cr), ref::gen_kdbx_style(c.t), r));
  else {
    Outcome e = s.kdb ? export_kdb(p, *s.lib, key) : export_kdbx(p, *s.lib, key);
    PBT_REQUIRE(e.ok(), "export-failed", e.str());
  }
  keepass::KdbFile kf;
  keepass::KdbxFile xf;
  std::shared_ptr<keepass::Database> db;
  auto load = [&](uint64_t fail, bool good) {
    db.reset();
    return guarded([&] {
      Armed a(fail, good);
      if (s.kdb) db = kf.Import(p, key); else db = xf.Import(p, key);
    });
  };
  Outcome first = load(0, false);
  PBT_REQUIRE(first.ok(), "import-failed", first.str());
  uint64_t total = t_count;
  c.describe(what + ", " + std::to_string(total) + " allocations, " + model::shape(s.m));
  c.label(what);
  const model::DumpOpt& dump = s.kdb ? kKdbDump : kKdbxDump;
  std::string want = model::dump(bridge::from_db(*db), dump);
  for (const Place& pl : places(c, total, c.thorough ? 200 : 30)) {
    std::string how = what + ": " + at(pl, total);
    Outcome o = load(pl.at, pl.for_good);
    c.eval();
    if (!t_failed) continue;
    c.nontrivial(pbt::mix(pbt::hash_str(want), pl.at * 2 + pl.for_good));
    if (o.ok()) {
      c.label(what + ": managed without");
      same(want, model::dump(bridge::from_db(*db), dump), "silent", how + ", the import returned another database");
    } else reported(o, how);
    no_leak([&] { (void)load(pl.at, pl.for_good); db.reset(); }, how);
  }
  Outcome o = load(0, false);
  PBT_REQUIRE(o.ok(), "stuck", what << ": after failures, with memory again: " << o.str());
  same(want, model::dump(bridge::from_db(*db), dump), "stuck", what + ": after failures, with memory again");
}

void others(Case& c) {
  begin(c);
  Subject s = subject(c);
  std::string p = c.dir + "/k", what;
  int kind = int(c.t.below(3));
  std::string result;
  std::function<void()> f;
  Bytes k32 = c.t.bytes(32);
  bridge::write_file(p, gen::keyfile_text(c.t, k32, c.t.chance(1, 2)));
  std::string pw = gen::text(c.t, gen::Text::kAny, 200);
  std::array<uint8_t, 32> seed = {{1}};
  std::shared_ptr<Key> key;
  switch (kind) {
    case 0: what = "JSON"; f = [&] { result = s.lib->root()->ToJson(); }; break;
    case 1: what = "setting a key file"; f = [&] { key->SetKeyFile(p); }; break;
    default: what = "setting a password"; f = [&] { key->SetPassword(pw); }; break;
  }
  auto run = [&](uint64_t fail, bool good) {
    result = "";
    result.shrink_to_fit();
    key = std::make_shared<Key>("earlier");
    return guarded([&] { Armed a(fail, good); f(); });
  };
  auto value = [&] {
    std::string r = result;
    for (auto res : {Key::SubKeyResolution::kHashSubKeys, Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey}) { auto t = key->Transform(seed, 1, res); r += std::string(t.begin(), t.end()); }
    return r;
  };
  Outcome first = run(0, false);
  PBT_REQUIRE(first.ok(), "failed", what << ": " << first.str());
  uint64_t total = t_count;
  std::string want = value();
  key = std::make_shared<Key>("earlier");
  result = "";
  std::string unset = value();
  c.describe(what + ", " + std::to_string(total) + " allocations");
  c.label(what);
  for (const Place& pl : places(c, total, 40)) {
    std::string how = what + ": " + at(pl, total);
    Outcome o = run(pl.at, pl.for_good);
    c.eval();
    if (!t_failed) continue;
    c.nontrivial(pbt::mix(pbt::hash_str(what + want), pl.at * 2 + pl.for_good));
    if (o.ok()) PBT_REQUIRE(value() == want, "silent", how << ", the result is another one");
    else {
      reported(o, how);
      if (kind) PBT_REQUIRE(value() == unset, "half-done", how << ", the key changed all the same");
    }
    no_leak([&] { (void)run(pl.at, pl.for_good); }, how);
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C31";
  k.level = "fault_enumeration";
  k.rule = "an operation during which a chosen allocation failed; distinct by database and allocation";
  k.assumptions = {"allocations inside zlib, OpenSSL and the C library do not fail"};
  k.subs = {{"exporting", 1200, 20000, exporting}, {"importing", 1200, 20000, importing}, {"others", 800, 8000, others}};
  return pbt::run_check(k, argc, argv);
}
