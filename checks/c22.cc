// C22: separate objects can be used from separate threads, and shared ones can
// be read by several.
#include <unistd.h>

#include <atomic>
#include <thread>

#include "common.hh"
using namespace harness;
using keepass::Database;
using keepass::Key;

// glibc guards its time zone state with a lock the sanitizer cannot see.
extern "C" const char* __tsan_default_suppressions() { return "race:tzset_internal\nrace:__tz_convert\nrace:tzfile_read\nrace:__tzfile_read\nrace:tzset\n"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:report_destroy_locked=0"; }

namespace {
enum Op { kExport, kImport, kJson, kEqual, kBad, kKeyFile, kCreate, kOps };
const char* kOpNames[] = {"export", "import", "JSON", "equality", "import of a damaged file", "key file", "objects"};

// What one thread has, and what it got.
struct Work {
  bool kdb = false;
  model::Db m;
  std::shared_ptr<Database> lib, copy;
  gen::Cred cr;
  Key key;
  std::string in, bad, keyfile, dir;
  std::string json;          // sequentially
  bool eq = true;
  Outcome bad_fresh;
  std::vector<Op> ops;
  // Results, in the order of the operations.
  struct Result { Outcome o; Bytes file; std::shared_ptr<Database> db; std::string json; bool eq = true; std::vector<Bytes> ids; };
  std::vector<Result> res;
};

Outcome do_export(bool kdb, const std::string& p, const Database& d, const Key& k) { return kdb ? export_kdb(p, d, k) : export_kdbx(p, d, k); }
Imported do_import(bool kdb, const std::string& p, const Key& k) { return kdb ? import_kdb(p, k) : import_kdbx(p, k); }

void run(Work& w, unsigned id) {
  for (size_t i = 0; i < w.ops.size(); ++i) {
    Work::Result& r = w.res[i];
    switch (w.ops[i]) {
      case kExport: {
        std::string p = w.dir + "/out" + std::to_string(id) + "." + std::to_string(i);
        r.o = do_export(w.kdb, p, *w.lib, w.key);
        r.file = bridge::read_file(p);
        ::unlink(p.c_str());
        break;
      }
      case kImport: { Imported x = do_import(w.kdb, w.in, w.key); r.o = x; r.db = x.db; break; }
      case kJson: r.o = guarded([&] { r.json = w.lib->root()->ToJson(); }); break;
      case kEqual: r.o = guarded([&] { r.eq = *w.lib->root() == *w.copy->root(); }); break;
      case kBad: r.o = do_import(w.kdb, w.bad, w.key); break;
      case kKeyFile: r.o = guarded([&] { Key k; k.SetKeyFile(w.keyfile); k.SetPassword("x"); Key k2(k); }); break;
      default:
        r.o = guarded([&] {
          for (int n = 0; n < 3; ++n) {
            keepass::Group g;
            keepass::Entry e;
            r.ids.push_back(bridge::str(g.uuid()));
            r.ids.push_back(bridge::str(e.uuid()));
          }
        });
    }
  }
}

// Every time of the model differs from most others.
void spread_times(model::Db& m, Case& c, bool kdb) {
  pbt::SplitMix r = c.t.sub();
  auto next = [&] { return int64_t(1 + r.next() % (kdb ? 4000000000ull : 30000000000ull)); };
  std::function<void(model::Entry&)> entry = [&](model::Entry& e) { for (int i = 0; i < (kdb ? 4 : 5); ++i) e.times[i] = next(); for (auto& h : e.history) entry(h); };
  for (auto g : model::preorder(m.root)) {
    if (!(kdb && g == &m.root)) for (int i = 0; i < (kdb ? 4 : 5); ++i) g->times[i] = next();
    for (auto& e : g->entries) entry(e);
  }
}

Work make_work(Case& c, unsigned id) {
  Work w;
  w.dir = c.dir;
  w.kdb = c.t.chance(1, 2);
  gen::Opt o;
  o.kdb = w.kdb;
  o.strict_xml = true;
  o.max_groups = 5;
  o.max_entries = 6;
  w.m = gen::db(c.t, o);
  w.m.rounds = 1 + w.m.rounds % 20;
  spread_times(w.m, c, w.kdb);
  w.lib = bridge::to_db(w.m);
  w.copy = bridge::to_db(w.m);
  w.cr = simple_cred();
  w.cr.pw = "pw" + std::to_string(id);
  w.key = make_key(c, w.cr);
  std::string s = std::to_string(id);
  w.in = c.dir + "/in" + s;
  w.bad = c.dir + "/bad" + s;
  w.keyfile = c.dir + "/kf" + s;
  bridge::write_file(w.keyfile, gen::keyfile_text(c.t, Bytes(32, char(65 + id)), c.t.chance(1, 2)));
  pbt::SplitMix rng = c.t.sub();
  Bytes f = w.kdb ? ref::write_kdb(w.m, comps(w.cr), ref::gen_kdb_style(c.t), rng) : ref::write_kdbx(w.m, comps(w.cr), ref::plain_kdbx_style(), rng);
  bridge::write_file(w.in, f);
  size_t at = f.size() > 300 ? 200 + c.t.below(f.size() - 200) : c.t.below(f.size());
  if (c.t.chance(1, 2)) f.resize(at);
  else f[at] = char(f[at] ^ 1);
  bridge::write_file(w.bad, f);
  size_t n = 1 + c.t.below(4);
  for (size_t i = 0; i < n; ++i) w.ops.push_back(Op(c.t.pick({5, 5, 3, 2, 2, 1, 1})));
  w.res.resize(n);
  // Sequential results.
  w.json = w.lib->root()->ToJson();
  w.eq = *w.lib->root() == *w.copy->root();
  w.bad_fresh = do_import(w.kdb, w.bad, w.key);
  return w;
}

void judge(const Work& w, unsigned id, std::vector<Bytes>& ids) {
  for (size_t i = 0; i < w.ops.size(); ++i) {
    const Work::Result& r = w.res[i];
    std::string what = std::string(w.kdb ? "KDB " : "KDBX ") + kOpNames[w.ops[i]] + " in thread " + std::to_string(id);
    if (w.ops[i] == kBad) {
      PBT_REQUIRE(r.o.str() == w.bad_fresh.str(), "other-error", what << ": " << r.o.str() << ", but alone: " << w.bad_fresh.str());
      continue;
    }
    PBT_REQUIRE(r.o.ok(), "failed", what << ": " << r.o.str());
    switch (w.ops[i]) {
      case kExport:
        if (w.kdb) same(model::dump(w.m, kKdbDump), model::dump(ref::read_kdb(r.file, comps(w.cr)).db, kKdbDump), "export", what);
        else same(model::dump(w.m, kKdbxDump), model::dump(ref::read_kdbx(r.file, comps(w.cr)).db, kKdbxDump), "export", what);
        break;
      case kImport:
        if (w.kdb) same_kdb(w.m, *r.db, "import", what);
        else same_kdbx(w.m, *r.db, "import", what);
        break;
      case kJson: same(w.json, r.json, "json", what); break;
      case kEqual: PBT_REQUIRE(r.eq == w.eq, "unequal", what << ": another result than alone"); break;
      case kCreate: ids.insert(ids.end(), r.ids.begin(), r.ids.end()); break;
      default: break;
    }
  }
}

void start(size_t n, const std::function<void(size_t)>& f) {
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      for (int spin = 0; ready < n && spin < 200000; ++spin) {}
      f(t);
    });
  for (auto& t : ts) t.join();
}
}  // namespace

// Each thread has objects of its own.
static void separate(Case& c) {
  begin(c);
  real_random(true);
  pbt::set_tz(c.t.chance(1, 2) ? "IST-5:30" : "EST5");
  size_t n = 2 + c.t.below(4);
  std::vector<Work> w;
  for (size_t i = 0; i < n; ++i) w.push_back(make_work(c, unsigned(i)));
  start(n, [&](size_t i) { run(w[i], unsigned(i)); });
  std::vector<Bytes> ids;
  std::string d;
  std::set<Op> kinds;
  for (size_t i = 0; i < n; ++i) {
    judge(w[i], unsigned(i), ids);
    c.eval(w[i].ops.size());
    d += (i ? "; " : "") + std::string(w[i].kdb ? "KDB" : "KDBX");
    for (Op o : w[i].ops) { d += std::string(" ") + kOpNames[o]; kinds.insert(o); }
  }
  std::set<Bytes> u(ids.begin(), ids.end());
  PBT_REQUIRE(u.size() == ids.size(), "repeated", "identifiers made in several threads repeat");
  real_random(false);
  pbt::set_tz("UTC0");
  c.describe(d);
  for (Op o : kinds) c.label(kOpNames[o]);
  c.nontrivial(d + model::dump(w[0].m));
}

// All threads read the same database with the same key.
static void shared(Case& c) {
  begin(c);
  real_random(true);
  pbt::set_tz(c.t.chance(1, 2) ? "IST-5:30" : "EST5");
  size_t n = 2 + c.t.below(4);
  Work base = make_work(c, 0);
  std::vector<Work> w;
  std::string d = base.kdb ? "KDB" : "KDBX";
  for (size_t i = 0; i < n; ++i) {
    Work x = base;  // shares the database and its copy
    x.ops.clear();
    size_t k = 1 + c.t.below(3);
    for (size_t j = 0; j < k; ++j) { x.ops.push_back(Op(c.t.pick({5, 3, 3, 2, 1}))); d += std::string(" ") + kOpNames[x.ops.back()]; }
    d += ";";
    x.res.clear();
    x.res.resize(k);
    w.push_back(x);
  }
  start(n, [&](size_t i) { run(w[i], unsigned(i)); });
  std::vector<Bytes> ids;
  for (size_t i = 0; i < n; ++i) { judge(w[i], unsigned(i), ids); c.eval(w[i].ops.size()); }
  model::Db after = bridge::from_db(*base.lib);
  model::Db before = bridge::from_db(*base.copy);
  same(model::dump(before), model::dump(after), "changed", "the shared database changed");
  real_random(false);
  pbt::set_tz("UTC0");
  c.describe(d);
  c.nontrivial(d + model::dump(base.m));
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C22";
  k.rule = "distinct (operations per thread, database) with at least two threads running at once";
  k.assumptions = {"happens-before races are reported by ThreadSanitizer on the instrumented library; the results of every thread are also compared with those of running alone",
                   "glibc's own time zone lock is trusted; the program does not change the environment while threads run",
                   "objects that one thread changes are not used by another one; importers and exporters are not shared"};
  k.subs = {{"separate", 400, 20000, separate}, {"shared", 200, 10000, shared}};
  return pbt::run_check(k, argc, argv);
}
