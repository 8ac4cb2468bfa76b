// C20: times mean the same instant or civil time in every time zone.
#include <ctime>
#include <map>
#include <set>

#include "common.hh"
using namespace harness;
using keepass::Key;
using ref::Civil;

namespace {
const std::vector<std::string>& zones() {
  static const std::vector<std::string> v = {
      "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0", "XXX12", "YYY-14", "NPT-5:45", "LHST-10:30LHDT-11,M10.1.0,M4.1.0",
      "NEG0NEGD-1,J60/0,J300/0", "TWO0TWOD-2,M3.5.0/1,M10.5.0/3", ":Europe/Berlin", ":America/New_York", ":America/Sao_Paulo", ":Asia/Kathmandu", ":Australia/Lord_Howe", ":Pacific/Apia",
      ":Europe/London", ":Africa/Monrovia", ":Asia/Tehran", ":Pacific/Kiritimati", ":Antarctica/Troll", ":Europe/Dublin", ":Africa/Casablanca", ":America/St_Johns", ":Pacific/Chatham"};
  return v;
}
long offset_at(int64_t t) {
  time_t x = time_t(t);
  struct tm tm {};
  localtime_r(&x, &tm);
  return tm.tm_gmtoff;
}
// Local civil time in the zone in effect; from the offset, not from the fields.
Civil local(int64_t t) { return ref::unix_to_civil(t + offset_at(t)); }
bool operator==(const Civil& a, const Civil& b) { return a.y == b.y && a.mo == b.mo && a.d == b.d && a.h == b.h && a.mi == b.mi && a.s == b.s; }
std::string str(const Civil& c) {
  char b[80];
  snprintf(b, sizeof b, "%lld-%02d-%02d %02d:%02d:%02d", (long long)c.y, c.mo, c.d, c.h, c.mi, c.s);
  return b;
}
// Instants at which the offset of the zone changes.
const std::vector<int64_t>& changes(const std::string& z) {
  static std::map<std::string, std::vector<int64_t>> cache;
  auto it = cache.find(z);
  if (it != cache.end()) return it->second;
  pbt::set_tz(z);
  std::vector<int64_t> v;
  int64_t a = ref::civil_to_unix({1905, 1, 1, 0, 0, 0}), end = ref::civil_to_unix({2045, 1, 1, 0, 0, 0}), step = 5 * 86400;
  long o = offset_at(a);
  for (; a < end; a += step) {
    long n = offset_at(a + step);
    if (n != o) {
      int64_t lo = a, hi = a + step;
      while (hi - lo > 1) { int64_t m = (lo + hi) / 2; (offset_at(m) == o ? lo : hi) = m; }
      v.push_back(hi);
      o = n;
    }
  }
  return cache[z] = v;
}
// Civil time exists in the zone in effect.
bool exists(const Civil& c) {
  int64_t u = ref::civil_to_unix(c);
  for (int h = -30; h <= 30; ++h) {
    long o = offset_at(u + h * 3600);
    if (offset_at(u - o) == o) return true;
  }
  return false;
}
int64_t instant(Case& c, const std::string& z, int64_t ymin, int64_t ymax) {
  pbt::set_tz(z);
  static const std::vector<int64_t> d = {0, -1, 1, -3600, 3600, -3599, 3599, -1800, 1800, 1799, -7200, 7200, 86400, -86400};
  switch (c.t.pick({2, 4, 3, 3, 2, 2})) {
    case 0: return 1400000000 + int64_t(c.t.below(1u << 20));
    case 1: {
      auto& v = changes(z);
      if (v.empty()) return 1300000000;
      pbt::set_tz(z);
      return v[v.size() - 1 - c.t.below(v.size())] + c.t.of(d);
    }
    case 2: {  // leap days, month and year ends, century ends
      static const std::vector<int64_t> ys = {2000, 2012, 2016, 1904, 1996, 2400, 2096, 2100, 1900, 2800, 1999, 2001, 1970, 1969, 2038, 2999, 3000, 1907};
      int64_t y = c.t.of(ys);
      if (y < ymin) y = 1996;
      static const std::vector<std::pair<int, int>> md = {{2, 28}, {2, 29}, {3, 1}, {12, 31}, {1, 1}, {6, 30}, {7, 1}, {12, 28}};
      auto p = c.t.of(md);
      int64_t t = ref::civil_to_unix({y, p.first, p.second == 29 ? 28 : p.second, 0, 0, 0}) + (p.second == 29 ? 86400 : 0);
      return t - (c.t.chance(1, 2) ? offset_at(t) : 0) + c.t.of(d);
    }
    case 3: {
      int64_t y = ymin + int64_t(c.t.below(ymax - ymin + 1));
      return ref::civil_to_unix({y, int(1 + c.t.below(12)), int(1 + c.t.below(28)), int(c.t.below(24)), int(c.t.below(60)), int(c.t.below(60))});
    }
    case 4: {
      static const std::vector<int64_t> e = {1, -1, 2147483647, 2147483648ll, -2147483648ll, 4294967295ll, 4294967296ll, 86399, 86400, -86400, -86401, 59, 60, 3599};
      int64_t t = c.t.of(e);
      return t;
    }
    default: {
      int64_t a = ref::civil_to_unix({ymin + 1, 1, 1, 0, 0, 0}), b = ref::civil_to_unix({ymax, 1, 1, 0, 0, 0});
      return a + int64_t(c.t.below(0) % uint64_t(b - a));
    }
  }
}
bool is_never_civil(const Civil& c) { return c.y == 2999 && c.mo == 12 && c.d == 28 && c.h == 23 && c.mi == 59 && c.s == 59; }
// All times of a database, in a fixed order.
std::vector<int64_t*> times(model::Db& m, bool kdb) {
  std::vector<int64_t*> v;
  std::function<void(model::Entry&)> entry = [&](model::Entry& e) {
    for (int i = 0; i < (kdb ? 4 : 5); ++i) v.push_back(&e.times[i]);
    for (auto& h : e.history) entry(h);
  };
  for (auto g : model::preorder(m.root)) {
    if (kdb && g == &m.root) continue;
    for (int i = 0; i < (kdb ? 4 : 5); ++i) v.push_back(&g->times[i]);
    for (auto& e : g->entries) entry(e);
  }
  if (!kdb) for (auto t : {&m.meta.name.t, &m.meta.desc.t, &m.meta.user.t, &m.meta.key_changed, &m.meta.recycle_changed, &m.meta.templates_changed}) v.push_back(t);
  return v;
}
model::Db base(Case& c, bool kdb) {
  pbt::set_tz("UTC0");
  gen::Opt o;
  o.kdb = kdb;
  o.strict_xml = true;
  o.max_groups = 4;
  o.max_entries = 4;
  model::Db m = gen::db(c.t, o);
  m.rounds %= 2;
  if (kdb && m.root.groups.empty()) { model::Group g; g.name = "g"; m.root.groups.push_back(g); }
  if (kdb) { model::Entry e; e.uuid = gen::uuid_from(9, 9); m.root.groups[0].entries.push_back(e); }
  return m;
}
// Texts that both formats and every reader take.
void plain(model::Db& m) {
  auto fix = [](std::string& x) { for (char& ch : x) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = '_'; };
  std::function<void(model::Group&)> f = [&](model::Group& g) {
    fix(g.name); fix(g.notes); fix(g.at_seq);
    for (auto& e : g.entries) {
      for (auto t : {&e.title, &e.url, &e.username, &e.password, &e.notes}) fix(t->v);
      for (auto& a : e.attachments) fix(a.name);
    }
    for (auto& s : g.groups) f(s);
  };
  f(m.root);
}
}  // namespace

// KDBX: export in one zone, import in another; text is UTC.
static void kdbx(Case& c) {
  begin(c);
  std::string a = c.t.of(zones()), b = c.t.of(zones());
  model::Db m = base(c, false);
  std::vector<int64_t*> ts = times(m, false);
  for (auto t : ts) { *t = c.t.chance(1, 6) ? 0 : instant(c, a, 1601, 9999); if (*t == gen::kNeverTime) ++*t; }
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  std::string p = c.dir + "/f";
  auto lib = bridge::to_db(m);
  pbt::set_tz(a);
  Outcome e = export_kdbx(p, *lib, key);
  c.eval();
  PBT_REQUIRE(e.ok(), "export-failed", "export in " << a << ": " << e.str());
  pbt::set_tz("UTC0");
  ref::KdbxInfo info = ref::read_kdbx(bridge::read_file(p), comps(cr));
  std::vector<int64_t*> fs = times(info.db, false);
  PBT_REQUIRE(fs.size() == ts.size(), "harness", "other number of times");
  for (size_t i = 0; i < ts.size(); ++i)
    PBT_REQUIRE(*fs[i] == *ts[i], *ts[i] ? "kdbx-export" : "never-export", "exported in " << a << ": instant " << *ts[i] << " is written as " << (*fs[i] ? ref::kdbx_time(*fs[i]) : "never"));
  if (c.t.chance(1, 2)) {
    pbt::SplitMix rng = c.t.sub();
    bridge::write_file(p, ref::write_kdbx(m, comps(cr), ref::gen_kdbx_style(c.t), rng));
    c.label("other writer");
  }
  pbt::set_tz(b);
  Imported i = import_kdbx(p, key);
  c.eval();
  PBT_REQUIRE(i.ok(), "import-failed", "import in " << b << ": " << i.str());
  model::Db g = bridge::from_db(*i.db);
  std::vector<int64_t*> gs = times(g, false);
  PBT_REQUIRE(gs.size() == ts.size(), "harness", "other number of times");
  for (size_t k = 0; k < ts.size(); ++k)
    PBT_REQUIRE(*gs[k] == *ts[k], *ts[k] ? "kdbx-import" : "never-import", "exported in " << a << ", imported in " << b << ": instant " << *ts[k] << " became " << *gs[k]);
  pbt::set_tz("UTC0");
  c.describe(a + " to " + b + ", " + std::to_string(ts.size()) + " times");
  if (a != b) c.nontrivial(a + b + model::dump(m));
}

// KDB: the bytes are the local civil time, and are read as such.
static void kdb(Case& c) {
  begin(c);
  std::string a = c.t.of(zones()), b = c.t.of(zones());
  model::Db m = base(c, true);
  std::vector<int64_t*> ts = times(m, true);
  for (auto t : ts) {
    *t = 0;
    for (int tries = 0; tries < 5 && !c.t.chance(1, 8); ++tries) {
      int64_t v = instant(c, a, 1902, 4094);
      if (v == 0) continue;
      pbt::set_tz(a);
      Civil x = local(v);
      if (x.y < 1900 || x.y > 4095 || is_never_civil(x)) continue;
      *t = v;
      break;
    }
  }
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  std::string p = c.dir + "/f";
  auto lib = bridge::to_db(m);
  pbt::set_tz(a);
  std::vector<Civil> want;
  for (auto t : ts) want.push_back(*t ? local(*t) : Civil{0, 0, 0, 0, 0, 0});
  Outcome e = export_kdb(p, *lib, key);
  c.eval();
  PBT_REQUIRE(e.ok(), "export-failed", "export in " << a << ": " << e.str());
  // Raw fields of the file, in the order of the model's groups and entries.
  ref::KdbInfo info = ref::read_kdb(bridge::read_file(p), comps(cr));
  std::vector<std::vector<Bytes>> groups, entries;
  for (auto& r : info.groups) { std::vector<Bytes> v(4); for (auto& f : r.fields) if (f.type >= 3 && f.type <= 6) v[f.type - 3] = f.data; groups.push_back(v); }
  for (auto& r : info.entries) { std::vector<Bytes> v(4); for (auto& f : r.fields) if (f.type >= 9 && f.type <= 12) v[f.type - 9] = f.data; entries.push_back(v); }
  size_t ng = 0, k = 0;
  std::vector<Bytes> raw;
  {
    // Entries of a group may be stored anywhere; find them by title and UUID.
    std::map<Bytes, size_t> by;
    for (size_t i = 0; i < info.entries.size(); ++i) for (auto& f : info.entries[i].fields) if (f.type == 1) by[f.data] = i;
    for (auto g : model::preorder(m.root)) {
      if (g == &m.root) continue;
      PBT_REQUIRE(ng < groups.size(), "harness", "too few groups");
      for (int i = 0; i < 4; ++i) raw.push_back(groups[ng][i]);
      ++ng;
      for (auto& en : g->entries) {
        PBT_REQUIRE(by.count(en.uuid), "entry-missing", "an entry is missing from the file");
        for (int i = 0; i < 4; ++i) raw.push_back(entries[by[en.uuid]][i]);
      }
    }
  }
  PBT_REQUIRE(raw.size() == ts.size(), "harness", "other number of times");
  for (k = 0; k < ts.size(); ++k) {
    if (*ts[k] == 0) { PBT_REQUIRE(raw[k] == ref::kKdbNever, "never-export", "exported in " << a << ": 'never' is written as " << pbt::hex(raw[k])); continue; }
    Civil got = ref::kdb_unpack(raw[k]);
    PBT_REQUIRE(got == want[k], "kdb-export", "exported in " << a << ": instant " << *ts[k] << " is local " << str(want[k]) << " but is written as " << str(got));
  }
  pbt::set_tz(b);
  std::vector<bool> ok;
  for (k = 0; k < ts.size(); ++k) ok.push_back(*ts[k] == 0 || exists(want[k]));
  Imported i = import_kdb(p, key);
  c.eval();
  bool all = true;
  for (bool x : ok) all = all && x;
  PBT_REQUIRE(i.ok(), "import-failed", "import in " << b << ": " << i.str());
  model::Db g = bridge::from_db(*i.db);
  std::vector<int64_t*> gs = times(g, true);
  PBT_REQUIRE(gs.size() == ts.size(), "harness", "other number of times");
  size_t judged = 0;
  for (k = 0; k < ts.size(); ++k) {
    if (*ts[k] == 0) { PBT_REQUIRE(*gs[k] == 0, "never-import", "imported in " << b << ": 'never' became " << *gs[k]); continue; }
    if (!ok[k]) { c.label("civil time skipped by the zone"); continue; }
    ++judged;
    pbt::set_tz(b);
    PBT_REQUIRE(local(*gs[k]) == want[k], "kdb-import", "imported in " << b << ": " << str(want[k]) << " became instant " << *gs[k] << ", local " << str(local(*gs[k])));
    if (a == b) {
      bool amb = false;
      for (int h = -4; h <= 4; ++h) for (int q = 0; q < 2; ++q) { int64_t o = *ts[k] + h * 3600 + q * 1800; if (o != *ts[k] && local(o) == want[k]) amb = true; }
      if (amb) c.label("ambiguous civil time");
      else if (offset_at(*ts[k]) == offset_at(*gs[k])) PBT_REQUIRE(*gs[k] == *ts[k], "kdb-instant", "in " << a << " instant " << *ts[k] << " became " << *gs[k]);
    }
  }
  pbt::set_tz("UTC0");
  c.describe(a + " to " + b + ", " + std::to_string(ts.size()) + " times");
  if (judged >= 2) c.nontrivial(a + b + model::dump(m));
}

// Conversions between the formats: KDB -> KDBX -> KDB and back.
static void convert(Case& c) {
  begin(c);
  std::string z = c.t.of(zones());
  model::Db m = base(c, true);
  std::vector<int64_t*> ts = times(m, true);
  for (auto t : ts) {
    *t = 0;
    if (c.t.chance(1, 2)) continue;
    int64_t v = instant(c, z, 1902, 4094);
    pbt::set_tz(z);
    Civil x = local(v);
    if (v && x.y >= 1900 && x.y <= 4095 && !is_never_civil(x) && v != gen::kNeverTime) *t = v;
  }
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  std::string p = c.dir + "/f", q = c.dir + "/g";
  auto lib = bridge::to_db(m);
  pbt::set_tz(z);
  std::shared_ptr<keepass::Database> cur = lib;
  keepass::KdbxFile xf;
  keepass::KdbFile kf;
  std::vector<Civil> want;
  for (auto t : ts) want.push_back(*t ? local(*t) : Civil{0, 0, 0, 0, 0, 0});
  int steps = 2 + int(c.t.below(4));
  bool to_kdb = c.t.chance(1, 2);
  std::string log = "in " + z + ":";
  for (int s = 0; s < steps; ++s, to_kdb = !to_kdb) {
    log += to_kdb ? " KDB" : " KDBX";
    if (!to_kdb && !cur->meta()) cur->set_meta(std::make_shared<keepass::Metadata>());
    if (cur->cipher() != keepass::Database::Cipher::kAes) cur->set_cipher(keepass::Database::Cipher::kAes);
    cur->set_master_seed(std::vector<uint8_t>(to_kdb ? 16 : 32, 7));
    Outcome e = to_kdb ? export_kdb(p, *cur, key, &kf) : export_kdbx(p, *cur, key, &xf);
    c.eval();
    PBT_REQUIRE(e.ok(), "export-failed", log << ": export failed: " << e.str());
    Imported i = to_kdb ? import_kdb(p, key, &kf) : import_kdbx(p, key, &xf);
    PBT_REQUIRE(i.ok(), "import-failed", log << ": import failed: " << i.str());
    cur = i.db;
    model::Db g = bridge::from_db(*cur);
    std::vector<int64_t*> gs = times(g, true);
    PBT_REQUIRE(gs.size() == ts.size(), "shape", log << ": " << gs.size() << " times instead of " << ts.size());
    for (size_t k = 0; k < ts.size(); ++k) {
      PBT_REQUIRE((*ts[k] == 0) == (*gs[k] == 0), "never-convert", log << ": " << *ts[k] << " became " << *gs[k]);
      if (*ts[k]) PBT_REQUIRE(local(*gs[k]) == want[k], "civil-convert", log << ": local " << str(want[k]) << " became " << str(local(*gs[k])));
    }
  }
  pbt::set_tz("UTC0");
  c.describe(log + ", " + std::to_string(ts.size()) + " times");
  c.nontrivial(log + model::dump(m));
}

// "Never" as other programs write it, in every zone (enumerated).
static void never(Case& c) {
  uint64_t i = c.t.below(zones().size() * 4);
  begin(c);
  const std::string& z = zones()[i / 4];
  bool from_kdb = i % 4 & 1, all = i % 4 & 2;
  model::Db m = base(c, true);
  plain(m);
  if (!from_kdb) { m.iv.resize(16, 1); m.master_seed = Bytes(32, 5); m.tseed.resize(32, 2); m.iks.resize(32, 3); }
  size_t n = 0;
  for (auto t : times(m, from_kdb)) if (all || c.t.chance(1, 2)) { *t = 0; ++n; } else *t = 1400000000 + int64_t(c.t.below(100000));
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  std::string p = c.dir + "/f";
  pbt::SplitMix rng = c.t.sub();
  pbt::set_tz(z);
  if (from_kdb) {
    ref::KdbStyle st = ref::gen_kdb_style(c.t);
    st.omit_defaults = false;
    bridge::write_file(p, ref::write_kdb(m, comps(cr), st, rng));
  } else bridge::write_file(p, ref::write_kdbx(m, comps(cr), ref::gen_kdbx_style(c.t), rng));
  Imported im = from_kdb ? import_kdb(p, key) : import_kdbx(p, key);
  c.eval();
  PBT_REQUIRE(im.ok(), "import-failed", "import in " << z << ": " << im.str());
  model::Db g = bridge::from_db(*im.db);
  std::vector<int64_t*> a = times(m, from_kdb), b = times(g, from_kdb);
  PBT_REQUIRE(a.size() == b.size(), "shape", "other number of times");
  for (size_t k = 0; k < a.size(); ++k) PBT_REQUIRE(*a[k] == *b[k], *a[k] ? "time-import" : "never-import", (from_kdb ? "KDB" : "KDBX") << " imported in " << z << ": " << *a[k] << " became " << *b[k]);
  // And to the other format.
  if (from_kdb) im.db->set_meta(std::make_shared<keepass::Metadata>());
  im.db->set_cipher(keepass::Database::Cipher::kAes);
  im.db->set_master_seed(std::vector<uint8_t>(from_kdb ? 32 : 16, 7));
  Outcome e = from_kdb ? export_kdbx(p, *im.db, key) : export_kdb(p, *im.db, key);
  c.eval();
  PBT_REQUIRE(e.ok(), "export-failed", "export in " << z << ": " << e.str());
  Bytes f = bridge::read_file(p);
  model::Db o = from_kdb ? ref::read_kdbx(f, comps(cr)).db : ref::read_kdb(f, comps(cr)).db;
  std::vector<int64_t*> x = times(g, true), y = times(o, true);
  // KDB has neither history nor entries of the root.
  if (!from_kdb) { std::function<void(model::Group&)> strip = [&](model::Group& gr) { for (auto& en : gr.entries) en.history.clear(); for (auto& s : gr.groups) strip(s); }; g.root.entries.clear(); strip(g.root); x = times(g, true); }
  PBT_REQUIRE(x.size() == y.size(), "shape", "after conversion: other number of times: " << x.size() << " and " << y.size());
  for (size_t k = 0; k < x.size(); ++k) PBT_REQUIRE((*x[k] == 0) == (*y[k] == 0), "never-convert", (from_kdb ? "KDB to KDBX" : "KDBX to KDB") << " in " << z << ": " << *x[k] << " became " << *y[k]);
  pbt::set_tz("UTC0");
  c.describe(z + (from_kdb ? " KDB" : " KDBX") + ", " + std::to_string(n) + " times that are never");
  if (n) c.nontrivial(z + model::dump(m));
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C20";
  k.rule = "distinct (zones, database) cases: two different zones for KDBX, at least two judged civil times for KDB, at least one 'never' in sub-check never";
  k.assumptions = {"the C library's time zone rules (26 zones with positive, negative, fractional and changing offsets, in POSIX and tzdata form)",
                   "KDB civil times that the importing zone skips have no instant and are not judged; repeated ones may denote either instant",
                   "the instants that spell 'never' (epoch zero, 2999-12-28T22:59:59Z in KDBX, local 2999-12-28 23:59:59 in KDB) mean never by the formats' convention",
                   "years 1601 to 9999 in KDBX, 1900 to 4095 in KDB"};
  k.subs = {{"kdbx", 900, 40000, kdbx}, {"kdb", 1200, 50000, kdb}, {"convert", 500, 15000, convert}, {"never", zones().size() * 4 * 2, zones().size() * 4 * 100, never, true}};
  return pbt::run_check(k, argc, argv);
}
