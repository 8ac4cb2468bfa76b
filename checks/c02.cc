// C02: KDB export followed by import is the identity on KDB databases.
#include "common.hh"
using namespace harness;

static void kdb_round_trip(Case& c, const model::Db& db, const gen::Cred& cr, bool again) {
  keepass::Key key = make_key(c, cr);
  auto lib = bridge::to_db(db, false);
  std::string p = c.dir + "/a.kdb";
  Outcome e = export_kdb(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export of a valid database failed: " << e.str());
  Imported i = import_kdb(p, key);
  PBT_REQUIRE(i.ok(), "import-failed", "import of the exported file failed: " << i.str());
  same_kdb(db, *i.db, "round-trip", "database after export and import");
  if (!again) return;
  c.eval();
  c.label("second-generation");
  Outcome e2 = export_kdb(p, *i.db, key);
  PBT_REQUIRE(e2.ok(), "re-export-failed", "export of the imported database failed: " << e2.str());
  Imported i2 = import_kdb(p, key);
  PBT_REQUIRE(i2.ok(), "re-import-failed", "second import failed: " << i2.str());
  same_kdb(db, *i2.db, "round-trip-2", "database after two round trips");
}

static void general(Case& c, gen::Opt o) {
  begin(c);
  o.kdb = true;
  o.tz = gen::tz(c.t);
  pbt::set_tz(o.tz);
  model::Db db = make_db(c, o);
  gen::Cred cr = gen::cred(c.t);
  c.describe(model::shape(db) + " TZ=" + o.tz + " " + cr.describe());
  label_db(c, db);
  if (rich(db)) c.nontrivial(model::dump(db, kKdbDump));
  kdb_round_trip(c, db, cr, c.t.chance(1, 3));
}
static void rt_small(Case& c) { general(c, gen::Opt()); }
static void rt_mass(Case& c) { gen::Opt o; o.crowd = o.mass = true; o.max_groups = 2; o.max_entries = 2; general(c, o); }
static void rt_crowd(Case& c) { gen::Opt o; o.crowd = true; o.max_groups = 3; o.max_entries = 3; general(c, o); }
static void rt_big(Case& c) {
  gen::Opt o;
  o.max_groups = 60;
  o.max_entries = 40;
  o.big = c.thorough ? 2000000 : 200000;
  general(c, o);
}

// Every tree shape with up to N groups: the index is decoded as a preorder
// sequence of levels.
static std::vector<std::vector<size_t>> g_shapes;
static void make_shapes(size_t n) {
  std::vector<size_t> cur;
  std::function<void()> go = [&] {
    g_shapes.push_back(cur);
    if (cur.size() == n) return;
    size_t lim = cur.empty() ? 0 : cur.back() + 1;
    for (size_t d = 0; d <= lim; ++d) { cur.push_back(d); go(); cur.pop_back(); }
  };
  go();
}
static void shapes(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  uint64_t idx = c.t.below(g_shapes.size());
  const auto& lv = g_shapes[idx];
  model::Db db;
  db.master_seed = std::string(16, 's');
  db.cipher = idx & 1;
  std::vector<model::Group*> path{&db.root};
  for (size_t i = 0; i < lv.size(); ++i) {
    path.resize(lv[i] + 1);
    model::Group* p = path.back();
    model::Group g;
    g.name = "g" + std::to_string(i);
    // Children vectors may move when growing; re-resolve through indices.
    p->groups.push_back(g);
    path.push_back(&p->groups.back());
    model::Entry e;
    e.uuid = gen::uuid_from(3, i);
    e.title.v = "e" + std::to_string(i);
    path.back()->entries.push_back(e);
    if (i % 3 == 1) { e.uuid = gen::uuid_from(4, i); path.back()->entries.push_back(e); }
  }
  std::string s;
  for (size_t d : lv) s += std::to_string(d) + " ";
  c.describe("levels " + s);
  c.nontrivial(idx);
  kdb_round_trip(c, db, simple_cred(), false);
}

static void lengths(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  static const std::vector<size_t> centre = {0, 16, 32, 48, 64, 128, 256, 1024, 2048, 4096, 16384, 65536, 262144};
  size_t n = c.t.of(centre) + c.t.below(40);
  n = n >= 20 ? n - 20 : n;
  std::string data = c.t.bytes(n), text = data;
  for (auto& ch : text) if (!ch) ch = 'z';
  size_t where = c.t.below(7);
  model::Db db;
  db.cipher = c.t.below(2);
  db.master_seed = std::string(16, 's');
  model::Group g;
  g.name = where == 0 ? text : "g";
  model::Entry e;
  e.uuid = gen::uuid_from(1, 1);
  switch (where) {
    case 1: e.title.v = text; break;
    case 2: e.url.v = text; break;
    case 3: e.username.v = text; break;
    case 4: e.password.v = text; break;
    case 5: e.notes.v = text; break;
    case 6: { model::Attachment a; a.name = "f"; a.inl.data = data; e.attachments.push_back(a); break; }
  }
  g.entries.push_back(e);
  db.root.groups.push_back(g);
  c.describe("length " + std::to_string(n) + " place " + std::to_string(where) + " cipher " + std::to_string(db.cipher));
  c.nontrivial(pbt::mix(n * 16 + where, pbt::hash_str(data)) + db.cipher);
  kdb_round_trip(c, db, simple_cred(), false);
}

// Deep nesting, one long chain with side branches.
static void deep(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  size_t n = 20 + c.t.below(970);
  model::Db db;
  db.master_seed = std::string(16, 's');
  db.cipher = c.t.below(2);
  std::function<void(model::Group&, size_t)> chain = [&](model::Group& g, size_t k) {
    g.name = "d" + std::to_string(k);
    if (k == 0) return;
    if (c.t.chance(1, 6)) { model::Group s; s.name = "s"; g.groups.push_back(s); }
    g.groups.push_back(model::Group());
    chain(g.groups.back(), k - 1);
    if (c.t.chance(1, 6)) { model::Group s; s.name = "t"; g.groups.push_back(s); }
  };
  db.root.groups.push_back(model::Group());
  chain(db.root.groups.back(), n);
  db.root.name.clear();
  c.describe("depth " + std::to_string(n));
  c.nontrivial(model::dump(db, kKdbDump));
  kdb_round_trip(c, db, simple_cred(), false);
}

int main(int argc, char** argv) {
  bool th = std::string(getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "") == "thorough";
  for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--tier=thorough") th = true;
  make_shapes(9);
  uint64_t q = 0;
  for (auto& s : g_shapes) q += s.size() <= 7;
  // Shorter sequences first so that the quick tier covers all shapes up to 7.
  std::stable_sort(g_shapes.begin(), g_shapes.end(), [](const std::vector<size_t>& a, const std::vector<size_t>& b) { return a.size() < b.size(); });
  (void)th;
  pbt::Check k;
  k.property = "C02";
  k.rule = "the database has a group below the root and an entry (distinct by full content); shapes: each preorder level sequence (all trees of up to 7 groups, thorough: 9); lengths: distinct (length, place, content)";
  k.assumptions = {"texts contain no NUL", "times are unambiguous local times within 1901-4094", "entries live in groups below the root, at most one attachment each, 16-byte master seed (what KDB can represent)"};
  k.subs = {{"roundtrip", 5000, 150000, rt_small}, {"roundtrip-big", 100, 2500, rt_big}, {"roundtrip-crowd", 150, 4000, rt_crowd}, {"roundtrip-mass", 16, 300, rt_mass}, {"shapes", q, g_shapes.size(), shapes, true}, {"lengths", 400, 10000, lengths}, {"deep", 40, 400, deep}};
  return pbt::run_check(k, argc, argv);
}
