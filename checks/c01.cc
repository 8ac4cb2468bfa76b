// C01: KDBX export followed by import is the identity on databases.
#include "common.hh"
using namespace harness;

static void round_trip(Case& c, const gen::Opt& o) {
  begin(c);
  model::Db db = make_db(c, o);
  gen::Cred cr = gen::cred(c.t);
  keepass::Key key = make_key(c, cr);
  c.describe(model::shape(db) + " " + cr.describe());
  label_db(c, db);
  if (rich(db)) c.nontrivial(model::dump(db));
  auto lib = bridge::to_db(db);
  same_kdbx(db, *lib, "bridge", "model and constructed database");
  ask_compression(c, *lib);
  std::string p = c.dir + "/a.kdbx";
  Outcome e = export_kdbx(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export of a valid database failed: " << e.str());
  Imported i = import_kdbx(p, key);
  PBT_REQUIRE(i.ok(), "import-failed", "import of the exported file failed: " << i.str());
  same_kdbx(db, *i.db, "round-trip", "database after export and import");
  PBT_REQUIRE(*i.db->root() == *i.db->root(), "self-unequal", "imported root differs from itself");
  // A second generation must not drift either.
  if (c.t.chance(1, 3)) {
    c.eval();
    c.label("second-generation");
    Outcome e2 = export_kdbx(p, *i.db, key);
    PBT_REQUIRE(e2.ok(), "re-export-failed", "export of the imported database failed: " << e2.str());
    Imported i2 = import_kdbx(p, key);
    PBT_REQUIRE(i2.ok(), "re-import-failed", "second import failed: " << i2.str());
    same_kdbx(db, *i2.db, "round-trip-2", "database after two round trips");
  }
}

static void rt_small(Case& c) { gen::Opt o; round_trip(c, o); }
static void rt_mass(Case& c) { gen::Opt o; o.crowd = o.mass = true; o.max_groups = 2; o.max_entries = 2; round_trip(c, o); }
static void rt_crowd(Case& c) { gen::Opt o; o.crowd = true; o.max_groups = 3; o.max_entries = 3; round_trip(c, o); }
static void rt_big(Case& c) {
  gen::Opt o;
  o.big = c.thorough ? 3000000 : 300000;
  o.max_groups = 40;
  o.max_entries = 25;
  round_trip(c, o);
}

// One text/binary of a swept length in one of the places that hold data.
static void lengths(Case& c) {
  begin(c);
  static const std::vector<size_t> centre = {0, 16, 32, 48, 64, 128, 192, 256, 1024, 4096, 12288, 16384, 32768, 65536, 131072, 1048576};
  size_t n = c.t.of(centre) + c.t.below(40);
  n = n >= 20 ? n - 20 : n;
  std::string data = c.t.bytes(n);
  std::string text;
  for (unsigned char b : data) text += char('!' + b % 90);
  model::Db db;
  db.compress = c.t.chance(1, 2);
  db.master_seed = std::string(32, 'm');
  db.root.uuid = gen::uuid_from(1, 0);
  db.root.name = "r";
  model::Entry e;
  e.uuid = gen::uuid_from(1, 1);
  size_t where = c.t.below(9);
  switch (where) {
    case 0: e.title = {text, false}; break;
    case 1: e.password = {data, true}; break;
    case 2: e.notes = {text, false}; e.password = {data.substr(0, n % 70), true}; break;
    case 3: e.custom.push_back({"k", {data, true}}); e.custom.push_back({"k2", {"tail", true}}); break;
    case 4: db.root.notes = text; break;
    case 5: db.meta.desc.v = text; break;
    case 6: { model::Binary b; b.data = data; b.compress = true; db.meta.binaries.push_back(b); break; }
    case 7: { model::Binary b; b.data = data; b.prot = true; db.meta.binaries.push_back(b); e.password = {"after", true}; break; }
    default: { model::Binary b; b.data = data; db.meta.binaries.push_back(b); break; }
  }
  if (!db.meta.binaries.empty()) { model::Attachment a; a.name = "f"; a.pool = 0; e.attachments.push_back(a); }
  db.root.entries.push_back(e);
  c.describe("length " + std::to_string(n) + " place " + std::to_string(where) + " compress " + std::to_string(db.compress));
  c.nontrivial(pbt::mix(n * 16 + where, pbt::hash_str(data)) + db.compress);
  c.label("place:" + std::to_string(where));
  keepass::Key key("password");
  auto lib = bridge::to_db(db);
  std::string p = c.dir + "/a.kdbx";
  Outcome o = export_kdbx(p, *lib, key);
  PBT_REQUIRE(o.ok(), "export-failed", "export failed: " << o.str());
  Imported i = import_kdbx(p, key);
  PBT_REQUIRE(i.ok(), "import-failed", "import of the exported file failed: " << i.str());
  same_kdbx(db, *i.db, "round-trip", "database with a value of " + std::to_string(n) + " bytes");
}

// Unprotected text that begins or ends with white space. The library trims such
// text when it reads a file (its own tests rely on that), so what was exported
// comes back without it: a recorded finding. Any other difference is not.
static void edge_space(Case& c) {
  begin(c);
  gen::Opt o;
  o.edge_ws = true;
  o.max_groups = 4;
  o.max_entries = 4;
  model::Db db = gen::db(c.t, o);
  c.describe(model::shape(db));
  auto trim = [](model::Db d) {
    model::map_plain(d, [](std::string& s) {
      auto ws = [](char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; };
      size_t a = 0, b = s.size();
      while (a < b && ws(s[a])) ++a;
      while (b > a && ws(s[b - 1])) --b;
      s = s.substr(a, b - a);
    });
    // A custom datum whose key was only white space loses its key and with it
    // its place in the database: the same finding.
    for (auto it = d.meta.custom.begin(); it != d.meta.custom.end();)
      it = it->first.empty() ? d.meta.custom.erase(it) : it + 1;
    return model::dump(d, kKdbxDump);
  };
  std::string want = model::dump(db, kKdbxDump), without = trim(db);
  if (want != without) c.nontrivial(want);
  auto lib = bridge::to_db(db);
  std::string p = c.dir + "/a.kdbx";
  keepass::Key key("password");
  Outcome e = export_kdbx(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export of a valid database failed: " << e.str());
  Imported i = import_kdbx(p, key);
  PBT_REQUIRE(i.ok(), "import-failed", "import of the exported file failed: " << i.str());
  model::Db back = bridge::from_db(*i.db);
  std::string got = model::dump(back, kKdbxDump);
  if (got == want) return;
  if (trim(back) == without) pbt::fail("edge-space-lost", "white space around an unprotected text is lost: " + pbt::first_diff(want, got));
  got = trim(back);
  pbt::fail("edge-space:" + class_of_diff(without, got), "database with white space around texts: " + pbt::first_diff(without, got));
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C01";
  k.rule = "the database has a group below the root together with an entry, or a stored binary or icon (distinct by full content); for the length sweep: distinct (length, place, content)";
  k.assumptions = {"unprotected texts contain no NUL (XML cannot carry it)",
                   "times lie in the years 1601-9999, group UUIDs are distinct, entry UUIDs are distinct within a group"};
  k.subs = {{"roundtrip", 4000, 120000, rt_small}, {"roundtrip-big", 120, 3000, rt_big}, {"roundtrip-crowd", 250, 8000, rt_crowd}, {"roundtrip-mass", 24, 400, rt_mass}, {"lengths", 500, 12000, lengths}, {"edge-space", 400, 8000, edge_space}};
  return pbt::run_check(k, argc, argv);
}
