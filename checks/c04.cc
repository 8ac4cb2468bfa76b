// C04: KDB files interoperate with an independent reader and writer.
#include "common.hh"
using namespace harness;

static void outbound(Case& c, gen::Opt o) {
  begin(c);
  o.kdb = true;
  o.tz = gen::tz(c.t);
  pbt::set_tz(o.tz);
  model::Db db = make_db(c, o);
  gen::Cred cr = gen::cred(c.t);
  keepass::Key key = make_key(c, cr);
  c.describe("export " + model::shape(db) + " TZ=" + o.tz + " " + cr.describe());
  label_db(c, db);
  c.label("direction:export");
  if (rich(db)) c.nontrivial(model::dump(db, kKdbDump) + "o");
  auto lib = bridge::to_db(db, false);
  std::string p = c.dir + "/a.kdb";
  Outcome e = export_kdb(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export of a valid database failed: " << e.str());
  ref::KdbInfo info;
  try {
    info = ref::read_kdb(bridge::read_file(p), comps(cr));
  } catch (const ref::Error& x) {
    pbt::fail("not-valid-kdb", std::string("the exported file is not a valid KDB file: ") + x.what());
  }
  same(model::dump(db, kKdbDump), model::dump(info.db, kKdbDump), "decoded", "database decoded by the independent reader");
}
static void out_small(Case& c) { outbound(c, gen::Opt()); }
static void out_big(Case& c) { gen::Opt o; o.big = c.thorough ? 1500000 : 150000; o.max_groups = 40; o.max_entries = 30; outbound(c, o); }

static void inbound(Case& c, gen::Opt o) {
  begin(c);
  o.kdb = true;
  o.tz = gen::tz(c.t);
  pbt::set_tz(o.tz);
  model::Db db = make_db(c, o);
  gen::Cred cr = gen::cred(c.t);
  ref::KdbStyle st = ref::gen_kdb_style(c.t);
  pbt::SplitMix rng = c.t.sub();
  keepass::Key key = make_key(c, cr);
  c.describe("import " + model::shape(db) + " TZ=" + o.tz + " " + cr.describe());
  label_db(c, db);
  c.label("direction:import");
  if (st.shuffle_fields) c.label("style:field-order");
  if (st.shuffle_entries) c.label("style:entry-order");
  if (st.random_ids) c.label("style:ids");
  if (st.comments) c.label("style:empty-fields");
  if (rich(db)) c.nontrivial(model::dump(db, kKdbDump) + "i");
  std::string p = c.dir + "/b.kdb";
  bridge::write_file(p, ref::write_kdb(db, comps(cr), st, rng));
  Imported i = import_kdb(p, key);
  PBT_REQUIRE(i.ok(), "import-failed", "a valid KDB file was rejected: " << i.str());
  same_kdb(db, *i.db, "imported", "database imported from an independently written file");
}
static void in_small(Case& c) { inbound(c, gen::Opt()); }
static void in_big(Case& c) { gen::Opt o; o.big = c.thorough ? 1500000 : 150000; o.max_groups = 40; o.max_entries = 30; inbound(c, o); }

static void out_crowd(Case& c) { gen::Opt o; o.crowd = true; o.max_groups = 3; o.max_entries = 3; outbound(c, o); }
static void in_crowd(Case& c) { gen::Opt o; o.crowd = true; o.max_groups = 3; o.max_entries = 3; inbound(c, o); }

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C04";
  k.rule = "the database has a group below the root and an entry (distinct by full content and direction)";
  k.assumptions = {"the reference reader and writer implement the KeePass 1.x format (cross-checked against KeePass-written sample files)",
                   "texts are NUL-terminated byte strings; local times are computed with the C library's time-zone rules"};
  k.subs = {{"export", 4000, 120000, out_small}, {"import", 5000, 160000, in_small}, {"export-crowd", 150, 4000, out_crowd}, {"import-crowd", 150, 4000, in_crowd}, {"export-big", 60, 1500, out_big}, {"import-big", 60, 1500, in_big}};
  return pbt::run_check(k, argc, argv);
}
