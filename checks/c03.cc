// C03: KDBX files interoperate with an independent reader and writer.
#include "common.hh"
using namespace harness;

static void outbound(Case& c, gen::Opt o) {
  begin(c);
  o.strict_xml = true;
  model::Db db = make_db(c, o);
  gen::Cred cr = gen::cred(c.t);
  keepass::Key key = make_key(c, cr);
  c.describe("export " + model::shape(db) + " " + cr.describe());
  label_db(c, db);
  c.label("direction:export");
  if (rich(db)) c.nontrivial(model::dump(db) + "o");
  auto lib = bridge::to_db(db);
  ask_compression(c, *lib);
  if (c.t.chance(1, 6)) {
    // The format wants 32 bytes whatever the database came with.
    size_t n = c.t.chance(1, 2) ? 16 : c.t.below(c.t.chance(1, 4) ? 70000 : 70);
    db.master_seed = c.t.bytes(n);
    lib->set_master_seed(std::vector<uint8_t>(db.master_seed.begin(), db.master_seed.end()));
    if (n != 32) c.label("master seed of another size");
    db.master_seed.resize(32, '\0');
  }
  std::string p = c.dir + "/a.kdbx";
  Outcome e = export_kdbx(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export of a valid database failed: " << e.str());
  ref::KdbxInfo info;
  try {
    info = ref::read_kdbx(bridge::read_file(p), comps(cr));
  } catch (const ref::Error& x) {
    pbt::fail("not-valid-kdbx", std::string("the exported file is not a valid KDBX 3.1 file: ") + x.what());
  }
  same(model::dump(db, kKdbxDump), model::dump(info.db, kKdbxDump), "decoded", "database decoded by the independent reader");
}
static void out_small(Case& c) { outbound(c, gen::Opt()); }
static void out_big(Case& c) { gen::Opt o; o.big = c.thorough ? 2500000 : 250000; o.max_groups = 30; o.max_entries = 20; outbound(c, o); }

static void inbound(Case& c, gen::Opt o) {
  begin(c);
  o.strict_xml = true;
  model::Db db = make_db(c, o);
  // Inline compressed attachments exist in foreign files.
  std::function<void(model::Entry&)> ent = [&](model::Entry& e) {
    for (auto& a : e.attachments)
      if (a.pool < 0 && !a.inl.prot && c.t.chance(1, 2)) a.inl.compress = true;
    for (auto& h : e.history) ent(h);
  };
  for (auto* g : model::preorder(db.root)) for (auto& e : g->entries) ent(e);
  gen::Cred cr = gen::cred(c.t);
  ref::KdbxStyle st = ref::gen_kdbx_style(c.t);
  pbt::SplitMix rng = c.t.sub();
  keepass::Key key = make_key(c, cr);
  c.describe("import " + model::shape(db) + " " + cr.describe());
  label_db(c, db);
  c.label("direction:import");
  if (st.omit_defaults) c.label("style:omit");
  if (st.unknown) c.label("style:unknown-elements");
  if (st.xml.cdata) c.label("style:cdata");
  if (st.blocks.size()) c.label("style:blocks");
  if (st.comment_field) c.label("style:header-comment");
  if (rich(db)) c.nontrivial(model::dump(db) + "i");
  std::string p = c.dir + "/b.kdbx";
  bridge::write_file(p, ref::write_kdbx(db, comps(cr), st, rng));
  Imported i = import_kdbx(p, key);
  PBT_REQUIRE(i.ok(), "import-failed", "a valid KDBX 3.1 file was rejected: " << i.str());
  same_kdbx(db, *i.db, "imported", "database imported from an independently written file");
}
static void in_small(Case& c) { inbound(c, gen::Opt()); }
static void in_big(Case& c) { gen::Opt o; o.big = c.thorough ? 2500000 : 250000; o.max_groups = 30; o.max_entries = 20; inbound(c, o); }


static void out_crowd(Case& c) { gen::Opt o; o.crowd = true; o.max_groups = 3; o.max_entries = 3; outbound(c, o); }
static void in_crowd(Case& c) { gen::Opt o; o.crowd = true; o.max_groups = 3; o.max_entries = 3; inbound(c, o); }

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C03";
  k.rule = "the database has a group below the root together with an entry, or a stored binary or icon (distinct by full content and direction)";
  k.assumptions = {"the reference reader and writer implement KDBX 3.1 (cross-checked against KeePass-written sample files)",
                   "texts are legal XML 1.0 characters; sections of foreign files whose order the format fixes (String, Binary, History within an entry; entries before groups; Meta before Root) appear in that order"};
  k.subs = {{"export", 3000, 100000, out_small}, {"import", 5000, 160000, in_small}, {"export-crowd", 150, 4000, out_crowd}, {"import-crowd", 150, 4000, in_crowd}, {"export-big", 60, 1500, out_big}, {"import-big", 60, 1500, in_big}};
  return pbt::run_check(k, argc, argv);
}
