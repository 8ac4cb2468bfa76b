// C16: operations are independent of history and do not disturb their arguments.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <set>

#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
typedef std::set<const void*> Ptrs;
void ptrs(const keepass::Entry& ce, Ptrs& out, std::ostringstream& os) {
  keepass::Entry& e = const_cast<keepass::Entry&>(ce);
  out.insert(&e);
  os << "E" << &e << e.custom_icon().lock().get();
  for (auto& a : e.attachments()) {
    os << "A" << a.get() << (a ? a->binary().get() : nullptr);
    if (a) { out.insert(a.get()); if (a->binary()) out.insert(a->binary().get()); }
  }
  for (auto& h : e.history()) if (h) ptrs(*h, out, os);
}
void ptrs(const keepass::Group& g, Ptrs& out, std::ostringstream& os) {
  out.insert(&g);
  os << "G" << &g << g.custom_icon().lock().get() << g.last_visible_entry().lock().get();
  for (auto& e : g.Entries()) if (e) ptrs(*e, out, os);
  for (auto& s : g.Groups()) if (s) ptrs(*s, out, os);
}
// All mutable objects reachable from a database, and (text) who refers to whom.
std::string ptrs(const keepass::Database& db, Ptrs& out) {
  std::ostringstream os;
  if (db.root()) ptrs(*db.root(), out, os);
  if (auto m = db.meta()) {
    out.insert(m.get());
    os << "M" << m.get();
    for (auto& b : m->binaries()) { out.insert(b.get()); os << "B" << b.get(); }
    for (auto& i : m->icons()) { out.insert(i.get()); os << "I" << i.get(); }
    for (auto g : {m->recycle_bin(), m->entry_templates(), m->last_selected_group().lock(), m->last_visible_group().lock()}) { os << "g" << g.get(); if (g) out.insert(g.get()); }
  }
  return os.str();
}
std::string state(const keepass::Database& db, bool addresses = true) {
  std::string aliens;
  model::Db m = bridge::from_db(db, &aliens);
  Ptrs p;
  return model::dump(m) + "compress flags:" + [&] { std::string s; if (db.meta()) for (auto& b : db.meta()->binaries()) s += b->compress() ? '1' : '0'; return s; }() + "\n" + aliens +
         (addresses ? ptrs(db, p) : "");
}

// Removes every child element of that name anywhere below n.
void drop(ref::Node& n, const std::string& name) {
  for (size_t i = 0; i < n.kids.size();) {
    if (n.kids[i].name == name) n.kids.erase(n.kids.begin() + i);
    else { drop(n.kids[i], name); ++i; }
  }
}

struct Slot {
  std::string path, what;
  Bytes bytes;
  bool kdb = false;
  int key = 0;            // index of the right key
  Outcome fresh[3];       // outcome with each key, from fresh objects
  std::string dump[3];
  bool missing = false;
};
struct Source {
  model::Db m;
  std::shared_ptr<keepass::Database> lib;
  bool kdb = false;
  std::string content;    // what a fresh export holds
  Outcome fresh;
};
struct World {
  std::vector<Slot> slots;
  std::vector<Source> sources;
  std::vector<gen::Cred> creds;
};

std::string content_of(bool kdb, const std::string& path, const gen::Cred& cr) {
  Bytes f = bridge::read_file(path);
  try {
    if (kdb) {
      ref::KdbInfo i = ref::read_kdb(f, comps(cr));
      return model::dump(i.db, kKdbDump) + "size " + std::to_string(f.size());
    }
    ref::KdbxInfo i = ref::read_kdbx(f, comps(cr));
    std::string x = i.xml;
    // The XML apart from obfuscated data is the content.
    return model::dump(i.db, kKdbxDump) + "XML size " + std::to_string(x.size());
  } catch (const std::exception& e) {
    return std::string("unreadable: ") + e.what();
  }
}
std::set<std::string> listing(const std::string& dir) {
  std::set<std::string> r;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) r.insert(e->d_name);
    closedir(d);
  }
  return r;
}

model::Db base_db(Case& c, bool kdb) {
  gen::Opt o;
  o.kdb = kdb;
  o.strict_xml = true;
  o.max_groups = 5;
  o.max_entries = 5;
  model::Db m = gen::db(c.t, o);
  m.rounds %= 3;
  return m;
}
// Something for earlier operations to leave behind.
void enrich(Case& c, model::Db& m) {
  auto seed = c.t.below(4);
  if (m.meta.icons.empty()) m.meta.icons.push_back({gen::uuid_from(seed, 901), "icon" + std::to_string(seed)});
  if (m.meta.binaries.empty()) { model::Binary b; b.data = "binary" + std::to_string(seed); m.meta.binaries.push_back(b); }
  model::Entry e;
  e.uuid = gen::uuid_from(5, 902);
  e.title.v = "rich";
  e.custom_icon = 0;
  model::Attachment a;
  a.name = "a";
  a.pool = 0;
  e.attachments.push_back(a);
  model::Group g;
  g.uuid = gen::uuid_from(5, 903);
  g.name = "bin";
  g.custom_icon = 0;
  g.entries.push_back(e);
  g.last_visible = 0;
  m.root.groups.push_back(g);
  int idx = int(model::count_groups(m.root)) - 1;
  model::GRef r;
  r.kind = model::GRef::kTree;
  r.index = idx;
  m.meta.recycle_bin = r;
  m.meta.last_selected = r;
  m.meta.last_visible = r;
  m.meta.templates = r;
}

World make_world(Case& c, bool kdb_only, bool kdbx_only) {
  World w;
  pbt::set_tz("UTC0");
  gen::Cred c0 = simple_cred(), c1, c2;
  c1.has_kf = true;
  c1.kf = ref::sha256("kf");
  c2.has_pw = true;
  c2.pw = "other";
  c2.has_kf = true;
  c2.kf = Bytes(32, '\0');
  w.creds = {c0, c1, c2};
  size_t n = 2 + c.t.below(3);
  model::Db last;
  bool have_last = false;
  pbt::SplitMix last_rng(0);
  ref::KdbxStyle last_style;
  int last_key = 0;
  for (size_t i = 0; i < n; ++i) {
    Slot s;
    s.kdb = kdb_only || (!kdbx_only && c.t.chance(1, 2));
    s.key = int(c.t.below(3));
    s.path = c.dir + "/in" + std::to_string(i);
    pbt::SplitMix rng = c.t.sub();
    const gen::Cred& cr = w.creds[s.key];
    size_t style = c.t.below(8);
    if (s.kdb) {
      model::Db m = base_db(c, true);
      s.bytes = ref::write_kdb(m, comps(cr), ref::gen_kdb_style(c.t), rng);
      s.what = "KDB";
    } else {
      model::Db m = have_last && c.t.chance(3, 4) ? last : base_db(c, false);
      if (!have_last) enrich(c, m);
      // Files that share even their header with an earlier one.
      ref::KdbxStyle st = ref::gen_kdbx_style(c.t);
      if (have_last && (style == 3 || style == 4 || style == 7) && c.t.chance(3, 4)) { m = last; rng = last_rng; st = last_style; s.key = last_key; }
      const gen::Cred& cr = w.creds[s.key];
      last = m;
      last_rng = rng;
      last_style = st;
      last_key = s.key;
      have_last = true;
      s.what = "KDBX";
      std::function<void(ref::Node&)> edit;
      std::function<void(Bytes&)> edit_xml;
      if (style == 1) { edit = [](ref::Node& d) { drop(d, "Binaries"); }; s.what += " without its binaries"; }
      if (style == 2) { edit = [](ref::Node& d) { drop(d, "CustomIcons"); }; s.what += " without its icons"; }
      if (style == 3) { edit_xml = [](Bytes& x) { size_t a = x.find("<HeaderHash>"), b = x.find("</HeaderHash>"); if (a != Bytes::npos && b != Bytes::npos) x.erase(a, b + 13 - a); }; s.what += " without header hash"; }
      if (style == 4) { edit_xml = [](Bytes& x) { size_t a = x.find("<HeaderHash>"); if (a != Bytes::npos) x[a + 13] ^= 1; }; s.what += " with a wrong header hash"; }
      if (style == 7) { edit_xml = [](Bytes& x) { size_t a = x.find("<HeaderHash>"); if (a != Bytes::npos) x.erase(a + 12, 20); }; s.what += " with part of its header hash"; }
      if (style == 5) { m.root.groups.clear(); s.what += " without its groups"; m.meta.recycle_bin.kind = m.meta.templates.kind = m.meta.last_selected.kind = m.meta.last_visible.kind = model::GRef::kDetached;
                        m.meta.recycle_bin.uuid = m.meta.templates.uuid = m.meta.last_selected.uuid = m.meta.last_visible.uuid = gen::uuid_from(5, 903); }
      if (style == 6) { edit = [](ref::Node& d) { drop(d, "Meta"); }; s.what += " without meta data"; }
      s.bytes = ref::write_kdbx(m, comps(cr), st, rng, edit, edit_xml);
    }
    switch (c.t.pick({7, 1, 1, 1})) {
      case 1: s.bytes.resize(c.t.below(s.bytes.size())); s.what += " truncated"; break;
      case 2: { size_t p = c.t.below(s.bytes.size()); s.bytes[p] ^= 1 << c.t.below(8); s.what += " damaged at " + std::to_string(p); break; }
      case 3: s.missing = true; s.what = "missing file"; break;
      default: break;
    }
    if (rounds_of(s.kdb, s.bytes) > 1000) { s.bytes.resize(50); s.what += " (cut to 50 bytes)"; }
    if (!s.missing) bridge::write_file(s.path, s.bytes);
    w.slots.push_back(s);
  }
  size_t ns = 1 + c.t.below(3);
  for (size_t i = 0; i < ns; ++i) {
    Source s;
    s.kdb = kdb_only || (!kdbx_only && c.t.chance(1, 2));
    s.m = base_db(c, s.kdb);
    if (!s.kdb && c.t.chance(1, 2)) enrich(c, s.m);
    s.lib = bridge::to_db(s.m);
    if (!s.kdb && i > 0 && !w.sources[0].kdb && !w.sources[0].lib->meta()->binaries().empty() && c.t.chance(3, 4)) {
      // An entry whose attachment's data belongs to another database.
      auto e = std::make_shared<keepass::Entry>();
      e->set_uuid(bridge::arr<16>(gen::uuid_from(3, 33)));
      auto a = std::make_shared<keepass::Entry::Attachment>();
      a->set_name("foreign");
      a->set_binary(w.sources[0].lib->meta()->binaries()[0]);
      e->AddAttachment(a);
      s.lib->root()->AddEntry(e);
      c.label("shared-binary-across-databases");
    }
    w.sources.push_back(s);
  }
  return w;
}
void mutate(keepass::Entry& e) {
  e.set_title(keepass::protect<std::string>("CHANGED", true));
  e.set_uuid(bridge::arr<16>(Bytes(16, '\x5a')));
  e.set_creation_time(e.creation_time() + 1);
  for (auto& a : e.attachments()) {
    a->set_name("CHANGED");
    if (a->binary()) { a->binary()->set_data(keepass::protect<std::string>("CHANGED", false)); }
  }
  for (auto& h : e.history()) mutate(*h);
  e.AddHistoryEntry(std::make_shared<keepass::Entry>());
}
void mutate(keepass::Group& g) {
  g.set_name("CHANGED");
  g.set_notes("CHANGED");
  for (auto& e : g.Entries()) mutate(*e);
  for (auto& s : g.Groups()) mutate(*s);
  g.AddGroup(std::make_shared<keepass::Group>());
}
// Changes everything a user of an imported database could change.
void mutate(keepass::Database& db) {
  mutate(*db.root());
  if (auto m = db.meta()) {
    m->set_generator("CHANGED");
    for (auto& b : m->binaries()) { b->set_compress(!b->compress()); b->set_data(keepass::protect<std::string>("CHANGED", true)); }
    for (auto& i : m->icons()) i->set_data({1, 2, 3});
    m->AddBinary(std::make_shared<keepass::Binary>(keepass::protect<std::string>("CHANGED", false)));
    m->AddField("CHANGED", "CHANGED");
    m->set_recycle_bin(nullptr);
  }
  db.set_transform_rounds(77);
  db.set_compress(!db.compress());
}
// Comparable between imports: KDB groups get new identifiers every time.
std::string fresh_dump(const keepass::Database& db, bool kdb) { return kdb ? model::dump(bridge::from_db(db), kKdbDump) : state(db, false); }

struct Punct : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  char do_decimal_point() const override { return ';'; }
  std::string do_grouping() const override { return "\1"; }
  std::string do_truename() const override { return "ja"; }
  std::string do_falsename() const override { return "nein"; }
};
struct LocaleGuard {
  std::locale old;
  explicit LocaleGuard(bool on) { if (on) old = std::locale::global(std::locale(std::locale::classic(), new Punct)); }
  ~LocaleGuard() { std::locale::global(old); }
};
}  // namespace

static void history(Case& c, bool kdb_only, bool kdbx_only, bool locale) {
  begin(c);
  World w = make_world(c, kdb_only, kdbx_only);
  // Fresh outcomes first.
  std::vector<Key> keys;
  for (auto& cr : w.creds) keys.push_back(make_key(c, cr));
  for (auto& s : w.slots)
    for (int k = 0; k < 3; ++k) {
      Key fk = make_key(c, w.creds[k]);
      Imported i = s.kdb ? import_kdb(s.path, fk) : import_kdbx(s.path, fk);
      s.fresh[k] = i;
      if (i.ok()) s.dump[k] = fresh_dump(*i.db, s.kdb);
      c.eval();
    }
  std::vector<std::string> before;
  for (auto& s : w.sources) {
    before.push_back(state(*s.lib));
    Key fk = make_key(c, w.creds[0]);
    std::string p = c.dir + "/fresh";
    s.fresh = s.kdb ? export_kdb(p, *s.lib, fk) : export_kdbx(p, *s.lib, fk);
    if (s.fresh.ok()) s.content = content_of(s.kdb, p, w.creds[0]);
    ::unlink(p.c_str());
    PBT_REQUIRE(state(*s.lib) == before.back(), "export-changes-db", "exporting changed the database: " << pbt::first_diff(before.back(), state(*s.lib)));
  }
  auto in_locale = [&](auto f) { LocaleGuard lg(locale); return f(); };
  std::set<std::string> dir0 = listing(c.dir);
  keepass::KdbxFile xf;
  keepass::KdbFile kf;
  struct Held { std::shared_ptr<keepass::Database> db; std::string dump; bool changed = false; std::string how; };
  std::vector<Held> held;
  std::string log;
  size_t steps = 2 + c.t.below(c.thorough ? 14 : 8);
  size_t failures = 0, oks = 0;
  for (size_t st = 0; st < steps; ++st) {
    size_t op = c.t.pick({8, 5, 2, 2, 2, 1});
    if (op == 0 || op == 3) {  // import, possibly with a failing read
      Slot& s = w.slots[c.t.below(w.slots.size())];
      int k = c.t.chance(1, 4) ? int(c.t.below(3)) : s.key;
      bool faulty = op == 3;
      std::string step = "import " + s.what + (k != s.key ? " with a wrong key" : "") + (faulty ? " while reading fails" : "");
      log += step + "; ";
      struct stat a {}, b {};
      ::stat(s.path.c_str(), &a);
      if (faulty) { FaultPlan f; f.read_fail_at = int64_t(c.t.below(s.bytes.size() + 1)); arm(f); }
      Imported i = in_locale([&] { return s.kdb ? import_kdb(s.path, keys[k], &kf) : import_kdbx(s.path, keys[k], &xf); });
      FaultStats fs;
      if (faulty) fs = disarm();
      c.eval();
      if (fs.injected) {
        ++failures;
        PBT_REQUIRE(!i.ok(), "read-error-ignored", log << "succeeded");
      } else {
        PBT_REQUIRE(i.kind == s.fresh[k].kind, "outcome-differs", log << "gave " << i.str() << ", with fresh objects " << s.fresh[k].str());
        if (i.ok()) {
          ++oks;
          std::string d = fresh_dump(*i.db, s.kdb);
          PBT_REQUIRE(d == s.dump[k], "result-differs:" + class_of_diff(s.dump[k], d), log << "gave another database than with fresh objects: " << pbt::first_diff(s.dump[k], d));
          Ptrs mine;
          ptrs(*i.db, mine);
          for (auto& h : held) {
            Ptrs o;
            ptrs(*h.db, o);
            for (auto p : mine) PBT_REQUIRE(!o.count(p), "shared-object", log << "gave a database that shares an object with that of " << h.how);
          }
          for (auto& src : w.sources) {
            Ptrs o;
            ptrs(*src.lib, o);
            for (auto p : mine) PBT_REQUIRE(!o.count(p), "shared-object", log << "gave a database that shares an object with an exported one");
          }
          held.push_back({i.db, state(*i.db), false, step});
        } else ++failures;
      }
      ::stat(s.path.c_str(), &b);
      if (!s.missing) {
        PBT_REQUIRE(a.st_ino == b.st_ino && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec && a.st_mtim.tv_sec == b.st_mtim.tv_sec && a.st_size == b.st_size && a.st_mode == b.st_mode && bridge::read_file(s.path) == s.bytes,
                    "import-changes-file", log << "changed the file");
      }
    } else if (op == 1 || op == 4) {  // export, possibly with a failing write
      size_t si = c.t.below(w.sources.size());
      Source& s = w.sources[si];
      bool faulty = op == 4;
      int k = int(c.t.below(3));
      std::string p = c.dir + "/out" + std::to_string(c.t.below(2));
      dir0.insert(p.substr(c.dir.size() + 1));
      log += std::string("export ") + (s.kdb ? "KDB" : "KDBX") + " #" + std::to_string(si) + (faulty ? " while writing fails" : "") + "; ";
      if (faulty) { FaultPlan f; f.write_fail_at = int64_t(c.t.below(3000)); f.err = 28; arm(f); }
      Outcome e = in_locale([&] { return s.kdb ? export_kdb(p, *s.lib, keys[k], &kf) : export_kdbx(p, *s.lib, keys[k], &xf); });
      FaultStats fs;
      if (faulty) fs = disarm();
      c.eval();
      if (fs.injected) { ++failures; PBT_REQUIRE(!e.ok(), "write-error-ignored", log << "succeeded"); }
      else {
        PBT_REQUIRE(e.kind == s.fresh.kind, "outcome-differs", log << "gave " << e.str() << ", with fresh objects " << s.fresh.str());
        if (e.ok()) {
          ++oks;
          std::string d = content_of(s.kdb, p, w.creds[k]);
          PBT_REQUIRE(d == s.content, "export-differs:" + class_of_diff(s.content, d), log << "wrote other content than with fresh objects: " << pbt::first_diff(s.content, d));
        } else ++failures;
      }
      std::string now = state(*s.lib);
      PBT_REQUIRE(now == before[si], "export-changes-db", log << "changed the database: " << pbt::first_diff(before[si], now));
    } else if (op == 2) {  // change a result
      if (held.empty()) continue;
      Held& h = held[c.t.below(held.size())];
      log += "change the result of '" + h.how + "'; ";
      mutate(*h.db);
      h.dump = state(*h.db);
      h.changed = true;
    } else {  // export an imported result, and import that again
      if (held.empty()) continue;
      Held& h = held[c.t.below(held.size())];
      bool kdb = !h.db->meta();
      if (kdb) continue;
      log += "export the result of '" + h.how + "' and import that; ";
      std::string p = c.dir + "/out9";
      dir0.insert("out9");
      Outcome fe = export_kdbx(p, *h.db, keys[0]);
      std::string fc = fe.ok() ? content_of(false, p, w.creds[0]) : "";
      Outcome e = export_kdbx(p, *h.db, keys[0], &xf);
      c.eval(2);
      PBT_REQUIRE(e.kind == fe.kind, "outcome-differs", log << "gave " << e.str() << ", with fresh objects " << fe.str());
      if (e.ok()) {
        std::string d = content_of(false, p, w.creds[0]);
        PBT_REQUIRE(d == fc, "export-differs:" + class_of_diff(fc, d), log << "wrote other content than with fresh objects: " << pbt::first_diff(fc, d));
        Imported fi = import_kdbx(p, keys[0]), i = import_kdbx(p, keys[0], &xf);
        PBT_REQUIRE(fi.kind == i.kind, "outcome-differs", log << "re-import gave " << i.str() << ", with fresh objects " << fi.str());
        if (i.ok()) {
          std::string a = state(*fi.db, false), b = state(*i.db, false);
          PBT_REQUIRE(a == b, "result-differs:" + class_of_diff(a, b), log << "re-import gave another database than with fresh objects: " << pbt::first_diff(a, b));
        }
      }
    }
    // Nothing else has changed.
    for (auto& h : held) {
      std::string d = state(*h.db);
      PBT_REQUIRE(d == h.dump, "earlier-result-changed:" + class_of_diff(h.dump, d), log << "changed the earlier result of '" << h.how << "': " << pbt::first_diff(h.dump, d));
    }
    std::set<std::string> now = listing(c.dir);
    for (auto& f : now) PBT_REQUIRE(dir0.count(f), "stray-file", log << "left a file '" << f << "' behind");
  }
  // Keys still derive the same key.
  for (size_t k = 0; k < keys.size(); ++k) {
    ref::Components cp = comps(w.creds[k]);
    auto seed = bridge::arr<32>(ref::sha256("seed"));
    auto got = keys[k].Transform(seed, 2, Key::SubKeyResolution::kHashSubKeys);
    PBT_REQUIRE(bridge::str(got) == ref::transform(ref::composite_kdbx(cp), bridge::str(seed), 2), "key-changed", log << "changed the key object");
  }
  c.describe(log);
  c.label(oks && failures ? "successes and failures" : oks ? "successes only" : "failures only");
  if (steps >= 3 && oks >= 2) c.nontrivial(log + std::to_string(c.index));
}

// Results stay valid when the file object is destroyed.
static void outlive(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 3);
  model::Db m = base_db(c, kdb);
  if (!kdb) enrich(c, m);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  pbt::SplitMix rng = c.t.sub();
  std::string p = c.dir + "/f";
  bridge::write_file(p, kdb ? ref::write_kdb(m, comps(cr), ref::gen_kdb_style(c.t), rng) : ref::write_kdbx(m, comps(cr), ref::gen_kdbx_style(c.t), rng));
  std::vector<std::shared_ptr<keepass::Database>> dbs;
  {
    auto xf = std::make_shared<keepass::KdbxFile>();
    auto kf = std::make_shared<keepass::KdbFile>();
    for (int i = 0; i < 2; ++i) {
      Imported r = kdb ? import_kdb(p, key, kf.get()) : import_kdbx(p, key, xf.get());
      PBT_REQUIRE(r.ok(), "import-failed", "import " << i + 1 << " through the same object failed: " << r.str());
      dbs.push_back(r.db);
    }
    // Later operations replace whatever the object keeps.
    import_kdbx(c.dir + "/missing", key, xf.get());
  }
  ::unlink(p.c_str());
  c.eval(3);
  c.nontrivial(model::dump(m));
  c.describe(model::shape(m));
  for (auto& d : dbs) { if (kdb) same_kdb(m, *d, "result-differs", "result after the file object is gone"); else same_kdbx(m, *d, "result-differs", "result after the file object is gone"); touch(*d); }
  mutate(*dbs[0]);
  if (kdb) same_kdb(m, *dbs[1], "results-share-state", "second result after the first was changed"); else same_kdbx(m, *dbs[1], "results-share-state", "second result after the first was changed");
}

// The same database exported repeatedly, to new, existing and longer files.
static void repeat(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 3);
  model::Db m = base_db(c, kdb);
  if (!kdb) enrich(c, m);
  auto lib = bridge::to_db(m);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  keepass::KdbxFile xf;
  keepass::KdbFile kf;
  std::string before = state(*lib), first;
  c.describe(model::shape(m));
  c.nontrivial(model::dump(m));
  for (int i = 0; i < 5; ++i) {
    std::string p = c.dir + "/o" + std::to_string(i);
    if (i == 1) bridge::write_file(p, Bytes(300000, 'x'));
    if (i == 2) bridge::write_file(p, "");
    bool shared = i != 3;
    Outcome e = kdb ? export_kdb(p, *lib, key, shared ? &kf : nullptr) : export_kdbx(p, *lib, key, shared ? &xf : nullptr);
    c.eval();
    PBT_REQUIRE(e.ok(), "export-failed", "export " << i + 1 << " failed: " << e.str());
    std::string d = content_of(kdb, p, cr);
    if (i == 0) { first = d; PBT_REQUIRE(d.compare(0, 11, "unreadable:") != 0, "export-unreadable", "the exported file is " << d); }
    PBT_REQUIRE(d == first, "export-differs:" + class_of_diff(first, d), "export " << i + 1 << " of the same database has other content than the first: " << pbt::first_diff(first, d));
    PBT_REQUIRE(state(*lib) == before, "export-changes-db", "export " << i + 1 << " changed the database: " << pbt::first_diff(before, state(*lib)));
  }
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C16";
  k.rule = "distinct operation histories with at least three operations of which two succeeded, distinct databases for the other sub-checks";
  k.assumptions = {"operations follow one another (concurrent use of one object is not claimed)", "the contents of a destination whose export failed are not compared",
                   "sub-check locale sets a global C++ locale with digit grouping; only the C locale is installed for the C library"};
  k.subs = {{"kdbx", 900, 30000, [](Case& c) { history(c, false, true, false); }},
            {"kdb", 400, 15000, [](Case& c) { history(c, true, false, false); }},
            {"mixed", 400, 15000, [](Case& c) { history(c, false, false, false); }},
            {"locale", 150, 3000, [](Case& c) { history(c, false, false, true); }},
            {"outlive", 400, 10000, outlive},
            {"repeat", 250, 6000, repeat}};
  return pbt::run_check(k, argc, argv);
}
