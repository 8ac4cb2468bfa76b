// C24: converting between the formats keeps everything that both can hold.
#include "common.hh"
using namespace harness;

namespace {
// What a KDB file holds of a database, apart from the group flags, which KDBX
// does not have.
model::Db project(model::Db m) {
  m.cipher = 0;  // KDBX has but one
  m.master_seed.clear();  // of other sizes
  for (auto* g : model::preorder(m.root)) {
    g->flags = 0;
    for (auto& e : g->entries) {
      for (auto* p : {&e.title, &e.url, &e.username, &e.password, &e.notes}) p->prot = false;
      for (auto& a : e.attachments) {
        if (a.pool >= 0) { a.inl = m.meta.binaries.at(size_t(a.pool)); a.pool = -1; }
        a.inl.prot = a.inl.compress = false;
        a.has = true;
      }
    }
  }
  return m;
}
std::string both(const model::Db& m) { return model::dump(project(m), kKdbDump); }

// Adds to a database what only KDBX can hold.
void decorate(Case& c, model::Db& m) {
  gen::Opt o;
  o.strict_xml = true;
  o.max_groups = 2;
  o.max_entries = 2;
  model::Db w = gen::db(c.t, o);
  m.meta = w.meta;
  m.iks = w.iks;
  m.master_seed = w.master_seed;
  m.compress = w.compress;
  std::vector<model::Group*> pre = model::preorder(m.root);
  for (auto* r : {&m.meta.recycle_bin, &m.meta.templates, &m.meta.last_selected, &m.meta.last_visible})
    if (r->kind == model::GRef::kTree) r->index = int(c.t.below(pre.size()));
  uint64_t us = c.t.below(0), n = 0;
  for (auto* g : pre) {
    g->uuid = gen::uuid_from(us, n++);
    if (c.t.chance(1, 2)) {
      g->notes = "notes " + std::to_string(n);
      g->expires = c.t.chance(1, 2);
      g->expanded = c.t.chance(1, 2);
      g->search = c.t.chance(1, 2);
      g->usage = gen::u32(c.t);
      g->times[4] = gen::time_kdbx(c.t);
      if (!m.meta.icons.empty()) g->custom_icon = int(c.t.below(m.meta.icons.size()));
      if (!g->entries.empty()) g->last_visible = int(c.t.below(g->entries.size()));
    }
    for (auto& e : g->entries) {
      for (auto* p : {&e.title, &e.url, &e.username, &e.password, &e.notes}) p->prot = c.t.chance(1, 3);
      for (auto& a : e.attachments) {
        a.inl.prot = c.t.chance(1, 3);
        if (c.t.chance(1, 2)) {
          model::Binary b = a.inl;
          if (!b.prot) b.compress = c.t.chance(1, 2);
          m.meta.binaries.push_back(b);
          a.pool = int(m.meta.binaries.size() - 1);
        }
      }
      if (c.t.chance(1, 2)) continue;
      model::Entry x = gen::entry(c.t, o, m.meta, us);
      e.custom_icon = x.custom_icon;
      e.override_url = x.override_url;
      e.tags = x.tags;
      e.bg = x.bg;
      e.fg = x.fg;
      e.expires = x.expires;
      e.usage = x.usage;
      e.at_enabled = x.at_enabled;
      e.at_obf = x.at_obf;
      e.at_seq = x.at_seq;
      e.assoc = x.assoc;
      e.custom = x.custom;
      e.history = x.history;
      e.times[4] = x.times[4];
    }
  }
}

model::Db common_db(Case& c, bool& crowd) {
  gen::Opt o;
  o.kdb = o.xml_text = true;
  o.tz = gen::tz(c.t);
  o.crowd = crowd = c.t.chance(1, 40);
  if (o.crowd) { o.max_groups = 3; o.max_entries = 3; }
  else if (c.t.chance(1, 20)) { o.max_groups = 30; o.max_entries = 20; o.big = 70000; }
  pbt::set_tz(o.tz);
  model::Db m = make_db(c, o);
  m.rounds %= 300;
  for (auto* g : model::preorder(m.root)) g->flags = 0;
  return m;
}
}  // namespace

static void chain(Case& c) {
  begin(c);
  bool crowd;
  model::Db m = common_db(c, crowd);
  std::string want = both(m);
  bool kdbx_first = c.t.chance(1, 2);
  gen::Cred cr = gen::cred(c.t);
  keepass::Key key = make_key(c, cr);
  pbt::SplitMix rng = c.t.sub();
  std::string p = c.dir + "/a";
  keepass::KdbFile kf;
  keepass::KdbxFile xf;
  std::string log = kdbx_first ? "KDBX" : "KDB";
  model::Db start = m;
  if (kdbx_first) decorate(c, start);
  // The first file comes from another program or from the library.
  std::shared_ptr<keepass::Database> cur;
  bool foreign = c.t.chance(1, 2);
  if (foreign) {
    bridge::write_file(p, kdbx_first ? ref::write_kdbx(start, comps(cr), ref::gen_kdbx_style(c.t), rng) : ref::write_kdb(start, comps(cr), ref::gen_kdb_style(c.t), rng));
    Imported i = kdbx_first ? import_kdbx(p, key, &xf) : import_kdb(p, key, &kf);
    PBT_REQUIRE(i.ok(), "import-failed", log << ": import of a valid file failed: " << i.str());
    cur = i.db;
  } else {
    cur = bridge::to_db(start, kdbx_first);
  }
  same(want, both(bridge::from_db(*cur)), "start", "database from a " + log + " file");
  bool to_kdb = kdbx_first;
  int steps = 1 + int(c.t.below(crowd ? 2 : 4));
  for (int s = 0; s < steps; ++s, to_kdb = !to_kdb) {
    log += to_kdb ? " -> KDB" : " -> KDBX";
    Outcome e = to_kdb ? export_kdb(p, *cur, key, &kf) : export_kdbx(p, *cur, key, &xf);
    c.eval();
    PBT_REQUIRE(e.ok(), "export-failed", log << ": export failed: " << e.str());
    model::Db seen;
    try {
      seen = to_kdb ? ref::read_kdb(bridge::read_file(p), comps(cr)).db : ref::read_kdbx(bridge::read_file(p), comps(cr)).db;
    } catch (const ref::Error& x) {
      pbt::fail("not-decodable", log + ": the converted file is not valid: " + x.what());
    }
    same(want, both(seen), to_kdb ? "to-kdb" : "to-kdbx", log + ": converted file read by the independent reader");
    Imported i = to_kdb ? import_kdb(p, key, &kf) : import_kdbx(p, key, &xf);
    PBT_REQUIRE(i.ok(), "import-failed", log << ": import failed: " << i.str());
    cur = i.db;
    same(want, both(bridge::from_db(*cur)), to_kdb ? "back-from-kdb" : "back-from-kdbx", log + ": converted file read back");
  }
  pbt::set_tz("UTC0");
  c.label(log);
  c.label(foreign ? "first file: foreign" : "first file: own");
  c.describe(log + ", " + model::shape(start));
  if (rich(m)) c.nontrivial(want + log);
}

// What a format cannot hold, or its readers would refuse: the export either
// fails or leaves a file that has everything.
static void limits(Case& c) {
  begin(c);
  bool crowd;
  model::Db m = common_db(c, crowd);
  m.cipher = 0;
  model::Db extra = m;
  gen::Opt o;
  o.kdb = o.xml_text = true;
  o.max_groups = 2;
  o.max_entries = 3;
  std::vector<model::Group*> pre = model::preorder(m.root);
  auto some_entry = [&]() -> model::Entry& {
    auto* g = pre[c.t.below(pre.size())];
    if (g->entries.empty()) g->entries.push_back(gen::entry(c.t, o, m.meta, 7));
    return g->entries[c.t.below(g->entries.size())];
  };
  size_t levels = 0;
  static const char* const names[] = {"entries of the root", "several attachments", "nested groups", "nested groups", "nested history", "many rounds",
                                      "times", "times", "NUL", "NUL"};
  int kind = int(c.t.below(10));
  bool kdb = kind < 3 || kind == 5 || kind == 6 || kind == 8;
  std::string what = std::string(names[kind]) + (kdb ? ", KDB" : ", KDBX");
  switch (kind) {
    case 0: {
      size_t n = 1 + c.t.below(3);
      for (size_t i = 0; i < n; ++i) m.root.entries.push_back(gen::entry(c.t, o, m.meta, 9 + i));
      break;
    }
    case 1: {
      model::Entry* e = &some_entry();
      size_t n = 2 + c.t.below(3);
      while (e->attachments.size() < n) {
        model::Attachment a;
        a.name = gen::ident(c.t);
        a.inl.data = c.t.bytes(c.t.below(40));
        a.inl.prot = a.inl.compress = false;
        // Attachments that have something in common are several all the same.
        if (!e->attachments.empty() && c.t.chance(1, 2)) {
          const model::Attachment& b = e->attachments.back();
          if (c.t.chance(1, 2)) a.inl = b.inl, a.pool = b.pool, a.has = b.has;
          if (c.t.chance(1, 2)) a.name = b.name;
        }
        if (c.t.chance(1, 8)) a.inl.data.clear();
        e->attachments.push_back(a);
      }
      break;
    }
    case 2: case 3: {
      static const std::vector<size_t> deep = {2, 100, 500, 985, 1500, 3000};
      size_t n = c.t.of(deep) + c.t.below(30);
      model::Group* g = pre[c.t.below(pre.size())];
      if (c.t.chance(1, 2)) {
        // Around what is the limit.
        g = &m.root;
        n = kdb ? 998 + c.t.below(5) : 986 + c.t.below(16);
      }
      for (size_t i = 0; i < n; ++i) {
        size_t at = g->groups.empty() ? 0 : c.t.below(g->groups.size() + 1);
        model::Group k;
        k.uuid = gen::uuid_from(77, i);
        k.name = std::to_string(i);
        g->groups.insert(g->groups.begin() + long(at), k);
        g = &g->groups[at];
      }
      g->entries.push_back(gen::entry(c.t, o, m.meta, 11));
      levels = n;
      what += ", " + std::to_string(n) + " levels";
      break;
    }
    case 4: {
      static const std::vector<size_t> deep = {2, 100, 480, 900};
      size_t n = c.t.chance(1, 2) ? 485 + c.t.below(18) : c.t.of(deep) + c.t.below(30);
      model::Entry* e = &some_entry();
      for (size_t i = 0; i < n; ++i) {
        model::Entry h = gen::entry(c.t, o, m.meta, 13);
        h.history.clear();
        e->history.push_back(h);
        e = &e->history.back();
      }
      levels = n;
      what += ", " + std::to_string(n) + " levels";
      break;
    }
    case 6: case 7: {
      int64_t v;
      switch (c.t.below(4)) {
        case 0: v = ref::civil_to_unix({kdb ? 100 + int64_t(c.t.below(1799)) : -int64_t(c.t.below(3000)), int(1 + c.t.below(12)), int(1 + c.t.below(28)), int(c.t.below(24)), int(c.t.below(60)), int(c.t.below(60))}); break;
        case 1: v = ref::civil_to_unix({kdb ? 4097 + int64_t(c.t.below(30000)) : 10000 + int64_t(c.t.below(30000)), int(1 + c.t.below(12)), int(1 + c.t.below(28)), int(c.t.below(24)), int(c.t.below(60)), int(c.t.below(60))}); break;
        case 2: v = c.t.chance(1, 2) ? INT64_MAX - int64_t(c.t.below(3)) : INT64_MIN + int64_t(c.t.below(3)); break;
        default: {
          int b = 36 + int(c.t.below(27));
          v = int64_t(1) << b;
          if (kdb && b < 37) v = int64_t(1) << 37;
          if (!kdb && b < 38) v = int64_t(1) << 38;
          if (c.t.chance(1, 2)) v = -v;
        }
      }
      int which = int(c.t.below(kdb ? 4 : 5));
      if (c.t.chance(1, 2)) some_entry().times[which] = v;
      else pre[c.t.below(pre.size())]->times[which] = v;
      if (pre[0]->times[which] == v && kdb) pre[0]->times[which] = 0, some_entry().times[which] = v;
      what += ", " + std::to_string(v);
      break;
    }
    case 8: case 9: {
      std::string v = gen::ident(c.t) + std::string(1 + c.t.below(2), '\0') + (c.t.chance(1, 2) ? gen::ident(c.t) : "");
      model::Entry& e = some_entry();
      model::Group* g = pre[c.t.below(pre.size())];
      std::string* at[] = {&e.title.v, &e.url.v, &e.username.v, &e.password.v, &e.notes.v};
      int n = int(c.t.below(kdb ? 6 : 7));
      if (n < 5) *at[n] = v;
      else if (n == 5 && pre.size() > 1) pre[1 + c.t.below(pre.size() - 1)]->name = v;
      else (kdb ? e.title.v : g->notes) = v;
      break;
    }
    default: m.rounds = (uint64_t(1) << (32 + c.t.below(30))) + c.t.below(3); break;
  }
  c.describe(what + ", " + model::shape(extra));
  c.label(names[kind] + std::string(kdb ? ", KDB" : ", KDBX"));
  auto text = [&](const model::Db& d) { return kdb ? both(d) : model::dump(d, kKdbxDump); };
  auto lib = bridge::to_db(m);
  if (!kdb) m.master_seed.resize(32, '\0');
  std::string want = text(m);
  c.nontrivial(want);
  gen::Cred cr = simple_cred();
  keepass::Key key = make_key(c, cr);
  if (kind == 1 && c.t.chance(1, 2)) {
    // The very same object, or none at all.
    bool none = c.t.chance(1, 3);
    std::vector<std::shared_ptr<keepass::Group>> todo = {lib->root()};
    for (size_t i = 0; i < todo.size(); ++i) {
      for (auto& g : todo[i]->Groups()) todo.push_back(g);
      for (auto& e : todo[i]->Entries()) {
        if (e->attachments().size() < 2) continue;
        auto b = none ? nullptr : e->attachments()[0]->binary();
        for (auto& a : e->attachments()) a->set_binary(b);
      }
    }
    what += none ? ", without data" : ", one object";
  }
  std::string p = c.dir + "/a";
  Outcome e = kdb ? export_kdb(p, *lib, key) : export_kdbx(p, *lib, key);
  c.eval();
  c.label(std::string(names[kind]) + (e.ok() ? ": stored" : ": refused"));
  if (!e.ok()) {
    PBT_REQUIRE(levels > 300 || !levels, "refused", what << ": the export failed: " << e.str());
    return;
  }
  Imported i = kdb ? import_kdb(p, key) : import_kdbx(p, key);
  PBT_REQUIRE(i.ok(), "exported-unreadable", what << ": the export succeeded but its file cannot be imported: " << i.str());
  same(want, text(bridge::from_db(*i.db)), "lost", what + ": the export succeeded but the file lacks something");
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C24";
  k.rule = "distinct databases with a group below the root and an entry, with the chain of formats they went through";
  k.assumptions = {"databases lie in what both formats can represent once history, custom fields, custom icons, metadata, protection marks and other KDBX-only features are set aside: at most one attachment per entry, entries below the root, texts of legal XML characters, unambiguous local times of 1901-4094"};
  k.subs = {{"chain", 2500, 90000, chain}, {"limits", 600, 12000, limits}};
  return pbt::run_check(k, argc, argv);
}
