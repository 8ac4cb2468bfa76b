// C09: importing arbitrary KDB input is safe.
#include <algorithm>

#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
void judge(Case& c, const Bytes& file, const Key& key, const std::string& what) {
  if (rounds_of(true, file) > 100000) { c.label("skipped:rounds"); return; }
  std::string p = c.dir + "/f";
  bridge::write_file(p, file);
  c.eval();
  Imported i = import_kdb(p, key);
  PBT_REQUIRE(i.kind != kUnknown, "not-std-exception", what << ": import threw something that is not a standard exception");
  c.label(i.ok() ? "result:imported" : std::string("result:") + kind_name(i.kind));
  if (!i.ok()) return;
  PBT_REQUIRE(i.db->root() != nullptr, "incomplete-database", what << ": imported database lacks its root");
  touch(*i.db);
  std::string q = c.dir + "/g";
  Outcome e = export_kdb(q, *i.db, key);
  PBT_REQUIRE(e.kind != kUnknown, "not-std-exception", what << ": export of the imported database threw something that is not a standard exception");
  c.label(e.ok() ? "re-export:ok" : "re-export:error");
  if (e.ok()) {
    Imported j = import_kdb(q, key);
    PBT_REQUIRE(j.kind != kUnknown, "not-std-exception", what << ": second import");
    if (j.ok()) touch(*j.db);
  }
}

Bytes le16(uint32_t v) { Bytes o; ref::put16(o, v); return o; }
Bytes le32(uint32_t v) { Bytes o; ref::put32(o, v); return o; }

gen::Opt small() { gen::Opt o; o.kdb = true; o.max_groups = 6; o.max_entries = 5; return o; }
model::Db small_db(Case& c) {
  pbt::set_tz("UTC0");
  model::Db db = gen::db(c.t, small());
  db.rounds %= 4;
  if (db.root.groups.empty() && !c.t.chance(1, 20)) {
    model::Group g;
    g.name = "g";
    g.entries.resize(1 + c.t.below(2));
    g.entries[0].title.v = "t";
    db.root.groups.push_back(g);
  }
  return db;
}

Bytes odd_time(Case& c) {
  switch (c.t.below(5)) {
    case 0: return c.t.bytes(5);
    case 1: return Bytes(5, c.t.chance(1, 2) ? '\0' : '\xff');
    case 2: return ref::kKdbNever;
    default: {
      static const std::vector<int> ys = {1970, 0, 1, 1899, 1900, 1901, 1969, 2038, 2999, 9999, 10000, 16383};
      ref::Civil t{};
      t.y = c.t.of(ys);
      t.mo = unsigned(c.t.below(16));
      t.d = unsigned(c.t.below(32));
      t.h = unsigned(c.t.below(32));
      t.mi = unsigned(c.t.below(64));
      t.s = unsigned(c.t.below(64));
      return ref::kdb_pack(t);
    }
  }
}
Bytes odd_data(Case& c) {
  static const std::vector<size_t> sizes = {0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 100, 1023, 1024, 1025, 5000};
  switch (c.t.pick({4, 3, 2, 2})) {
    case 0: return c.t.bytes(c.t.of(sizes));
    case 1: return odd_time(c);
    case 2: { Bytes s = gen::text(c.t, gen::Text::kAny, 0); if (c.t.chance(1, 2)) s += std::string(1, '\0'); return s; }
    default: { static const std::vector<uint32_t> v = {0, 1, 2, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu}; return c.t.chance(1, 2) ? le32(c.t.of(v)) : le16(c.t.of(v)); }
  }
}
std::vector<ref::KdbRecord*> every(ref::KdbRaw& r) {
  std::vector<ref::KdbRecord*> v;
  for (auto& g : r.groups) v.push_back(&g);
  for (auto& e : r.entries) v.push_back(&e);
  return v;
}

std::string mutate(Case& c, ref::KdbRaw& r) {
  std::vector<ref::KdbRecord*> all = every(r);
  if (all.empty()) {
    ref::KdbRecord n;
    n.fields.push_back({1, odd_data(c)});
    (c.t.chance(1, 2) ? r.groups : r.entries).push_back(n);
    return "new record";
  }
  size_t w = c.t.below(all.size());
  ref::KdbRecord& rec = *all[w];
  bool is_group = w < r.groups.size();
  std::string who = is_group ? "group" : "entry";
  switch (c.t.below(12)) {
    case 0: {  // drop a field
      if (rec.fields.empty()) return "";
      size_t k = c.t.below(rec.fields.size());
      std::string s = "drop field " + std::to_string(rec.fields[k].type) + " of " + who;
      rec.fields.erase(rec.fields.begin() + k);
      return s;
    }
    case 1: {
      if (rec.fields.empty()) return "";
      ref::KdbField f = c.t.of(rec.fields);
      rec.fields.insert(rec.fields.begin() + c.t.below(rec.fields.size() + 1), f);
      return "repeat field " + std::to_string(f.type) + " of " + who;
    }
    case 2: case 3: {
      if (rec.fields.empty()) return "";
      auto& f = rec.fields[c.t.below(rec.fields.size())];
      f.data = odd_data(c);
      return "data field " + std::to_string(f.type) + " of " + who + " := " + pbt::hex(f.data, 16);
    }
    case 4: {
      if (rec.fields.empty()) return "";
      auto& f = rec.fields[c.t.below(rec.fields.size())];
      uint32_t old = f.type;
      f.type = uint32_t(c.t.chance(1, 5) ? c.t.below(65536) : c.t.below(16));
      return "retype field " + std::to_string(old) + " of " + who + " to " + std::to_string(f.type);
    }
    case 5: {
      ref::KdbField f{uint32_t(c.t.chance(1, 5) ? c.t.below(65536) : c.t.below(16)), odd_data(c)};
      rec.fields.insert(rec.fields.begin() + c.t.below(rec.fields.size() + 1), f);
      return "insert field " + std::to_string(f.type) + " in " + who;
    }
    case 6: {  // times
      std::vector<ref::KdbField*> v;
      for (auto& f : rec.fields) if (f.data.size() == 5) v.push_back(&f);
      if (v.empty()) return "";
      auto* f = c.t.of(v);
      f->data = odd_time(c);
      return "time field " + std::to_string(f->type) + " of " + who + " := " + pbt::hex(f->data);
    }
    case 7: {  // tree shape
      if (r.groups.empty()) return "";
      auto& g = r.groups[c.t.below(r.groups.size())];
      static const std::vector<uint32_t> lv = {0, 1, 2, 3, 7, 100, 0x7fff, 0x8000, 0xfffe, 0xffff};
      uint32_t l = c.t.of(lv);
      for (auto& f : g.fields) if (f.type == 8) f.data = le16(l);
      if (c.t.chance(1, 4)) g.fields.push_back({8, le16(l)});
      return "level of a group := " + std::to_string(l);
    }
    case 8: {  // identifiers
      auto pick = [&](int ty) { uint32_t id = uint32_t(c.t.below(0)); auto& src = c.t.of(r.groups); if (c.t.chance(2, 3)) for (auto& f : src.fields) if (f.type == 1 && f.data.size() == 4) id = ref::get32(f.data, 0); (void)ty; return id; };
      if (r.groups.empty()) return "";
      uint32_t id = pick(0);
      for (auto& f : rec.fields) if (f.type == (is_group ? 1u : 2u)) f.data = le32(id);
      return "group id in " + who + " := " + std::to_string(id);
    }
    case 9: {
      auto& v = is_group ? r.groups : r.entries;
      size_t k = is_group ? w : w - r.groups.size();
      v.erase(v.begin() + k);
      return "drop " + who;
    }
    case 10: {
      auto& v = is_group ? r.groups : r.entries;
      ref::KdbRecord copy = rec;
      v.insert(v.begin() + c.t.below(v.size() + 1), copy);
      return "repeat " + who;
    }
    default: {  // moved among the kinds, or reordered
      auto& v = is_group ? r.groups : r.entries;
      auto& o = is_group ? r.entries : r.groups;
      size_t k = is_group ? w : w - r.groups.size();
      ref::KdbRecord copy = rec;
      v.erase(v.begin() + k);
      auto& to = c.t.chance(1, 2) ? o : v;
      to.insert(to.begin() + c.t.below(to.size() + 1), copy);
      return "move " + who;
    }
  }
}
}  // namespace

// Correct hash and encryption; arbitrarily altered records.
static void records(Case& c) {
  begin(c);
  model::Db db = small_db(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  ref::KdbStyle st = ref::gen_kdb_style(c.t);
  ref::KdbRaw r = ref::kdb_records(db, st, c.t.sub());
  std::string what;
  size_t n = 1 + c.t.pick({6, 3, 2, 1, 1});
  for (size_t i = 0; i < n; ++i) what += mutate(c, r) + "; ";
  r.num_groups = uint32_t(r.groups.size());
  r.num_entries = uint32_t(r.entries.size());
  static const std::vector<uint32_t> cnt = {0, 1, 2, 1000, 0x7fffffff, 0x80000000u, 0xffffffffu};
  if (c.t.chance(1, 8)) { r.num_groups = c.t.chance(1, 2) ? c.t.of(cnt) : r.num_groups + 1 - 2 * uint32_t(c.t.below(2)); what += "group count " + std::to_string(r.num_groups); }
  if (c.t.chance(1, 8)) { r.num_entries = c.t.chance(1, 2) ? c.t.of(cnt) : r.num_entries + 1 - 2 * uint32_t(c.t.below(2)); what += "entry count " + std::to_string(r.num_entries); }
  Bytes f = ref::seal_kdb(r, ref::kdb_content(r), comps(cr));
  c.describe("records: " + what);
  c.label("op:" + what.substr(0, what.find_first_of("0123456789;:")));
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Correct hash and encryption; content altered as bytes, so that field types,
// sizes and end markers go wrong as well.
static void content(Case& c) {
  begin(c);
  model::Db db = small_db(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  ref::KdbStyle st = ref::gen_kdb_style(c.t);
  ref::KdbRaw r = ref::kdb_records(db, st, c.t.sub());
  Bytes x = ref::kdb_content(r);
  std::string what;
  size_t n = 1 + c.t.pick({5, 3, 1, 1});
  // Offsets of the field headers.
  std::vector<size_t> heads;
  for (size_t p = 0; p + 6 <= x.size(); p += 6 + ref::get32(x, p + 2)) heads.push_back(p);
  for (size_t i = 0; i < n && !x.empty(); ++i) {
    size_t p = c.t.below(x.size());
    switch (c.t.below(8)) {
      case 0: x.resize(p); what += "cut; "; break;
      case 1: x[p] = char(c.t.below(256)); what += "set byte; "; break;
      case 2: x[p] ^= 1 << c.t.below(8); what += "flip; "; break;
      case 3: x.erase(p, 1 + c.t.below(20)); what += "erase; "; break;
      case 4: x.insert(p, c.t.bytes(1 + c.t.below(20))); what += "insert; "; break;
      case 5: case 6: {
        if (heads.empty()) break;
        size_t h = c.t.of(heads);
        if (h + 6 > x.size()) break;
        static const std::vector<uint32_t> v = {0, 1, 2, 3, 4, 5, 6, 16, 0x7fff, 0xffff, 0x10000, 0x1000000, 0x7fffffff, 0x80000000u, 0xfffffffau, 0xffffffffu};
        uint32_t z = c.t.of(v);
        x.replace(h + 2, 4, le32(z));
        what += "size " + std::to_string(z) + "; ";
        break;
      }
      default: {
        if (heads.empty()) break;
        size_t h = c.t.of(heads);
        if (h + 6 > x.size()) break;
        x.replace(h, 2, le16(c.t.chance(1, 2) ? 0xffff : uint32_t(c.t.below(20))));
        what += "type; ";
        break;
      }
    }
  }
  if (c.t.chance(1, 12)) { x = c.t.bytes(c.t.below(400)); what = "random content"; }
  Bytes f = ref::seal_kdb(r, x, comps(cr));
  c.describe("content: " + what);
  c.label("op:" + what.substr(0, what.find_first_of("0123456789;")));
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Header values, with content encrypted to fit.
static void header(Case& c) {
  begin(c);
  model::Db db = small_db(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  ref::KdbStyle st = ref::gen_kdb_style(c.t);
  ref::KdbRaw r = ref::kdb_records(db, st, c.t.sub());
  Bytes x = ref::kdb_content(r), hash;
  std::string what;
  switch (c.t.below(7)) {
    case 0: r.flags = uint32_t(c.t.chance(2, 3) ? c.t.below(32) : c.t.below(0)); what = "flags " + std::to_string(r.flags); break;
    case 1: { static const std::vector<uint32_t> v = {0, 0x00010000, 0x00010002, 0x00020000, 0x000200ff, 0x00030000, 0x000300ff, 0x00030100, 0x00040000, 0xffffffffu}; r.version = c.t.of(v); what = "version " + std::to_string(r.version); break; }
    case 2: (c.t.chance(1, 2) ? r.sig0 : r.sig1) ^= 1u << c.t.below(32); what = "signature"; break;
    case 3: r.num_groups = uint32_t(c.t.below(c.t.chance(1, 2) ? 20 : 0)); what = "groups " + std::to_string(r.num_groups); break;
    case 4: r.num_entries = uint32_t(c.t.below(c.t.chance(1, 2) ? 20 : 0)); what = "entries " + std::to_string(r.num_entries); break;
    case 5: hash = c.t.bytes(32); what = "hash"; break;
    default: r.cipher ^= 1; what = "cipher other than flagged"; break;
  }
  Bytes f = hash.empty() ? ref::seal_kdb(r, x, comps(cr)) : ref::seal_kdb_hash(r, x, hash, comps(cr));
  if (c.t.chance(1, 5)) { f.resize(c.t.below(f.size() + 1)); what += ", cut to " + std::to_string(f.size()); }
  else if (c.t.chance(1, 8)) { f += c.t.bytes(1 + c.t.below(40)); what += ", extended"; }
  c.describe("header: " + what);
  c.label("op:" + what.substr(0, what.find_first_of(" ,")));
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Whole files as bytes.
static void bytes(Case& c) {
  begin(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  Bytes f;
  std::string what;
  if (c.t.chance(1, 3)) {
    f = c.t.bytes(c.t.below(400));
    what = std::to_string(f.size()) + " random bytes";
    if (c.t.chance(3, 4)) {
      Bytes s = le32(0x9aa2d903) + le32(0xb54bfb65) + le32(uint32_t(c.t.below(16))) + le32(0x00030002);
      f = s + f;
      if (f.size() >= 124) f.replace(120, 4, le32(uint32_t(c.t.below(100))));
      what += " after a signature";
    }
  } else {
    model::Db db = small_db(c);
    f = ref::write_kdb(db, comps(cr), ref::gen_kdb_style(c.t), c.t.sub());
    size_t n = 1 + c.t.below(6);
    for (size_t i = 0; i < n && !f.empty(); ++i) {
      size_t p = c.t.below(c.t.chance(2, 3) ? std::min<size_t>(f.size(), 140) : f.size());
      switch (c.t.below(5)) {
        case 0: f[p] = char(c.t.below(256)); break;
        case 1: f[p] ^= 1 << c.t.below(8); break;
        case 2: f.erase(p, 1 + c.t.below(20)); break;
        case 3: f.insert(p, c.t.bytes(1 + c.t.below(20))); break;
        default: f.resize(p); break;
      }
    }
    what = "file with " + std::to_string(n) + " byte edits";
  }
  c.describe("bytes: " + what);
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Group trees as deep as the level field allows.
static void nesting(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  model::Db db;
  db.master_seed = Bytes(16, 's');
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  static const std::vector<size_t> depths = {3, 50, 300, 900, 1100, 5000, 20000, 65400};
  size_t n = c.t.of(depths) + c.t.below(100);
  ref::KdbStyle st;
  ref::KdbRaw r = ref::kdb_records(db, st, c.t.sub());
  for (size_t i = 0; i < n; ++i) {
    ref::KdbRecord g;
    g.fields = {{1, le32(uint32_t(i))}, {8, le16(uint32_t(i))}};
    r.groups.push_back(g);
  }
  if (c.t.chance(1, 2)) r.entries.push_back({{{1, Bytes(16, 'e')}, {2, le32(uint32_t(n - 1))}}});
  r.num_groups = uint32_t(r.groups.size());
  r.num_entries = uint32_t(r.entries.size());
  Bytes f = ref::seal_kdb(r, ref::kdb_content(r), comps(cr));
  std::string what = std::to_string(n) + " nested groups";
  c.describe("nesting: " + what);
  c.nontrivial(f);
  judge(c, f, key, what);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C09";
  k.rule = "distinct files handed to the importer that are not valid files of an unchanged database";
  k.assumptions = {"files asking for more than 100000 key-transformation rounds are not run", "memory errors are those AddressSanitizer, libstdc++ assertions and UBSan's bounds, null, enum and bool checks report"};
  k.subs = {{"records", 25000, 900000, records}, {"content", 20000, 600000, content}, {"header", 6000, 100000, header}, {"bytes", 15000, 400000, bytes}, {"nesting", 60, 600, nesting}};
  return pbt::run_check(k, argc, argv);
}
