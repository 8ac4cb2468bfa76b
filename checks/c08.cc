// C08: importing arbitrary KDBX input is safe.
#include <algorithm>

#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
// Import must throw a standard exception or give a usable database.
void judge(Case& c, const Bytes& file, const Key& key, const std::string& what) {
  if (rounds_of(false, file) > 100000) { c.label("skipped:rounds"); return; }
  std::string p = c.dir + "/f";
  bridge::write_file(p, file);
  c.eval();
  Imported i = import_kdbx(p, key);
  PBT_REQUIRE(i.kind != kUnknown, "not-std-exception", what << ": import threw something that is not a standard exception");
  c.label(i.ok() ? "result:imported" : std::string("result:") + kind_name(i.kind));
  if (!i.ok()) return;
  PBT_REQUIRE(i.db->root() && i.db->meta(), "incomplete-database", what << ": imported database lacks its root or its meta data");
  touch(*i.db);
  std::string q = c.dir + "/g";
  Outcome e = export_kdbx(q, *i.db, key);
  PBT_REQUIRE(e.kind != kUnknown, "not-std-exception", what << ": export of the imported database threw something that is not a standard exception");
  c.label(e.ok() ? "re-export:ok" : "re-export:error");
  if (e.ok()) {
    Imported j = import_kdbx(q, key);
    PBT_REQUIRE(j.kind != kUnknown, "not-std-exception", what << ": second import");
    if (j.ok()) touch(*j.db);
  }
}

// --- mutations of the document ---------------------------------------------
struct Ref { ref::Node* parent; size_t index; ref::Node& node() const { return parent->kids[index]; } };
void collect(ref::Node& n, std::vector<Ref>& out) {
  for (size_t i = 0; i < n.kids.size(); ++i) { out.push_back({&n, i}); collect(n.kids[i], out); }
}
bool within(const ref::Node& a, const ref::Node* b) {
  if (&a == b) return true;
  for (auto& k : a.kids) if (within(k, b)) return true;
  return false;
}
size_t weight(const ref::Node& n) { size_t w = 1 + n.text.size() / 64; for (auto& k : n.kids) w += weight(k); return w; }

const std::vector<std::string>& names() {
  static const std::vector<std::string> v = {"KeePassFile", "Meta", "Root", "Group", "Entry", "String", "Key", "Value", "Binary", "Binaries", "History", "Times", "UUID", "IconID",
    "CustomIconUUID", "CustomIcons", "Icon", "ID", "Data", "AutoType", "Association", "Window", "KeystrokeSequence", "MemoryProtection", "CustomData", "Item",
    "RecycleBinUUID", "EntryTemplatesGroup", "LastSelectedGroup", "LastTopVisibleGroup", "LastTopVisibleEntry", "HeaderHash", "Expires", "ExpiryTime", "CreationTime",
    "Name", "Notes", "DeletedObjects", "Enabled", "IsExpanded", "EnableSearching", "EnableAutoType", "UsageCount", "Unknown"};
  return v;
}
std::string odd_text(Case& c) {
  static const std::vector<std::string> v = {"", " ", "0", "1", "-1", "x", "True", "False", "null", "4294967295", "4294967296", "-2147483649", "99999999999999999999", "1e9", "0x10", "=", "====", "A", "AA==", "A===",
    "AAAA", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAA", "!!!!", "2014-06-05T21:17:24Z", "2014-13-40T99:99:99Z", "0000-00-00T00:00:00Z",
    "99999-01-01T00:00:00Z", "-0001-01-01T00:00:00Z", "2014-06-05", "T", "2014-06-05T21:17:24", "2014-06-05T21:17:24+99:99", "Title", "Password", "UserName", "URL", "Notes", "\xff\xfe", "\x01\x02", "%s%n%s", "#GGGGGG"};
  switch (c.t.pick({6, 2, 2, 1})) {
    case 0: return c.t.of(v);
    case 1: return ref::b64(c.t.bytes(c.t.below(70)));
    case 2: return gen::text(c.t, gen::Text::kXml, 0);
    default: return std::string(c.t.below(5000), "A9=\n "[c.t.below(5)]);
  }
}

std::string mutate_doc(Case& c, ref::Node& doc) {
  std::vector<Ref> all;
  collect(doc, all);
  if (all.empty()) return "";
  Ref r = c.t.of(all);
  std::string nm = r.node().name;
  switch (c.t.below(13)) {
    case 0: r.parent->kids.erase(r.parent->kids.begin() + r.index); return "delete " + nm;
    case 1: {
      if (weight(doc) > 4000) return "";
      ref::Node n = r.node();
      size_t times = 1 + c.t.below(2);
      for (size_t i = 0; i < times; ++i) r.parent->kids.insert(r.parent->kids.begin() + c.t.below(r.parent->kids.size() + 1), n);
      return "repeat " + nm;
    }
    case 2: {  // copy elsewhere
      if (weight(doc) > 4000) return "";
      Ref t = c.t.of(all);
      ref::Node n = r.node();
      std::string tn = t.node().name;
      t.node().text.clear();
      t.node().kids.insert(t.node().kids.begin() + c.t.below(t.node().kids.size() + 1), n);
      return "copy " + nm + " into " + tn;
    }
    case 3: {  // move elsewhere
      Ref t = c.t.of(all);
      if (within(r.node(), &t.node())) return "";
      ref::Node n = r.node();
      std::string tn = t.node().name;
      r.node().name.clear();  // marks the original for removal
      t.node().text.clear();
      t.node().kids.push_back(n);
      std::function<void(ref::Node&)> sweep = [&](ref::Node& x) {
        x.kids.erase(std::remove_if(x.kids.begin(), x.kids.end(), [](const ref::Node& k) { return k.name.empty(); }), x.kids.end());
        for (auto& k : x.kids) sweep(k);
      };
      sweep(doc);
      return "move " + nm + " into " + tn;
    }
    case 4: { std::string to = c.t.of(names()); r.node().name = to; return "rename " + nm + " to " + to; }
    case 5: case 6: case 7: {
      std::string t = odd_text(c);
      if (c.t.chance(1, 8)) { r.node().text = t; }
      else { r.node().kids.clear(); r.node().text = t; }
      r.node().prot = c.t.chance(1, 6);
      return "text of " + nm + " := " + pbt::quote(t, 30);
    }
    case 8: { Ref t = c.t.of(all); if (&t.node() == &r.node()) return ""; std::swap(t.node().text, r.node().text); return "exchange texts of " + nm + " and " + t.node().name; }
    case 9: {
      std::string& t = r.node().text;
      if (t.empty()) return "";
      size_t p = c.t.below(t.size());
      if (c.t.chance(1, 2)) t.erase(p, 1 + c.t.below(4)); else t[p] = char(32 + c.t.below(95));
      return "edit text of " + nm;
    }
    case 10: {
      static const std::vector<std::string> an = {"ID", "Ref", "Protected", "Compressed", "Name", "ProtectedInMemory"};
      static const std::vector<std::string> av = {"True", "False", "true", "", "0", "1", "7", "-1", "99999999999", "x"};
      std::string a = c.t.of(an), v = c.t.of(av);
      auto& as = r.node().attrs;
      for (size_t i = 0; i < as.size(); ++i) if (as[i].first == a) { as.erase(as.begin() + i); break; }
      as.push_back({a, v});
      return "attribute " + a + "=" + v + " on " + nm;
    }
    case 11: {
      auto& as = r.node().attrs;
      if (as.empty()) return "";
      as.erase(as.begin() + c.t.below(as.size()));
      return "drop attribute of " + nm;
    }
    default: {
      static const std::vector<std::string> v = {"Group", "Entry", "String", "Binary", "History", "AutoType", "Icon", "Item", "Association", "Meta", "Root"};
      std::string n = c.t.of(v);
      ref::Node k(n);
      if (c.t.chance(1, 3)) { k.add("Key", "x"); k.add("Value", odd_text(c)); }
      r.node().kids.insert(r.node().kids.begin() + c.t.below(r.node().kids.size() + 1), k);
      r.node().text.clear();
      return "insert bare " + n + " in " + nm;
    }
  }
}

gen::Opt small() { gen::Opt o; o.max_groups = 5; o.max_entries = 4; o.strict_xml = true; return o; }
model::Db small_db(Case& c) { model::Db db = gen::db(c.t, small()); db.rounds %= 4; return db; }
}  // namespace

// Valid encryption, hashes and XML syntax; arbitrarily altered document.
static void document(Case& c) {
  begin(c);
  model::Db db = small_db(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  ref::KdbxStyle st = c.t.chance(1, 2) ? ref::plain_kdbx_style() : ref::gen_kdbx_style(c.t);
  if (c.t.chance(1, 2)) db.compress = false;
  pbt::SplitMix rng = c.t.sub();
  std::string what;
  Bytes f = ref::write_kdbx(db, comps(cr), st, rng, [&](ref::Node& doc) {
    size_t n = 1 + c.t.pick({6, 3, 2, 1, 1, 1});
    for (size_t i = 0; i < n; ++i) what += mutate_doc(c, doc) + "; ";
  });
  c.describe("document: " + what);
  c.label("op:" + what.substr(0, what.find(' ')));
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Valid encryption and hashes; XML text damaged as bytes.
static void xml_text(Case& c) {
  begin(c);
  model::Db db = small_db(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  pbt::SplitMix rng = c.t.sub();
  std::string what;
  static const std::vector<std::string> snip = {"<", ">", "</", "/>", "<![CDATA[", "]]>", "<!--", "-->", "<?", "?>", "&", "&#", "&#x110000;", "&#0;", "&amp", "&lt;", "\"", "'", "=", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "<!DOCTYPE", "\xef\xbb\xbf",
    "\xff\xfe", "\xfe\xff", std::string(1, '\0'), "<Group>", "</Group>", "<Entry>", "</Entry>", "<KeePassFile>", "</KeePassFile>"};
  Bytes f = ref::write_kdbx(db, comps(cr), ref::plain_kdbx_style(), rng, nullptr, [&](Bytes& x) {
    size_t n = 1 + c.t.pick({5, 3, 1, 1});
    for (size_t i = 0; i < n && !x.empty(); ++i) {
      size_t p = c.t.below(x.size());
      switch (c.t.below(7)) {
        case 0: x.resize(p); what += "cut; "; break;
        case 1: { const std::string& s = c.t.of(snip); x.insert(p, s); what += "insert " + pbt::quote(s, 12) + "; "; break; }
        case 2: x.erase(p, 1 + c.t.below(30)); what += "erase; "; break;
        case 3: x[p] = char(c.t.below(256)); what += "set byte; "; break;
        case 4: { size_t n2 = c.t.below(200); x.insert(p, x.substr(c.t.below(x.size()), n2)); what += "repeat; "; break; }
        case 5: {  // UTF-16/32 re-encodings of ASCII, possibly broken
          std::string o = c.t.chance(1, 2) ? "\xff\xfe" : "";
          size_t w = c.t.chance(1, 2) ? 2 : 4;
          for (char ch : x) { o += ch; o += std::string(w - 1, '\0'); }
          o.resize(o.size() - c.t.below(4));
          x = o;
          what += "wide; ";
          break;
        }
        default: x = c.t.bytes(c.t.below(300)); what += "random bytes; "; break;
      }
    }
  });
  c.describe("xml text: " + what);
  c.label("op:" + what.substr(0, what.find(';')));
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Header fields missing, repeated, of odd sizes and values, with the content
// encrypted to fit wherever that is possible.
static void header(Case& c) {
  begin(c);
  model::Db db = small_db(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  pbt::SplitMix rng = c.t.sub();
  ref::KdbxStyle st = ref::plain_kdbx_style();
  ref::RawKdbx r = ref::raw_header(db, st, rng);
  static const std::vector<size_t> sizes = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 255, 256, 1000, 4096, 16383, 16384, 65535};
  std::string what;
  size_t n = 1 + c.t.pick({4, 3, 1});
  for (size_t i = 0; i < n && !r.fields.empty(); ++i) {
    size_t k = c.t.below(r.fields.size());
    ref::HeaderField& f = r.fields[k];
    std::string id = std::to_string(f.id);
    switch (c.t.below(8)) {
      case 0: what += "drop field " + id + "; "; r.fields.erase(r.fields.begin() + k); break;
      case 1: { ref::HeaderField d = f; r.fields.insert(r.fields.begin() + c.t.below(r.fields.size() + 1), d); what += "repeat field " + id + "; "; break; }
      case 2: case 3: f.data = c.t.bytes(c.t.of(sizes)); if (f.id == 6 && f.data.size() >= 8) for (int j = 2; j < 8; ++j) f.data[j] = 0; what += "field " + id + " of " + std::to_string(f.data.size()) + " bytes; "; break;
      case 4: if (!f.data.empty()) f.data[c.t.below(f.data.size())] ^= 1 << c.t.below(8); what += "flip in field " + id + "; "; break;
      case 5: f.id = int(c.t.below(c.t.chance(1, 4) ? 256 : 13)); what += "field " + id + " -> " + std::to_string(f.id) + "; "; break;
      case 6: { ref::HeaderField nf{int(c.t.below(256)), c.t.bytes(c.t.of(sizes))}; r.fields.insert(r.fields.begin() + c.t.below(r.fields.size() + 1), nf); what += "new field " + std::to_string(nf.id) + "; "; break; }
      default: r.version = uint32_t(c.t.below(0)); if (c.t.chance(1, 2)) r.version = 0x00020000 + c.t.below(0x30000); what += "version; "; break;
    }
  }
  for (auto& f : r.fields) {
    if (f.id == 4) r.master_seed = f.data;
    if (f.id == 5 && f.data.size() == 32) r.tseed = f.data;
    if (f.id == 6 && f.data.size() == 8) r.rounds = std::min<uint64_t>(ref::get64(f.data, 0), 200000);
    if (f.id == 7 && f.data.size() == 16) r.iv = f.data;
    if (f.id == 8 && f.data.size() == 32) r.iks = f.data;
    if (f.id == 9) r.start_bytes = f.data;
    if (f.id == 3 && f.data.size() == 4) r.compress = ref::get32(f.data, 0) == 1;
  }
  if (r.rounds > 100000) r.rounds = 1;
  ref::Node doc = ref::kdbx_doc(db, st, rng);
  std::string hh = ref::b64(ref::sha256(ref::header_bytes(r)));
  for (auto& m : doc.kids) if (m.name == "Meta") for (auto& k : m.kids) if (k.name == "HeaderHash") k.text = hh;
  ref::obfuscate(doc, r.iks);
  Bytes xml = ref::write_xml(doc, st.xml, rng);
  Bytes inner = r.compress ? ref::gzip(xml) : xml;
  Bytes f = ref::seal_kdbx(r, ref::hash_blocks(inner, {}), comps(cr));
  if (c.t.chance(1, 10)) { f.resize(c.t.below(std::min<size_t>(f.size(), 400))); what += "cut; "; }
  c.describe("header: " + what);
  c.label("op:" + what.substr(0, what.find_first_of("0123456789;")));
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Block framing and compression replaced or damaged below the encryption.
static void framing(Case& c) {
  begin(c);
  model::Db db = small_db(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  pbt::SplitMix rng = c.t.sub();
  ref::KdbxStyle st = ref::plain_kdbx_style();
  ref::RawKdbx r = ref::raw_header(db, st, rng);
  ref::Node doc = ref::kdbx_doc(db, st, rng);
  ref::obfuscate(doc, r.iks);
  Bytes xml = ref::write_xml(doc, st.xml, rng);
  Bytes inner = r.compress ? ref::gzip(xml) : xml, framed;
  std::string what;
  switch (c.t.below(8)) {
    case 0: framed = c.t.bytes(c.t.below(300)); what = "random payload"; break;
    case 1: framed = ref::hash_blocks(c.t.bytes(c.t.below(3000)), {1 + c.t.below(400)}); what = "random content in valid blocks"; break;
    case 2: framed = ref::hash_blocks("", {}); what = "no content"; break;
    case 3: {
      if (inner.size()) inner[c.t.below(inner.size())] ^= 1 << c.t.below(8);
      framed = ref::hash_blocks(inner, {1 + c.t.below(2000)});
      what = "content bit in valid blocks";
      break;
    }
    case 4: {
      framed = ref::hash_blocks(inner, {1 + c.t.below(2000)});
      size_t at = 36 + (c.t.chance(1, 2) ? 0 : c.t.below(framed.size() - 40));
      Bytes v;
      static const std::vector<uint32_t> sz = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x00100000, 0x01000000};
      ref::put32(v, c.t.of(sz));
      framed.replace(at, 4, v);
      what = "block size " + std::to_string(ref::get32(v, 0));
      break;
    }
    case 5: framed = inner; what = "content without blocks"; break;
    case 6: {
      inner = ref::gzip(r.compress ? inner : xml, int(c.t.below(10)));
      if (c.t.chance(1, 2)) inner += inner;
      framed = ref::hash_blocks(inner, {});
      what = "compressed once more";
      break;
    }
    default: {
      framed = ref::hash_blocks(inner, {1 + c.t.below(2000)});
      framed.resize(c.t.below(framed.size()));
      what = "blocks cut";
      break;
    }
  }
  if (c.t.chance(1, 6)) r.start_bytes.resize(c.t.below(32));
  c.describe("framing: " + what);
  c.label("op:" + what.substr(0, what.find_first_of("0123456789")));
  Bytes f = ref::seal_kdbx(r, framed, comps(cr));
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Whole files as bytes.
static void bytes(Case& c) {
  begin(c);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  Bytes f;
  std::string what;
  if (c.t.chance(1, 3)) {
    f = c.t.bytes(c.t.below(400));
    what = std::to_string(f.size()) + " random bytes";
    if (c.t.chance(3, 4)) {
      Bytes sig;
      ref::put32(sig, 0x9aa2d903);
      ref::put32(sig, c.t.chance(7, 8) ? 0xb54bfb67 : 0xb54bfb66);
      ref::put32(sig, c.t.chance(7, 8) ? 0x00030001 : uint32_t(c.t.below(0)));
      f = sig + f;
      what += " after a signature";
    }
  } else {
    model::Db db = small_db(c);
    pbt::SplitMix rng = c.t.sub();
    f = ref::write_kdbx(db, comps(cr), ref::plain_kdbx_style(), rng);
    size_t n = 1 + c.t.below(6);
    for (size_t i = 0; i < n && !f.empty(); ++i) {
      size_t p = c.t.below(c.t.chance(2, 3) ? std::min<size_t>(f.size(), 260) : f.size());
      switch (c.t.below(5)) {
        case 0: f[p] = char(c.t.below(256)); break;
        case 1: f[p] ^= 1 << c.t.below(8); break;
        case 2: f.erase(p, 1 + c.t.below(20)); break;
        case 3: f.insert(p, c.t.bytes(1 + c.t.below(20))); break;
        default: f.resize(p); break;
      }
    }
    what = "file with " + std::to_string(n) + " byte edits";
  }
  c.describe("bytes: " + what);
  c.nontrivial(f);
  judge(c, f, key, what);
}

// Nesting far beyond anything a program would write.
static void nesting(Case& c) {
  begin(c);
  model::Db db;
  db.master_seed = Bytes(32, 's');
  db.root.uuid = gen::uuid_from(1, 1);
  db.compress = c.t.chance(1, 2);
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  pbt::SplitMix rng = c.t.sub();
  static const std::vector<size_t> depths = {3, 50, 300, 900, 1100, 5000, 20000, 60000};
  size_t n = c.t.of(depths) + c.t.below(100), kind = c.t.below(4);
  static const char* open[] = {"<Group><Name>g</Name>", "<Entry><History>", "<X>", "<Group><Entry><History>"};
  static const char* close[] = {"</Group>", "</History></Entry>", "</X>", "</History></Entry></Group>"};
  std::string in, out;
  for (size_t i = 0; i < n; ++i) { in += open[kind]; out += close[kind]; }
  Bytes f = ref::write_kdbx(db, comps(cr), ref::plain_kdbx_style(), rng, nullptr, [&](Bytes& x) {
    size_t p = x.rfind("</Group>");
    if (p != Bytes::npos) x.insert(p, in + out);
  });
  std::string what = std::to_string(n) + " nested " + open[kind];
  c.describe("nesting: " + what);
  c.label(std::string("nest:") + open[kind]);
  c.nontrivial(f);
  judge(c, f, key, what);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C08";
  k.rule = "distinct files handed to the importer that are not valid files of an unchanged database";
  k.assumptions = {"files asking for more than 100000 key-transformation rounds are not run", "memory errors are those AddressSanitizer, libstdc++ assertions and UBSan's bounds, null, enum and bool checks report"};
  k.subs = {{"document", 9000, 400000, document}, {"xml-text", 4000, 150000, xml_text}, {"header", 4000, 150000, header}, {"framing", 3000, 100000, framing}, {"bytes", 5000, 200000, bytes}, {"nesting", 60, 600, nesting}};
  return pbt::run_check(k, argc, argv);
}
