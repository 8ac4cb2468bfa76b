// C11: protected values are stored only in obfuscated form.
#include <algorithm>
#include <map>

#include "common.hh"
#include "random.hh"
using namespace harness;

namespace {
// Renders the protected tokens unique so that finding one in the document
// means that it leaked.
struct Tokens {
  Case& c;
  size_t n = 0;
  std::vector<Bytes> prot, plain;
  uint64_t seed;
  explicit Tokens(Case& cc) : c(cc), seed(cc.t.below(0)) {}
  // Random whatever the tape holds, so that no two tokens share a piece.
  Bytes noise(size_t len) {
    pbt::SplitMix r(pbt::mix(seed, 1000 + n));
    Bytes s;
    while (s.size() < len) s += char(r.next() >> 24);
    return s;
  }
  Bytes random_text(const char* pre, size_t extra) {
    Bytes s = pre + std::to_string(n++) + "-";
    Bytes r = noise(8 + c.t.below(extra));
    for (unsigned char b : r) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"[b % 64];
    return s;
  }
  Bytes secret() {
    Bytes s;
    switch (c.t.pick({4, 2, 2, 1})) {
      case 0: s = random_text("secret-", 60); break;
      case 1: s = "\x01\x02" + std::to_string(n++) + "&<>" + noise(12 + c.t.below(150)); break;
      case 2: s = random_text("&<secret>\"", 10) + " \xc3\xa9\xe2\x82\xac"; break;
      default: s = random_text("L-", 60); s += noise(1000 + c.t.below(3000)); break;
    }
    prot.push_back(s);
    return s;
  }
};

std::string xml_escape(const std::string& s) {
  std::string o;
  for (char ch : s) switch (ch) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; default: o += ch; }
  return o;
}
size_t count_attr(const ref::Node& n, std::vector<std::string>& where, const std::string& path = "") {
  size_t k = 0;
  std::string here = path + "/" + n.name;
  if (const std::string* v = n.attr("Protected")) {
    std::string l = *v;
    for (auto& ch : l) ch = char(tolower(ch));
    if (l != "false") { ++k; where.push_back(here); }
  }
  for (auto& x : n.kids) k += count_attr(x, where, here);
  return k;
}
}  // namespace

static void exported(Case& c) {
  begin(c);
  gen::Opt o;
  o.strict_xml = true;
  if (c.t.chance(1, 30)) { o.max_groups = 30; o.max_entries = 20; }
  o.crowd = c.t.chance(1, 40);
  model::Db db = make_db(c, o);
  Tokens tk(c);
  model::map_plain(db, [&](std::string& s) { if (!s.empty()) { s = tk.random_text("plain-", 30); tk.plain.push_back(s); } });
  std::vector<std::pair<std::string, Bytes>> expect;  // kind, plaintext
  // Every kind of value is protected with fair probability.
  unsigned density = unsigned(c.t.below(5));
  auto flip = [&](model::PStr& p) {
    if (density && c.t.below(6) < density) p.prot = true;
    if (p.prot) { if (!p.v.empty() || c.t.chance(3, 4)) p.v = tk.secret(); }
  };
  std::function<void(model::Entry&)> ent = [&](model::Entry& e) {
    for (auto* p : {&e.title, &e.url, &e.username, &e.password, &e.notes}) { flip(*p); if (p->prot) expect.push_back({"Value", p->v}); }
    for (auto& p : e.custom) { flip(p.second); if (p.second.prot) expect.push_back({"Value", p.second.v}); }
    for (auto& a : e.attachments) if (a.pool < 0 && a.has) {
      if (density && c.t.chance(1, 2)) { a.inl.prot = true; a.inl.compress = false; }
      if (a.inl.prot) { a.inl.data = tk.secret(); expect.push_back({"Value", a.inl.data}); }
    }
    for (auto& h : e.history) ent(h);
  };
  for (auto* g : model::preorder(db.root)) for (auto& e : g->entries) ent(e);
  for (auto& b : db.meta.binaries) {
    if (density && c.t.chance(1, 2)) { b.prot = true; b.compress = false; }
    if (b.prot) { b.data = tk.secret(); expect.push_back({"Binary", b.data}); }
  }
  gen::Cred cr = gen::cred(c.t);
  keepass::Key key = make_key(c, cr);
  c.describe(model::shape(db) + ", " + std::to_string(expect.size()) + " protected values");
  if (expect.size() > 1) c.nontrivial(model::dump(db));
  c.label(expect.empty() ? "protected:none" : expect.size() < 5 ? "protected:1-4" : expect.size() < 50 ? "protected:5-49" : "protected:50+");

  auto lib = bridge::to_db(db);
  ask_compression(c, *lib);
  std::string p = c.dir + "/a";
  Outcome e = export_kdbx(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
  Bytes raw = bridge::read_file(p);
  ref::KdbxInfo info;
  try {
    info = ref::read_kdbx(raw, comps(cr));
  } catch (const ref::Error& x) {
    pbt::fail("not-decodable", std::string("independent reader cannot decode the exported file: ") + x.what());
  }
  // Values decoded with the continuing keystream, in document order.
  std::vector<std::pair<std::string, Bytes>> got;
  size_t offset = 0;
  for (auto& it : info.prot) {
    std::string kind = it.path.substr(it.path.rfind('/') + 1);
    got.push_back({kind, it.plain});
    Bytes enc = ref::unb64(it.encoded);
    PBT_REQUIRE(enc.size() == it.plain.size(), "size", "protected " << it.path << " has another size than its value");
    PBT_REQUIRE(it.offset == offset, "offset", "keystream offset");
    offset += enc.size();
  }
  auto sorted = [](std::vector<std::pair<std::string, Bytes>> v) { std::sort(v.begin(), v.end()); return v; };
  auto a = sorted(expect), b = sorted(got);
  if (a != b) {
    for (auto& x : a) PBT_REQUIRE(std::count(b.begin(), b.end(), x) == std::count(a.begin(), a.end(), x), "protected-value", "protected value " << pbt::quote(x.second, 40) << " (" << x.first << ") is expected " << std::count(a.begin(), a.end(), x) << " times under the keystream in document order but found " << std::count(b.begin(), b.end(), x) << " times");
    pbt::fail("protected-extra", std::to_string(b.size()) + " values carry the protected mark, " + std::to_string(a.size()) + " are protected");
  }
  std::vector<std::string> where;
  size_t marks = count_attr(info.doc, where);
  PBT_REQUIRE(marks == expect.size(), "marks", marks << " elements carry the protected mark, " << expect.size() << " values are protected");
  // No protected plaintext anywhere in the document.
  for (auto& s : tk.prot) {
    for (auto& form : {s, xml_escape(s), ref::b64(s)})
      PBT_REQUIRE(info.xml.find(form) == Bytes::npos, "plaintext-in-xml", "the protected value " << pbt::quote(s, 40) << " appears in the document");
    // nor a piece of it
    if (s.size() >= 24) PBT_REQUIRE(info.xml.find(s.substr(s.size() / 2, 12)) == Bytes::npos, "plaintext-in-xml", "a piece of the protected value " << pbt::quote(s, 40) << " appears in the document");
    PBT_REQUIRE(raw.find(s) == Bytes::npos, "text-in-file", "the protected value " << pbt::quote(s, 40) << " appears in the file");
  }
  for (auto& s : tk.plain) PBT_REQUIRE(raw.find(s) == Bytes::npos, "text-in-file", "the text " << pbt::quote(s, 40) << " appears in the file");
  // nor the keys that hide them
  PBT_REQUIRE(info.xml.find(ref::b64(db.iks)) == Bytes::npos, "key-in-xml", "the inner key appears in the document");
  c.eval(tk.prot.size() + tk.plain.size());

  // Exporting again continues nothing: the same values appear again.
  if (c.t.chance(1, 4)) {
    keepass::KdbxFile file;
    for (int i = 0; i < 2; ++i) {
      Outcome e2 = export_kdbx(p, *lib, key, &file);
      PBT_REQUIRE(e2.ok(), "export-failed", "repeated export failed: " << e2.str());
      ref::KdbxInfo again;
      try { again = ref::read_kdbx(bridge::read_file(p), comps(cr)); } catch (const ref::Error& x) { pbt::fail("not-decodable", std::string("repeated export: ") + x.what()); }
      std::vector<std::pair<std::string, Bytes>> g2;
      for (auto& it : again.prot) g2.push_back({it.path.substr(it.path.rfind('/') + 1), it.plain});
      PBT_REQUIRE(sorted(g2) == a, "protected-value", "protected values of a repeated export differ");
    }
  }
}

// The obfuscator consumes the keystream byte by byte whatever the pieces.
static void pieces(Case& c) {
  Bytes key = c.t.bytes(32), iv = c.t.bytes(8);
  size_t n = c.t.below(c.t.chance(1, 10) ? 200 : 14);
  keepass::RandomObfuscator ob(bridge::arr<32>(key), bridge::arr<8>(iv));
  ref::Salsa20 s(key, iv);
  static const std::vector<size_t> lens = {0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 1000};
  std::string what;
  for (size_t i = 0; i < n; ++i) {
    size_t len = c.t.chance(1, 2) ? c.t.of(lens) : c.t.below(200);
    bool vec = c.t.chance(1, 2);
    Bytes d = c.t.bytes(len), want = s.process(d), got;
    if (vec) {
      std::vector<uint8_t> r = ob.Process(std::vector<uint8_t>(d.begin(), d.end()));
      got.assign(r.begin(), r.end());
    } else {
      got = ob.Process(d);
    }
    what += std::to_string(len) + (vec ? "v " : "s ");
    PBT_REQUIRE(got == want, "keystream", "pieces " << what << ": piece " << i << " does not continue the keystream: " << pbt::first_diff(got, want));
    c.eval();
  }
  c.describe("pieces " + what);
  if (n > 1) c.nontrivial(key + what);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C11";
  k.rule = "distinct databases with at least two protected values, and distinct sequences of at least two obfuscated pieces";
  k.assumptions = {"texts are legal XML 1.0 characters", "protected values searched for in the document are unique tokens of at least eight random bytes"};
  k.subs = {{"export", 2500, 80000, exported}, {"pieces", 20000, 600000, pieces}};
  return pbt::run_check(k, argc, argv);
}
