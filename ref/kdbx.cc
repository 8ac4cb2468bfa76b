#include "kdbx.hh"

#include <algorithm>
#include <cstdio>
#include <map>
#include <set>

namespace ref {
using model::Attachment;
using model::Entry;
using model::Group;
using model::GRef;
using pbt::SplitMix;

static const int64_t kNever = civil_to_unix({2999, 12, 28, 22, 59, 59});
static const Bytes kAesId("\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff", 16);
static const Bytes kSalsaIv("\xe8\x30\x09\x4b\x97\x20\x5d\x2a", 8);

Components components(bool has_pw, const Bytes& pw, bool has_kf, const Bytes& kf) {
  Components c;
  if (has_pw) c.pw = sha256(pw);
  if (has_kf) c.kf = kf;
  return c;
}
Bytes composite_kdbx(const Components& c) { return sha256(c.pw + c.kf); }
Bytes composite_kdb(const Components& c) {
  if (!c.pw.empty() && !c.kf.empty()) return sha256(c.pw + c.kf);
  return !c.pw.empty() ? c.pw : c.kf.empty() ? Bytes(32, '\0') : c.kf;
}
Bytes transform(const Bytes& composite, const Bytes& seed, uint64_t rounds) { return sha256(aes_transform(seed, composite, rounds)); }
Bytes final_key(const Bytes& ms, const Bytes& tk) { return sha256(ms + tk); }

std::string kdbx_time(int64_t t) {
  if (t == 0) t = kNever;
  Civil c = unix_to_civil(t);
  char b[64];
  snprintf(b, sizeof b, "%04lld-%02d-%02dT%02d:%02d:%02dZ", (long long)c.y, c.mo, c.d, c.h, c.mi, c.s);
  return b;
}
int64_t parse_kdbx_time(const std::string& s) {
  int y, mo, d, h, mi, se, n = 0;
  if (s.size() != 20 || sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2dZ%n", &y, &mo, &d, &h, &mi, &se, &n) != 6 || n != 20) throw Error("KDBX: bad time \"" + s + "\"");
  if (mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59 || se > 59) throw Error("KDBX: bad time \"" + s + "\"");
  int64_t t = civil_to_unix({y, mo, d, h, mi, se});
  Civil c = unix_to_civil(t);
  if (c.d != d || c.mo != mo) throw Error("KDBX: no such date \"" + s + "\"");
  return t == kNever ? 0 : t;
}

// ---------------------------------------------------------------- framing
Bytes hash_blocks(const Bytes& p, const std::vector<size_t>& sizes) {
  Bytes o;
  uint32_t idx = 0;
  size_t at = 0, k = 0;
  while (at < p.size()) {
    size_t n = sizes.empty() ? p.size() : std::max<size_t>(1, sizes[k++ % sizes.size()]);
    n = std::min(n, p.size() - at);
    Bytes b = p.substr(at, n);
    put32(o, idx++);
    o += sha256(b);
    put32(o, n);
    o += b;
    at += n;
  }
  put32(o, idx);
  o += Bytes(32, '\0');
  put32(o, 0);
  return o;
}
Bytes unhash_blocks(const Bytes& f, std::vector<size_t>* sizes) {
  Bytes o;
  size_t p = 0;
  for (uint32_t i = 0;; ++i) {
    if (p + 40 > f.size()) throw Error("KDBX: truncated block header");
    if (get32(f, p) != i) throw Error("KDBX: block index " + std::to_string(get32(f, p)) + ", expected " + std::to_string(i));
    Bytes h = f.substr(p + 4, 32);
    uint32_t n = get32(f, p + 36);
    p += 40;
    if (n == 0) {
      if (h != Bytes(32, '\0')) throw Error("KDBX: last block has a hash");
      break;
    }
    if (p + n > f.size()) throw Error("KDBX: truncated block");
    Bytes b = f.substr(p, n);
    if (sha256(b) != h) throw Error("KDBX: block hash mismatch");
    if (sizes) sizes->push_back(n);
    o += b;
    p += n;
  }
  if (p != f.size()) throw Error("KDBX: data after the last block");
  return o;
}

// ---------------------------------------------------------------- reading
static Bytes unb64ws(const std::string& s) {
  std::string t;
  for (char c : s) if (c != ' ' && c != '\t' && c != '\n' && c != '\r') t += c;
  return unb64(t);
}
namespace {
struct Dec {
  std::vector<ProtectedItem>* prot;
  Salsa20 s20;
  size_t offset = 0;
  std::map<std::string, int> bin_ids;
  std::vector<std::pair<Bytes, int>> icons;
  // plaintext of protected nodes, by address
  std::map<const Node*, Bytes> plain;

  Dec(std::vector<ProtectedItem>* p, const Bytes& key) : prot(p), s20(sha256(key), kSalsaIv) {}

  static bool is_true(const std::string& s, const std::string& what) {
    if (s == "True") return true;
    if (s == "False") return false;
    throw Error("KDBX: bad boolean \"" + s + "\" in " + what);
  }
  void walk(const Node& n, const std::string& path) {
    std::string here = path.empty() ? n.name : path + "/" + n.name;
    const std::string* a = n.attr("Protected");
    if (a && is_true(*a, "Protected")) {
      if (!n.kids.empty()) throw Error("KDBX: protected element with children");
      Bytes enc = unb64ws(n.text);
      Bytes pl = s20.process(enc);
      if (prot) prot->push_back({here, pl, n.text, offset});
      offset += enc.size();
      plain[&n] = pl;
    }
    for (auto& k : n.kids) walk(k, here);
  }
  static const std::string& txt(const Node& n, const char* c, bool required = true) {
    static const std::string empty;
    const Node* k = n.child(c);
    if (!k) { if (required) throw Error("KDBX: missing " + std::string(c) + " in " + n.name); return empty; }
    if (n.count(c) != 1) throw Error("KDBX: repeated " + std::string(c) + " in " + n.name);
    if (!k->kids.empty()) throw Error("KDBX: element content in " + std::string(c));
    return k->text;
  }
  static int64_t num(const Node& n, const char* c, int64_t lo, int64_t hi) {
    const std::string& s = txt(n, c);
    if (s.empty() || s.find_first_not_of("-0123456789") != std::string::npos) throw Error("KDBX: bad number \"" + s + "\" in " + c);
    errno = 0;
    char* e;
    long long v = strtoll(s.c_str(), &e, 10);
    if (errno || *e || v < lo || v > hi) throw Error("KDBX: number out of range \"" + s + "\" in " + std::string(c));
    return v;
  }
  static bool boolean(const Node& n, const char* c) { return is_true(txt(n, c), c); }
  static Bytes uuid(const std::string& s) {
    Bytes b = unb64(s);
    if (b.size() != 16) throw Error("KDBX: UUID of " + std::to_string(b.size()) + " bytes");
    return b;
  }
  model::PStr pstr(const Node& v) {
    auto it = plain.find(&v);
    if (it != plain.end()) return {it->second, true};
    return {v.text, false};
  }
  int icon(const Node& n) {
    if (!n.child("CustomIconUUID")) return -1;
    Bytes u = uuid(txt(n, "CustomIconUUID"));
    for (auto& i : icons) if (i.first == u) return i.second;
    throw Error("KDBX: unknown custom icon");
  }
  void times(const Node& n, int64_t* t, bool& expires, uint32_t& usage) {
    const Node* k = n.child("Times");
    if (!k) throw Error("KDBX: no Times in " + n.name);
    static const char* names[] = {"CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"};
    for (int i = 0; i < 5; ++i) t[i] = parse_kdbx_time(txt(*k, names[i]));
    expires = boolean(*k, "Expires");
    usage = uint32_t(num(*k, "UsageCount", 0, UINT32_MAX));
  }
  Entry entry(const Node& n) {
    Entry e;
    e.uuid = uuid(txt(n, "UUID"));
    e.icon = uint32_t(num(n, "IconID", 0, UINT32_MAX));
    e.custom_icon = icon(n);
    e.fg = txt(n, "ForegroundColor");
    e.bg = txt(n, "BackgroundColor");
    e.override_url = txt(n, "OverrideURL");
    e.tags = txt(n, "Tags");
    times(n, e.times, e.expires, e.usage);
    const Node* at = n.child("AutoType");
    if (!at) throw Error("KDBX: no AutoType");
    e.at_enabled = boolean(*at, "Enabled");
    e.at_obf = uint32_t(num(*at, "DataTransferObfuscation", 0, UINT32_MAX));
    e.at_seq = txt(*at, "DefaultSequence", false);
    for (auto& a : at->kids) if (a.name == "Association") e.assoc.push_back({txt(a, "Window"), txt(a, "KeystrokeSequence")});
    std::set<std::string> std_seen;
    for (auto& k : n.kids) {
      if (k.name == "String") {
        std::string key = txt(k, "Key");
        const Node* v = k.child("Value");
        if (!v || k.count("Value") != 1) throw Error("KDBX: String without one Value");
        model::PStr p = pstr(*v);
        model::PStr* dst = key == "Title" ? &e.title : key == "URL" ? &e.url : key == "UserName" ? &e.username : key == "Password" ? &e.password : key == "Notes" ? &e.notes : nullptr;
        if (dst) {
          if (!std_seen.insert(key).second) throw Error("KDBX: repeated standard field " + key);
          *dst = p;
        } else e.custom.push_back({key, p});
      } else if (k.name == "Binary") {
        Attachment a;
        a.name = txt(k, "Key");
        const Node* v = k.child("Value");
        if (!v || k.count("Value") != 1) throw Error("KDBX: Binary without one Value");
        if (const std::string* r = v->attr("Ref")) {
          auto it = bin_ids.find(*r);
          if (it == bin_ids.end()) throw Error("KDBX: dangling binary reference " + *r);
          if (!v->text.empty()) throw Error("KDBX: binary reference with content");
          a.pool = it->second;
        } else a.inl = binary(*v);
        e.attachments.push_back(a);
      } else if (k.name == "History") {
        if (n.count("History") != 1) throw Error("KDBX: repeated History");
        for (auto& h : k.kids) if (h.name == "Entry") e.history.push_back(entry(h));
      }
    }
    return e;
  }
  model::Binary binary(const Node& v) {
    model::Binary b;
    auto it = plain.find(&v);
    if (it != plain.end()) { b.prot = true; b.data = it->second; }
    else b.data = unb64ws(v.text);
    const std::string* c = v.attr("Compressed");
    if (c && is_true(*c, "Compressed")) { b.data = gunzip(b.data); b.compress = true; }
    return b;
  }
  Group group(const Node& n) {
    Group g;
    g.uuid = uuid(txt(n, "UUID"));
    g.name = txt(n, "Name");
    g.notes = txt(n, "Notes");
    g.icon = uint32_t(num(n, "IconID", 0, UINT32_MAX));
    g.custom_icon = icon(n);
    times(n, g.times, g.expires, g.usage);
    g.expanded = boolean(n, "IsExpanded");
    g.at_seq = txt(n, "DefaultAutoTypeSequence");
    const std::string& ea = txt(n, "EnableAutoType");
    g.autotype = ea.empty() || ea == "null" ? 2 : is_true(ea, "EnableAutoType");
    const std::string& es = txt(n, "EnableSearching");
    g.search = es.empty() || es == "null" ? 2 : is_true(es, "EnableSearching");
    for (auto& k : n.kids) {
      if (k.name == "Entry") g.entries.push_back(entry(k));
      else if (k.name == "Group") g.groups.push_back(group(k));
    }
    if (n.child("LastTopVisibleEntry")) {
      Bytes u = uuid(txt(n, "LastTopVisibleEntry"));
      for (size_t i = 0; i < g.entries.size(); ++i) if (g.entries[i].uuid == u) { g.last_visible = int(i); break; }
      if (g.last_visible < 0 && u != Bytes(16, '\0')) throw Error("KDBX: LastTopVisibleEntry is no entry of the group");
    }
    return g;
  }
};
}  // namespace

model::Db doc_to_model(const Node& doc, std::vector<ProtectedItem>* prot, const Bytes& inner_key) {
  model::Db db;
  if (doc.name != "KeePassFile") throw Error("KDBX: root element is " + doc.name);
  const Node* mn = doc.child("Meta");
  const Node* rn = doc.child("Root");
  if (!mn || !rn || doc.count("Meta") != 1 || doc.count("Root") != 1 || rn->count("Group") != 1) throw Error("KDBX: Meta, Root or its Group missing or repeated");
  Dec d(prot, inner_key);
  d.walk(doc, "");
  model::Meta& m = db.meta;
  m.generator = d.txt(*mn, "Generator");
  m.name = {d.txt(*mn, "DatabaseName"), parse_kdbx_time(d.txt(*mn, "DatabaseNameChanged"))};
  m.desc = {d.txt(*mn, "DatabaseDescription"), parse_kdbx_time(d.txt(*mn, "DatabaseDescriptionChanged"))};
  m.user = {d.txt(*mn, "DefaultUserName"), parse_kdbx_time(d.txt(*mn, "DefaultUserNameChanged"))};
  m.hist_days = uint32_t(d.num(*mn, "MaintenanceHistoryDays", 0, UINT32_MAX));
  m.color = d.txt(*mn, "Color");
  m.key_changed = parse_kdbx_time(d.txt(*mn, "MasterKeyChanged"));
  m.key_rec = d.num(*mn, "MasterKeyChangeRec", INT64_MIN, INT64_MAX);
  m.key_force = d.num(*mn, "MasterKeyChangeForce", INT64_MIN, INT64_MAX);
  const Node* mp = mn->child("MemoryProtection");
  if (!mp) throw Error("KDBX: no MemoryProtection");
  static const char* mpn[] = {"ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes"};
  for (int i = 0; i < 5; ++i) m.mp[i] = d.boolean(*mp, mpn[i]);
  m.recycle_changed = parse_kdbx_time(d.txt(*mn, "RecycleBinChanged"));
  m.templates_changed = parse_kdbx_time(d.txt(*mn, "EntryTemplatesGroupChanged"));
  m.hist_items = int32_t(d.num(*mn, "HistoryMaxItems", INT32_MIN, INT32_MAX));
  m.hist_size = d.num(*mn, "HistoryMaxSize", INT64_MIN, INT64_MAX);
  if (const Node* ic = mn->child("CustomIcons"))
    for (auto& k : ic->kids) {
      if (k.name != "Icon") continue;
      Bytes u = d.uuid(d.txt(k, "UUID")), data = unb64ws(d.txt(k, "Data"));
      d.icons.push_back({u, int(m.icons.size())});
      m.icons.push_back({u, data});
    }
  if (const Node* bs = mn->child("Binaries"))
    for (auto& k : bs->kids) {
      if (k.name != "Binary") continue;
      const std::string* id = k.attr("ID");
      if (!id) throw Error("KDBX: binary without ID");
      if (!d.bin_ids.insert({*id, int(m.binaries.size())}).second) throw Error("KDBX: repeated binary ID " + *id);
      m.binaries.push_back(d.binary(k));
    }
  if (const Node* cd = mn->child("CustomData"))
    for (auto& k : cd->kids) if (k.name == "Item") m.custom.push_back({d.txt(k, "Key"), d.txt(k, "Value")});
  db.root = d.group(*rn->child("Group"));
  std::vector<const Group*> pre = model::preorder(static_cast<const Group&>(db.root));
  auto gref = [&](const char* el) {
    GRef r;
    std::string s = d.txt(*mn, el, false);
    if (s.empty()) return r;
    Bytes u = d.uuid(s);
    r.kind = GRef::kDetached;
    r.uuid = u;
    for (size_t i = 0; i < pre.size(); ++i) if (pre[i]->uuid == u) { r.kind = GRef::kTree; r.index = int(i); r.uuid.clear(); break; }
    return r;
  };
  if (d.boolean(*mn, "RecycleBinEnabled")) m.recycle_bin = gref("RecycleBinUUID");
  m.templates = gref("EntryTemplatesGroup");
  m.last_selected = gref("LastSelectedGroup");
  m.last_visible = gref("LastTopVisibleGroup");
  return db;
}

KdbxInfo read_kdbx(const Bytes& f, const Components& key, const ReadOpt& opt) {
  KdbxInfo r;
  if (f.size() < 12 || get32(f, 0) != 0x9aa2d903 || get32(f, 4) != 0xb54bfb67) throw Error("KDBX: bad signature");
  r.version = get32(f, 8);
  if (r.version != 0x00030001 && r.version != 0x00030000) throw Error("KDBX: version " + std::to_string(r.version));
  size_t p = 12;
  std::map<int, Bytes> h;
  for (;;) {
    if (p + 3 > f.size()) throw Error("KDBX: truncated header");
    int id = uint8_t(f[p]);
    size_t n = get16(f, p + 1);
    p += 3;
    if (p + n > f.size()) throw Error("KDBX: truncated header field");
    Bytes d = f.substr(p, n);
    p += n;
    r.fields.push_back({id, d});
    if (id == 0) break;
    if (id > 10) throw Error("KDBX: unknown header field");
    if (!h.insert({id, d}).second) throw Error("KDBX: repeated header field " + std::to_string(id));
  }
  r.header = f.substr(0, p);
  auto need = [&](int id, size_t n) -> const Bytes& {
    auto it = h.find(id);
    if (it == h.end()) throw Error("KDBX: missing header field " + std::to_string(id));
    if (n && it->second.size() != n) throw Error("KDBX: header field " + std::to_string(id) + " has " + std::to_string(it->second.size()) + " bytes");
    return it->second;
  };
  if (need(2, 16) != kAesId) throw Error("KDBX: cipher id");
  uint32_t comp = get32(need(3, 4), 0);
  if (comp > 1) throw Error("KDBX: compression flags");
  const Bytes& ms = need(4, 0);
  const Bytes& ts = need(5, 32);
  uint64_t rounds = get64(need(6, 8), 0);
  const Bytes& iv = need(7, 16);
  const Bytes& iks = need(8, 32);
  r.start_bytes = need(9, 32);
  if (get32(need(10, 4), 0) != 2) throw Error("KDBX: inner random stream");
  Bytes fk = final_key(ms, transform(composite_kdbx(key), ts, rounds));
  Bytes content = aes_cbc_decrypt(fk, iv, f.substr(p));
  if (content.size() < 32 || content.substr(0, 32) != r.start_bytes) throw Error("KDBX: start bytes");
  r.payload = content.substr(32);
  Bytes inner = unhash_blocks(r.payload, &r.block_sizes);
  if (comp) {
    size_t used = 0;
    r.xml = gunzip(inner, &used);
    if (used != inner.size()) throw Error("KDBX: data after the gzip member");
  } else r.xml = inner;
  r.doc = parse_xml(r.xml, opt.xml);
  r.db = doc_to_model(r.doc, &r.prot, iks);
  const Node* hh = r.doc.child("Meta")->child("HeaderHash");
  if (!hh) throw Error("KDBX: no HeaderHash");
  if (unb64(hh->text) != sha256(r.header)) throw Error("KDBX: HeaderHash does not match the header");
  if (ms.size() != 32) throw Error("KDBX: master seed of " + std::to_string(ms.size()) + " bytes");
  r.db.cipher = 0;
  r.db.master_seed = ms;
  r.db.iv = iv;
  r.db.tseed = ts;
  r.db.iks = iks;
  r.db.rounds = rounds;
  r.db.compress = comp == 1;
  return r;
}

// ---------------------------------------------------------------- writing
KdbxStyle plain_kdbx_style() { return KdbxStyle(); }

KdbxStyle gen_kdbx_style(pbt::Tape& t) {
  KdbxStyle s;
  s.xml = gen_style(t);
  if (t.chance(1, 6)) s.version = 0x00030000;
  s.shuffle_header = t.chance(1, 3);
  s.comment_field = t.chance(1, 8);
  static const std::vector<Bytes> eoh = {"", "\r\n\r\n", "x", Bytes(40, '\0')};
  s.eoh_data = t.of(eoh);
  static const std::vector<int> lv = {6, 0, 1, 9, 3};
  s.gz_level = t.of(lv);
  s.gz_strategy = t.chance(1, 3) ? t.below(5) : 0;
  s.gz_mem = t.chance(1, 3) ? 1 + t.below(9) : 8;
  s.gz_wbits = t.chance(1, 3) ? 9 + t.below(7) : 15;
  s.gz_flushes = t.chance(1, 3) ? t.below(5) : 0;
  switch (t.pick({3, 3, 2})) {
    case 0: break;
    case 1: {
      static const std::vector<size_t> b = {1048576, 16384, 4096, 1024, 64, 100, 40, 17};
      s.blocks = {t.of(b)};
      break;
    }
    default:
      for (size_t n = 1 + t.below(5); n--;) s.blocks.push_back(1 + t.below(3000));
      break;
  }
  s.shuffle_simple = t.chance(1, 2);
  s.value_before_key = t.chance(1, 4);
  s.omit_defaults = t.chance(1, 2);
  s.bool_lower = t.chance(1, 3);
  s.null_bool = t.chance(1, 2);
  s.unknown = t.chance(1, 3);
  s.deleted_objects = t.chance(1, 2);
  s.id_style = t.below(3);
  return s;
}

namespace {
struct Enc {
  const model::Db& db;
  const KdbxStyle& st;
  SplitMix& r;
  std::vector<std::string> ids;
  std::vector<const Group*> pre;

  unsigned below(unsigned n) { return unsigned((r.next() >> 20) % n); }
  std::string boolean(bool b) { return st.bool_lower ? (b ? "true" : "false") : (b ? "True" : "False"); }
  bool omit(bool is_default) { return st.omit_defaults && is_default && below(3) != 0; }
  Node b64node(const std::string& n, const Bytes& d) { Node x(n, b64(d)); x.b64 = true; return x; }
  void unknown(std::vector<Node>& v) {
    if (!st.unknown || below(3)) return;
    static const char* names[] = {"PreviousParentGroup", "SettingsChanged", "QualityCheck", "X-Ext", "TagsExtra"};
    Node n(names[below(5)], below(2) ? "value & <text>" : "");
    if (below(3) == 0) { n.text.clear(); n.add("UUID", "AAAA"); n.add("Name", "not me"); n.add("Item").add("Key", "k"); }
    if (below(3) == 0) n.attrs.push_back({"Attr", "1 < 2 \"q\""});
    v.push_back(n);
  }
  void shuffle(std::vector<Node>& v) {
    unknown(v);
    if (st.shuffle_simple) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
  Node times(const int64_t* t, bool expires, uint32_t usage) {
    Node n("Times");
    static const char* names[] = {"CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"};
    std::vector<Node> k;
    for (int i = 0; i < 5; ++i) if (!omit(t[i] == 0)) k.push_back(Node(names[i], kdbx_time(t[i])));
    if (!omit(!expires)) k.push_back(Node("Expires", boolean(expires)));
    if (!omit(usage == 0)) k.push_back(Node("UsageCount", std::to_string(usage)));
    shuffle(k);
    n.kids = k;
    return n;
  }
  Node value(const model::PStr& p) {
    Node v("Value", p.v);
    if (p.prot) { v.prot = true; v.b64 = true; v.attrs.push_back({"Protected", boolean(true)}); }
    else if (st.unknown && below(6) == 0) v.attrs.push_back({"Protected", boolean(false)});
    return v;
  }
  Node kv(const std::string& el, const std::string& key, const Node& v) {
    Node n(el);
    if (st.value_before_key && below(2)) { n.add(v); n.add("Key", key); }
    else { n.add("Key", key); n.add(v); }
    return n;
  }
  void fill_binary(Node& v, const model::Binary& b) {
    v.b64 = true;
    if (b.prot) { v.prot = true; v.text = b.data; v.attrs.push_back({"Protected", boolean(true)}); }
    else if (b.compress) {
      v.text = b64(gzip(b.data, st.gz_level, st.gz_strategy, st.gz_mem, st.gz_wbits));
      v.attrs.push_back({"Compressed", boolean(true)});
    } else {
      v.text = b64(b.data);
      if (st.unknown && below(4) == 0) v.attrs.push_back({"Compressed", boolean(false)});
    }
  }
  Node entry(const Entry& e) {
    Node n("Entry");
    std::vector<Node> k;
    k.push_back(Node("UUID", b64(e.uuid)));
    if (!omit(e.icon == 0)) k.push_back(Node("IconID", std::to_string(e.icon)));
    if (e.custom_icon >= 0) k.push_back(Node("CustomIconUUID", b64(db.meta.icons[e.custom_icon].uuid)));
    if (!omit(e.fg.empty())) k.push_back(Node("ForegroundColor", e.fg));
    if (!omit(e.bg.empty())) k.push_back(Node("BackgroundColor", e.bg));
    if (!omit(e.override_url.empty())) k.push_back(Node("OverrideURL", e.override_url));
    if (!omit(e.tags.empty())) k.push_back(Node("Tags", e.tags));
    bool t0 = !e.expires && !e.usage;
    for (int i = 0; i < 5; ++i) t0 = t0 && e.times[i] == 0;
    if (!omit(t0)) k.push_back(times(e.times, e.expires, e.usage));
    bool at0 = !e.at_enabled && !e.at_obf && e.at_seq.empty() && e.assoc.empty();
    if (!omit(at0)) {
      Node a("AutoType");
      std::vector<Node> ak;
      if (!omit(!e.at_enabled)) ak.push_back(Node("Enabled", boolean(e.at_enabled)));
      if (!omit(!e.at_obf)) ak.push_back(Node("DataTransferObfuscation", std::to_string(e.at_obf)));
      if (!omit(e.at_seq.empty())) ak.push_back(Node("DefaultSequence", e.at_seq));
      shuffle(ak);
      for (auto& s : e.assoc) {
        Node x("Association");
        if (st.value_before_key && below(2)) { x.add("KeystrokeSequence", s.sequence); x.add("Window", s.window); }
        else { x.add("Window", s.window); x.add("KeystrokeSequence", s.sequence); }
        ak.push_back(x);
      }
      a.kids = ak;
      k.push_back(a);
    }
    shuffle(k);
    // Strings in any order as far as custom fields keep theirs.
    std::vector<Node> std_fields;
    auto sf = [&](const char* key, const model::PStr& p) { if (!omit(p.v.empty() && !p.prot)) std_fields.push_back(kv("String", key, value(p))); };
    sf("Title", e.title); sf("URL", e.url); sf("UserName", e.username); sf("Password", e.password); sf("Notes", e.notes);
    if (st.shuffle_simple) for (size_t i = std_fields.size(); i > 1; --i) std::swap(std_fields[i - 1], std_fields[below(i)]);
    std::vector<Node> strs;
    size_t a = 0, b = 0;
    while (a < std_fields.size() || b < e.custom.size()) {
      bool take_std = b >= e.custom.size() || (a < std_fields.size() && (!st.shuffle_simple || below(2)));
      if (take_std) strs.push_back(std_fields[a++]);
      else { strs.push_back(kv("String", e.custom[b].first, value(e.custom[b].second))); ++b; }
    }
    std::vector<Node> bins;
    for (auto& at : e.attachments) {
      Node v("Value");
      if (at.pool >= 0) v.attrs.push_back({"Ref", ids[at.pool]});
      else fill_binary(v, at.inl);
      bins.push_back(kv("Binary", at.name, v));
    }
    for (auto& s : strs) k.push_back(s);
    for (auto& s : bins) k.push_back(s);
    if (!omit(e.history.empty())) {
      Node h("History");
      for (auto& x : e.history) h.add(entry(x));
      k.push_back(h);
    }
    n.kids = k;
    return n;
  }
  Node group(const Group& g) {
    Node n("Group");
    std::vector<Node> k;
    k.push_back(Node("UUID", b64(g.uuid)));
    if (!omit(g.name.empty())) k.push_back(Node("Name", g.name));
    if (!omit(g.notes.empty())) k.push_back(Node("Notes", g.notes));
    if (!omit(g.icon == 0)) k.push_back(Node("IconID", std::to_string(g.icon)));
    if (g.custom_icon >= 0) k.push_back(Node("CustomIconUUID", b64(db.meta.icons[g.custom_icon].uuid)));
    bool t0 = !g.expires && !g.usage;
    for (int i = 0; i < 5; ++i) t0 = t0 && g.times[i] == 0;
    if (!omit(t0)) k.push_back(times(g.times, g.expires, g.usage));
    if (!omit(!g.expanded)) k.push_back(Node("IsExpanded", boolean(g.expanded)));
    if (!omit(g.at_seq.empty())) k.push_back(Node("DefaultAutoTypeSequence", g.at_seq));
    if (!omit(g.autotype == 2)) k.push_back(Node("EnableAutoType", g.autotype == 2 ? st.null_bool ? "null" : "" : boolean(g.autotype)));
    if (!omit(g.search == 2)) k.push_back(Node("EnableSearching", g.search == 2 ? st.null_bool ? "null" : "" : boolean(g.search)));
    if (g.last_visible >= 0) k.push_back(Node("LastTopVisibleEntry", b64(g.entries[g.last_visible].uuid)));
    else if (!st.omit_defaults || below(2)) k.push_back(Node("LastTopVisibleEntry", b64(Bytes(16, '\0'))));
    shuffle(k);
    for (auto& e : g.entries) k.push_back(entry(e));
    for (auto& s : g.groups) k.push_back(group(s));
    n.kids = k;
    return n;
  }
  void gref(std::vector<Node>& k, const char* el, const GRef& g, bool must) {
    if (g.kind == GRef::kTree) k.push_back(Node(el, b64(pre[g.index]->uuid)));
    else if (g.kind == GRef::kDetached) k.push_back(Node(el, b64(g.uuid)));
    else if (must) k.push_back(Node(el, ""));
  }
  Node doc() {
    const model::Meta& m = db.meta;
    pre = model::preorder(db.root);
    for (size_t i = 0; i < m.binaries.size(); ++i) {
      std::string id = std::to_string(i);
      if (st.id_style == 1) id = std::to_string(i * 7 + 3 + (m.binaries.size() - i) * 100);
      if (st.id_style == 2) id = "bin-" + std::to_string((i * 5 + 2) % 97) + char('a' + i % 26);
      ids.push_back(id);
    }
    Node root("KeePassFile"), meta("Meta");
    std::vector<Node> k;
    k.push_back(Node("HeaderHash", "@HEADERHASH@"));
    auto tx = [&](const char* el, const std::string& s) { if (!omit(s.empty())) k.push_back(Node(el, s)); };
    auto tm = [&](const char* el, int64_t t) { if (!omit(t == 0)) k.push_back(Node(el, kdbx_time(t))); };
    auto nm = [&](const char* el, int64_t v, int64_t def) { if (!omit(v == def)) k.push_back(Node(el, std::to_string(v))); };
    tx("Generator", m.generator);
    tx("DatabaseName", m.name.v); tm("DatabaseNameChanged", m.name.t);
    tx("DatabaseDescription", m.desc.v); tm("DatabaseDescriptionChanged", m.desc.t);
    tx("DefaultUserName", m.user.v); tm("DefaultUserNameChanged", m.user.t);
    nm("MaintenanceHistoryDays", m.hist_days, 365);
    tx("Color", m.color);
    tm("MasterKeyChanged", m.key_changed);
    nm("MasterKeyChangeRec", m.key_rec, -1);
    nm("MasterKeyChangeForce", m.key_force, -1);
    static const char* mpn[] = {"ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes"};
    bool mp0 = true;
    for (int i = 0; i < 5; ++i) mp0 = mp0 && m.mp[i] == (i == 2);
    if (!omit(mp0)) {
      Node mp("MemoryProtection");
      std::vector<Node> mk;
      for (int i = 0; i < 5; ++i) if (!omit(m.mp[i] == (i == 2))) mk.push_back(Node(mpn[i], boolean(m.mp[i])));
      shuffle(mk);
      mp.kids = mk;
      k.push_back(mp);
    }
    if (m.recycle_bin.kind == GRef::kNone) {
      if (below(2)) { k.push_back(Node("RecycleBinEnabled", boolean(true))); k.push_back(Node("RecycleBinUUID", "")); }
      else k.push_back(Node("RecycleBinEnabled", boolean(false)));
    } else {
      if (!omit(true)) k.push_back(Node("RecycleBinEnabled", boolean(true)));
      gref(k, "RecycleBinUUID", m.recycle_bin, true);
    }
    tm("RecycleBinChanged", m.recycle_changed);
    gref(k, "EntryTemplatesGroup", m.templates, !st.omit_defaults);
    tm("EntryTemplatesGroupChanged", m.templates_changed);
    nm("HistoryMaxItems", m.hist_items, -1);
    nm("HistoryMaxSize", m.hist_size, -1);
    gref(k, "LastSelectedGroup", m.last_selected, !st.omit_defaults);
    gref(k, "LastTopVisibleGroup", m.last_visible, !st.omit_defaults);
    if (!omit(m.icons.empty())) {
      Node ic("CustomIcons");
      for (auto& i : m.icons) {
        Node x("Icon");
        Node dn = b64node("Data", i.data);
        if (st.value_before_key && below(2)) { x.add(dn); x.add("UUID", b64(i.uuid)); } else { x.add("UUID", b64(i.uuid)); x.add(dn); }
        ic.add(x);
      }
      k.push_back(ic);
    }
    if (!omit(m.binaries.empty())) {
      Node bs("Binaries");
      for (size_t i = 0; i < m.binaries.size(); ++i) {
        Node x("Binary");
        if (below(2)) { x.attrs.push_back({"ID", ids[i]}); fill_binary(x, m.binaries[i]); }
        else { fill_binary(x, m.binaries[i]); x.attrs.push_back({"ID", ids[i]}); }
        bs.add(x);
      }
      k.push_back(bs);
    }
    if (!omit(m.custom.empty())) {
      Node cd("CustomData");
      for (auto& c : m.custom) cd.add(kv("Item", c.first, Node("Value", c.second)));
      k.push_back(cd);
    }
    shuffle(k);
    meta.kids = k;
    root.add(meta);
    Node rn("Root");
    rn.add(group(db.root));
    if (st.deleted_objects) {
      Node del("DeletedObjects");
      for (unsigned i = below(3); i--;) {
        Node x("DeletedObject");
        x.add("UUID", b64(Bytes(16, char('a' + i))));
        x.add("DeletionTime", "2014-05-01T10:00:00Z");
        del.add(x);
      }
      rn.add(del);
    }
    root.add(rn);
    return root;
  }
};
void obf(Node& n, Salsa20& s) {
  if (n.prot) { n.text = b64(s.process(n.text)); n.prot = false; }
  for (auto& k : n.kids) obf(k, s);
}
Bytes le32(uint32_t v) { Bytes o; put32(o, v); return o; }
Bytes le64(uint64_t v) { Bytes o; put64(o, v); return o; }
}  // namespace

Node kdbx_doc(const model::Db& db, const KdbxStyle& st, SplitMix& rng) {
  Enc e{db, st, rng, {}, {}};
  return e.doc();
}
void obfuscate(Node& doc, const Bytes& inner_key) {
  Salsa20 s(sha256(inner_key), kSalsaIv);
  obf(doc, s);
}

RawKdbx raw_header(const model::Db& db, const KdbxStyle& st, SplitMix& rng) {
  RawKdbx r;
  r.version = st.version;
  for (int i = 0; i < 32; ++i) r.start_bytes += char(rng.next() >> 13);
  r.master_seed = db.master_seed;
  r.iv = db.iv;
  r.tseed = db.tseed;
  r.iks = db.iks;
  r.rounds = db.rounds;
  r.compress = db.compress;
  r.fields = {{2, kAesId}, {3, le32(db.compress ? 1 : 0)}, {4, db.master_seed}, {5, db.tseed}, {6, le64(db.rounds)}, {7, db.iv}, {8, db.iks}, {9, r.start_bytes}, {10, le32(2)}};
  if (st.comment_field) r.fields.push_back({1, "a comment"});
  if (st.shuffle_header) for (size_t i = r.fields.size(); i > 1; --i) std::swap(r.fields[i - 1], r.fields[(rng.next() >> 20) % i]);
  r.eoh = st.eoh_data;
  return r;
}
Bytes header_bytes(const RawKdbx& r) {
  Bytes o;
  put32(o, r.sig0);
  put32(o, r.sig1);
  put32(o, r.version);
  auto f = [&](int id, const Bytes& d) { o += char(id); put16(o, uint32_t(d.size())); o += d; };
  for (auto& x : r.fields) f(x.id, x.data);
  f(0, r.eoh);
  return o;
}
Bytes seal_kdbx(const RawKdbx& r, const Bytes& framed, const Components& key) {
  Bytes fk = final_key(r.master_seed, transform(composite_kdbx(key), r.tseed, r.rounds));
  return header_bytes(r) + aes_cbc_encrypt(fk, r.iv, r.start_bytes + framed);
}

static void replace_hash(Node& n, const std::string& v) {
  if (n.text == "@HEADERHASH@") n.text = v;
  for (auto& k : n.kids) replace_hash(k, v);
}

Bytes write_kdbx(const model::Db& db, const Components& key, const KdbxStyle& st, SplitMix rng, const std::function<void(Node&)>& edit_doc,
                 const std::function<void(Bytes&)>& edit_xml) {
  RawKdbx r = raw_header(db, st, rng);
  Node doc = kdbx_doc(db, st, rng);
  replace_hash(doc, b64(sha256(header_bytes(r))));
  if (edit_doc) edit_doc(doc);
  obfuscate(doc, db.iks);
  Bytes xml = write_xml(doc, st.xml, rng);
  if (edit_xml) edit_xml(xml);
  Bytes inner = xml;
  if (db.compress) {
    std::vector<size_t> fl;
    for (int i = 0; i < st.gz_flushes; ++i) fl.push_back((rng.next() >> 20) % (xml.size() + 1));
    std::sort(fl.begin(), fl.end());
    inner = gzip(xml, st.gz_level, st.gz_strategy, st.gz_mem, st.gz_wbits, fl);
  }
  return seal_kdbx(r, hash_blocks(inner, st.blocks), key);
}
}  // namespace ref
