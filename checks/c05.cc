// C05: key derivation and key files follow the KeePass definition.
#include <unistd.h>

#include "common.hh"
using namespace harness;
using keepass::Key;

static Bytes lib_transform(const Key& k, const Bytes& seed, uint64_t rounds, bool hash_single) {
  return bridge::str(k.Transform(bridge::arr<32>(seed), rounds,
                                 hash_single ? Key::SubKeyResolution::kHashSubKeys : Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey));
}
static void compare(const Key& k, const ref::Components& cp, const Bytes& seed, uint64_t rounds, const char* key, const std::string& what) {
  for (int hs = 0; hs < 2; ++hs) {
    Bytes want = ref::transform(hs ? ref::composite_kdbx(cp) : ref::composite_kdb(cp), seed, rounds);
    Bytes got = lib_transform(k, seed, rounds, hs);
    PBT_REQUIRE(want == got, key, what << ": transformed key (" << (hs ? "KDBX" : "KDB") << " composition, " << rounds << " rounds) is "
                                       << pbt::hex(got) << " instead of " << pbt::hex(want));
  }
}

// Writes a valid key file of the given form and returns its path.
static std::string key_path(Case& c) { static int n = 0; return c.dir + "/k" + std::to_string(n++); }

struct Op { bool kf; Bytes v; bool hex; };

static Bytes password(Case& c) {
  switch (c.t.pick({4, 3, 2})) {
    case 0: return gen::text(c.t, gen::Text::kAny, 0);
    case 1: return c.t.bytes(gen::size(c.t, 300));
    default: return c.t.bytes(c.t.below(140));  // across SHA-256 block boundaries
  }
}

// Applies one operation to the key and the reference components.
static void apply(Case& c, Key& k, ref::Components& cp, std::string& log) {
  if (c.t.chance(1, 2)) {
    Bytes kf;
    switch (c.t.pick({5, 1, 1, 1})) {
      case 0: kf = c.t.bytes(32); break;
      case 1: kf = Bytes(32, '\0'); break;
      case 2: kf = Bytes(32, '\xff'); break;
      default: kf = cp.pw.empty() ? c.t.bytes(32) : cp.pw; break;
    }
    bool hex = c.t.chance(1, 2);
    std::string p = key_path(c);
    std::string text = gen::keyfile_text(c.t, kf, hex);
    bridge::write_file(p, text);
    Outcome o = guarded([&] { k.SetKeyFile(p); });
    PBT_REQUIRE(o.ok(), "keyfile-rejected", "valid key file " << pbt::quote(text, 300) << " was rejected: " << o.str());
    PBT_REQUIRE(bridge::read_file(p) == text, "keyfile-changed", "the key file was modified");
    cp.kf = kf;
    log += hex ? " hex-file" : " xml-file";
    c.label(hex ? "file:hex" : "file:xml");
  } else {
    Bytes pw = password(c);
    k.SetPassword(pw);
    cp.pw = ref::sha256(pw);
    log += " password[" + std::to_string(pw.size()) + "]";
  }
}

static void derive(Case& c) {
  begin(c);
  Key k;
  ref::Components cp;
  std::string log;
  if (c.t.chance(1, 3)) {
    Bytes pw = password(c);
    k = Key(pw);
    cp.pw = ref::sha256(pw);
    log = " Key(password[" + std::to_string(pw.size()) + "])";
  }
  size_t n = (cp.pw.empty() ? 1 : 0) + c.t.below(4);
  for (size_t i = 0; i < n; ++i) {
    apply(c, k, cp, log);
    if (c.t.chance(1, 4)) k = Key(k);
  }
  Bytes seed = c.t.chance(1, 8) ? Bytes(32, c.t.chance(1, 2) ? '\0' : '\xff') : c.t.bytes(32);
  static const std::vector<uint64_t> rs = {0, 1, 2, 3, 7, 16, 100, 255, 256, 257, 1000, 6000};
  uint64_t rounds = c.t.chance(1, 2) ? c.t.of(rs) : c.t.below(300);
  if (c.thorough && c.t.chance(1, 50)) rounds = 60000 + c.t.below(20000);
  c.describe("ops:" + log + " rounds " + std::to_string(rounds));
  c.label(cp.pw.empty() ? "file only" : cp.kf.empty() ? "password only" : "both");
  if (n > 1) c.label("operations>1");
  c.nontrivial(pbt::hash_str(cp.pw + "|" + cp.kf + "|" + seed, rounds));
  compare(k, cp, seed, rounds, "derive", "after" + log);
}

// Round counts one by one: the transformation is iterated exactly that often.
static void rounds_seq(Case& c) {
  begin(c);
  uint64_t r = c.t.below(600);
  Bytes seed = c.t.bytes(32);
  ref::Components cp = ref::components(true, c.t.bytes(8), false, "");
  Key k;
  cp = ref::Components();
  Bytes pw = c.t.bytes(9);
  k.SetPassword(pw);
  cp.pw = ref::sha256(pw);
  c.describe(std::to_string(r) + " rounds");
  c.nontrivial(r + 1);
  compare(k, cp, seed, r, "rounds", "password key");
}

// Round counts as people use them, where they need more than 16 bits, alone and
// through files of both formats.
static void rounds_many(Case& c) {
  begin(c);
  static const std::vector<uint64_t> v = {65535, 65536, 65537, 70000, 99999, 131071, 131072, 150000};
  uint64_t r = c.index < 8 ? v[c.index] : c.t.chance(1, 2) ? c.t.of(v) : 65536 + c.t.below(c.thorough ? 1000000 : 100000);
  gen::Cred cr = gen::cred(c.t);
  Key k = make_key(c, cr);
  c.describe(std::to_string(r) + " rounds, " + cr.describe());
  c.nontrivial(r);
  compare(k, comps(cr), c.t.bytes(32), r, "rounds", cr.describe());
  bool kdb = c.index % 2;
  model::Db db;
  db.master_seed = c.t.bytes(kdb ? 16 : 32);
  db.tseed = c.t.bytes(32);
  db.iv = c.t.bytes(16);
  db.rounds = r;
  model::Group g;
  g.name = "g";
  db.root.groups.push_back(g);
  if (kdb) db.root.uuid = Bytes(16, '\0');
  std::string p = c.dir + "/f";
  auto lib = bridge::to_db(db, !kdb);
  Outcome o = kdb ? export_kdb(p, *lib, k) : export_kdbx(p, *lib, k);
  PBT_REQUIRE(o.ok(), "export-failed", o.str());
  try {
    uint64_t got = kdb ? ref::read_kdb(bridge::read_file(p), comps(cr)).rounds : ref::read_kdbx(bridge::read_file(p), comps(cr)).db.rounds;
    PBT_REQUIRE(got == r, "rounds-in-file", "the file says " << got << " rounds instead of " << r);
  } catch (const ref::Error& e) { pbt::fail("reference-derivation", std::string("file does not open under the reference key derivation: ") + e.what()); }
  Imported i = kdb ? import_kdb(p, k) : import_kdbx(p, k);
  PBT_REQUIRE(i.ok(), "import-failed", r << " rounds: " << i.str());
  PBT_REQUIRE(i.db->transform_rounds() == r, "rounds-imported", "imported as " << i.db->transform_rounds() << " rounds instead of " << r);
}

static std::string invalid_keyfile(Case& c, std::string& what) {
  Bytes k32 = c.t.bytes(32);
  auto xml = [](const std::string& data) { return "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Key>\n\t\t<Data>" + data + "</Data>\n\t</Key>\n</KeyFile>"; };
  switch (c.t.below(13)) {
    case 0: {  // wrong size
      size_t n = c.t.below(70);
      if (n == 32) n = 33;
      what = "XML key of " + std::to_string(n) + " bytes";
      return xml(ref::b64(c.t.bytes(n)));
    }
    case 1: {
      std::string b = ref::b64(k32);
      static const std::vector<char> bad = {'!', '-', '_', '@', '\x01', '.', ','};
      b[c.t.below(b.size())] = c.t.of(bad);
      what = "XML key with a character that is not base64";
      return xml(b);
    }
    case 2: {
      std::string b = ref::b64(k32);
      b.erase(c.t.below(43), 1 + c.t.below(3));
      what = "XML key with missing base64 characters";
      return xml(b);
    }
    case 3: what = "XML without Key"; return "<KeyFile><Meta/></KeyFile>";
    case 4: what = "XML without Data"; return "<KeyFile><Key></Key></KeyFile>";
    case 5: what = "XML with another root"; return "<KeyFil><Key><Data>" + ref::b64(k32) + "</Data></Key></KeyFil>";
    case 6: {
      std::string x = xml(ref::b64(k32));
      what = "XML cut off";
      return x.substr(0, 40 + c.t.below(x.size() - 45));
    }
    case 7: {
      size_t n = c.t.below(200);
      if (n == 64) n = 63;
      std::string s;
      pbt::SplitMix r = c.t.sub();
      for (size_t i = 0; i < n; ++i) s += "0123456789abcdefABCDEF"[r.next() % 22];
      what = std::to_string(n) + " hex digits";
      return s;
    }
    case 8: {
      std::string s = gen::keyfile_text(c.t, k32, true);
      static const std::vector<char> bad = {'g', 'G', ' ', '+', '-', 'x', '\0', '@', '`', '/', ':', '\xff', '\n'};
      char b = c.t.of(bad);
      size_t p = c.t.below(64);
      s[p] = b;
      what = "hex with a foreign character at " + std::to_string(p);
      return s;
    }
    case 9: {
      std::string s = gen::keyfile_text(c.t, k32, true);
      what = "hex followed by more";
      return s + (c.t.chance(1, 2) ? "\n" : "00");
    }
    case 10: {
      std::string s = gen::keyfile_text(c.t, k32, true);
      s[0] = '0'; s[1] = c.t.chance(1, 2) ? 'x' : 'X';
      what = "hex with 0x prefix";
      return s;
    }
    case 11: what = "empty file"; return "";
    default: {
      std::string s = c.t.bytes(c.t.chance(1, 3) ? 64 : c.t.below(100));
      bool all = s.size() == 64;
      for (unsigned char ch : s) all = all && isxdigit(ch);
      if (all) s[0] = 'z';
      if (!s.empty() && s[0] == '<') s[0] = 'z';
      what = "binary file of " + std::to_string(s.size()) + " bytes";
      return s;
    }
  }
}

static void bad_file(Case& c) {
  begin(c);
  Key k;
  ref::Components cp;
  std::string log;
  size_t n = 1 + c.t.below(2);
  for (size_t i = 0; i < n; ++i) apply(c, k, cp, log);
  std::string what, p = key_path(c), text;
  size_t special = c.t.pick({12, 1, 1});
  if (special == 1) { what = "missing file"; ::unlink(p.c_str()); }
  else if (special == 2) { what = "directory"; p = c.dir; }
  else { text = invalid_keyfile(c, what); bridge::write_file(p, text); }
  c.describe(what + " after" + log);
  c.label("bad:" + what.substr(0, what.find_first_of("0123456789")));
  c.nontrivial(what + text);
  Outcome o = guarded([&] { k.SetKeyFile(p); });
  PBT_REQUIRE(!o.ok(), "bad-keyfile-accepted", what << " was accepted as key file: " << pbt::quote(text, 300));
  PBT_REQUIRE(o.kind != kUnknown, "bad-keyfile-exception", what << ": not a standard exception");
  if (special == 1) PBT_REQUIRE(o.kind == kNotFound, "missing-keyfile", "missing key file reported as " << o.str());
  compare(k, cp, c.t.bytes(32), c.t.below(20), "key-changed", "after the rejected key file (" + what + ")");
  // The key is still usable for further operations.
  apply(c, k, cp, log);
  compare(k, cp, c.t.bytes(32), 1, "key-after-failure", "after a rejected key file and" + log);
}

// Deriving the same key again gives the same result and leaves the key alone;
// databases written with it open under the reference derivation.
static void in_file(Case& c) {
  begin(c);
  gen::Cred cr = gen::cred(c.t);
  Key k = make_key(c, cr);
  model::Db db;
  db.master_seed = c.t.bytes(32);
  db.tseed = c.t.bytes(32);
  db.iv = c.t.bytes(16);
  db.rounds = c.t.below(200);
  db.root.uuid = gen::uuid_from(7, 7);
  bool kdb = c.t.chance(1, 2);
  c.label(kdb ? "kdb" : "kdbx");
  c.describe(std::string(kdb ? "kdb " : "kdbx ") + cr.describe() + " rounds " + std::to_string(db.rounds));
  c.nontrivial(cr.pw + cr.kf + db.tseed);
  std::string p = c.dir + "/f";
  if (kdb) {
    db.master_seed.resize(16);
    db.cipher = c.t.below(2);
    model::Group g;
    g.name = "g";
    db.root.groups.push_back(g);
    db.root.uuid = Bytes(16, '\0');
    Outcome o = export_kdb(p, *bridge::to_db(db, false), k);
    PBT_REQUIRE(o.ok(), "export-failed", o.str());
    try { ref::read_kdb(bridge::read_file(p), comps(cr)); }
    catch (const ref::Error& e) { pbt::fail("reference-derivation", std::string("file does not open under the reference key derivation: ") + e.what()); }
  } else {
    Outcome o = export_kdbx(p, *bridge::to_db(db), k);
    PBT_REQUIRE(o.ok(), "export-failed", o.str());
    try { ref::read_kdbx(bridge::read_file(p), comps(cr)); }
    catch (const ref::Error& e) { pbt::fail("reference-derivation", std::string("file does not open under the reference key derivation: ") + e.what()); }
  }
  compare(k, comps(cr), c.t.bytes(32), 2, "key-after-export", "key after export");
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C05";
  k.rule = "distinct (component keys, seed, rounds); distinct rejected key-file contents; distinct round counts";
  k.assumptions = {"SHA-256 and AES of the reference come from OpenSSL's EVP interface",
                   "round counts up to 80000 are executed; counts of 2^32 and more cannot be run to completion"};
  k.subs = {{"derive", 9000, 250000, derive}, {"rounds", 600, 600, rounds_seq, true}, {"rounds-many", 16, 120, rounds_many, false, 120}, {"bad-file", 6000, 200000, bad_file}, {"in-file", 1500, 40000, in_file}};
  return pbt::run_check(k, argc, argv);
}
