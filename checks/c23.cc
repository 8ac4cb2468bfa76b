// C23: files of another kind, or that need what the library does not have, are
// refused as such.
#include "common.hh"
using namespace harness;

namespace {
model::Db any_db(Case& c, bool kdb) {
  gen::Opt o;
  o.kdb = kdb;
  o.strict_xml = true;
  o.max_groups = 5;
  o.max_entries = 4;
  pbt::set_tz("UTC0");
  model::Db m = gen::db(c.t, o);
  m.rounds %= 5;
  return m;
}
gen::Cred other_cred(Case& c, const gen::Cred& cr) {
  gen::Cred x = simple_cred();
  switch (c.t.below(3)) {
    case 0: return cr;
    case 1: x.pw = "another password"; return x;
    default: return gen::cred(c.t);
  }
}
// The file sealed with the given header; everything else in order.
Bytes seal(const model::Db& m, const ref::RawKdbx& r, const ref::KdbxStyle& st, pbt::SplitMix& rng, const ref::Components& key) {
  ref::Node doc = ref::kdbx_doc(m, st, rng);
  std::string hh = ref::b64(ref::sha256(ref::header_bytes(r)));
  for (auto& n : doc.kids) if (n.name == "Meta") for (auto& k : n.kids) if (k.name == "HeaderHash") k.text = hh;
  ref::obfuscate(doc, m.iks);
  Bytes xml = ref::write_xml(doc, st.xml, rng);
  Bytes inner = m.compress ? ref::gzip(xml) : xml;
  return ref::seal_kdbx(r, ref::hash_blocks(inner, st.blocks), key);
}
ref::HeaderField& field(ref::RawKdbx& r, int id) {
  for (auto& f : r.fields) if (f.id == id) return f;
  pbt::discard();
}
// A value other than the ones that mean something.
uint32_t wrong32(Case& c, const std::vector<uint32_t>& good, const std::vector<uint32_t>& near) {
  for (int i = 0; i < 50; ++i) {
    uint32_t v;
    switch (c.t.below(4)) {
      case 0: v = c.t.of(near); break;
      case 1: v = c.t.of(good) ^ (1u << c.t.below(32)); break;
      case 2: v = c.t.of(good) | (uint32_t(c.t.below(0)) << (8 * (1 + c.t.below(3)))); break;
      default: v = uint32_t(c.t.below(0)); break;
    }
    if (std::find(good.begin(), good.end(), v) == good.end()) return v;
  }
  return near[0];
}
void refused(const Outcome& o, const std::string& what) {
  PBT_REQUIRE(!o.ok(), "accepted", what << " was imported as a database");
  PBT_REQUIRE(o.kind == kFormat, std::string("error-") + kind_name(o.kind), what << " was refused with " << o.str() << " instead of a format error");
}
}  // namespace

static void kdbx(Case& c) {
  begin(c);
  model::Db m = any_db(c, false);
  gen::Cred cr = gen::cred(c.t);
  pbt::SplitMix rng = c.t.sub();
  ref::KdbxStyle st = ref::gen_kdbx_style(c.t);
  ref::RawKdbx r = ref::raw_header(m, st, rng);
  std::string what;
  static const char* const names[] = {"signature", "version", "cipher", "compression", "inner stream", "header field"};
  size_t kind = c.t.below(6);
  switch (kind) {
    case 0:
      if (c.t.chance(1, 2)) r.sig1 = wrong32(c, {r.sig1}, {0xb54bfb65, 0xb54bfb66, 0xb54bfb68, 0});
      else r.sig0 = wrong32(c, {r.sig0}, {0x9aa2d902, 0xb54bfb67, 0});
      what = pbt::hex(ref::header_bytes(r).substr(0, 8));
      break;
    case 1: {
      static const std::vector<uint32_t> v = {0x00040000, 0x00040001, 0x00040100, 0x00050000, 0x00060003, 0x000f0001, 0x00100001, 0x01000001, 0x03000100, 0x7fff0001, 0x80030001, 0xffff0001, 0xffffffff};
      r.version = c.t.of(v);
      if (c.t.chance(1, 2)) r.version = ((4 + uint32_t(c.t.below(0xfffc))) << 16) | uint32_t(c.t.below(0x10000));
      what = std::to_string(r.version >> 16) + "." + std::to_string(r.version & 0xffff);
      break;
    }
    case 2: {
      ref::HeaderField& f = field(r, 2);
      Bytes old = f.data;
      static const std::vector<Bytes> known = {
          Bytes("\xad\x68\xf2\x9f\x57\x6f\x4b\xb9\xa3\x6a\xd4\x7a\xf9\x65\x34\x6c", 16),  // Twofish
          Bytes("\xd6\x03\x8a\x2b\x8b\x6f\x4c\xb5\xa5\x24\x33\x9a\x31\xdb\xb5\x9a", 16),  // ChaCha20
          Bytes(16, '\0'), Bytes(16, '\xff')};
      switch (c.t.below(4)) {
        case 0: f.data = c.t.of(known); break;
        case 1: f.data[c.t.below(16)] ^= char(1 << c.t.below(8)); break;
        case 2: { size_t n = 1 + c.t.below(15); Bytes z = c.t.bytes(16); f.data = f.data.substr(0, n) + z.substr(n); break; }
        default: f.data = c.t.bytes(16); break;
      }
      if (f.data == old) f.data[15] ^= 1;
      what = pbt::hex(f.data);
      break;
    }
    case 3: {
      uint32_t v = wrong32(c, {0, 1}, {2, 3, 255, 256, 257, 0x10000, 0x10001, 0x80000000, 0xffffffff});
      Bytes b;
      ref::put32(b, v);
      field(r, 3).data = b;
      what = std::to_string(v);
      break;
    }
    case 4: {
      uint32_t v = wrong32(c, {2}, {0, 1, 3, 4, 258, 0x10002, 0x80000002, 0xffffffff});
      Bytes b;
      ref::put32(b, v);
      field(r, 10).data = b;
      what = std::to_string(v);
      break;
    }
    default: {
      static const std::vector<size_t> sizes = {0, 1, 4, 16, 32, 255, 256, 1000, 65535};
      ref::HeaderField f{11 + int(c.t.below(c.t.chance(1, 2) ? 3 : 245)), c.t.bytes(c.t.of(sizes))};
      r.fields.insert(r.fields.begin() + long(c.t.below(r.fields.size() + 1)), f);
      what = std::to_string(f.id) + " of " + std::to_string(f.data.size()) + " bytes";
      break;
    }
  }
  what = "a KDBX file with " + std::string(names[kind]) + " " + what;
  Bytes f = seal(m, r, st, rng, comps(cr));
  std::string p = c.dir + "/f";
  bridge::write_file(p, f);
  gen::Cred with = other_cred(c, cr);
  keepass::KdbxFile file;
  refused(import_kdbx(p, make_key(c, with), c.t.chance(1, 3) ? &file : nullptr), what);
  c.eval();
  c.label(names[kind]);
  c.describe(what + ", " + model::shape(m));
  c.nontrivial(f.substr(0, 300));
}

static void kdb(Case& c) {
  begin(c);
  model::Db m = any_db(c, true);
  gen::Cred cr = gen::cred(c.t);
  pbt::SplitMix rng = c.t.sub();
  ref::KdbRaw r = ref::kdb_records(m, ref::gen_kdb_style(c.t), rng);
  std::string what;
  static const char* const names[] = {"signature", "version", "cipher"};
  size_t kind = c.t.below(3);
  switch (kind) {
    case 0:
      if (c.t.chance(1, 2)) r.sig1 = wrong32(c, {r.sig1}, {0xb54bfb64, 0xb54bfb66, 0xb54bfb67, 0});
      else r.sig0 = wrong32(c, {r.sig0}, {0x9aa2d902, 0xb54bfb65, 0});
      what = std::to_string(r.sig0) + "," + std::to_string(r.sig1);
      break;
    case 1: {
      static const std::vector<uint32_t> v = {0, 1, 0x00010001, 0x00010002, 0x00020000, 0x00020001, 0x00020002, 0x00030100, 0x00030200, 0x00038000, 0x00040000, 0x00040002, 0x01030002, 0x80030002, 0xffffffff};
      r.version = c.t.of(v);
      if (c.t.chance(1, 3)) { r.version = uint32_t(c.t.below(0)); if ((r.version & 0xffffff00u) == 0x00030000u) r.version ^= 0x100; }
      what = std::to_string(r.version);
      break;
    }
    default:
      // Neither of the two ciphers.
      r.flags = uint32_t(c.t.below(0));
      if (c.t.chance(1, 2)) r.flags = uint32_t(c.t.below(32));
      r.flags &= ~10u;
      what = std::to_string(r.flags);
      break;
  }
  what = "a KDB file with " + std::string(names[kind]) + " " + what;
  std::string p = c.dir + "/f";
  Bytes f = ref::seal_kdb(r, ref::kdb_content(r), comps(cr));
  bridge::write_file(p, f);
  refused(import_kdb(p, make_key(c, other_cred(c, cr))), what);
  c.eval();
  c.label(names[kind]);
  c.describe(what + ", " + model::shape(m));
  c.nontrivial(f.substr(0, 200));
}

// Files that are something else, and files that are not there.
static void foreign(Case& c) {
  begin(c);
  bool kdb = c.t.chance(1, 2);
  size_t head = kdb ? 124 : 12;
  std::string p = c.dir + "/f", what;
  Bytes f;
  gen::Cred cr = gen::cred(c.t);
  pbt::SplitMix rng = c.t.sub();
  auto own = [&](bool k) {
    model::Db m = any_db(c, k);
    return k ? ref::write_kdb(m, comps(cr), ref::gen_kdb_style(c.t), rng) : ref::write_kdbx(m, comps(cr), ref::gen_kdbx_style(c.t), rng);
  };
  size_t kind = c.t.below(6);
  switch (kind) {
    case 0: f = own(!kdb); what = "a file of the other format"; break;
    case 1: f = own(kdb); f.resize(c.t.below(head)); what = "the first " + std::to_string(f.size()) + " bytes of a file"; break;
    case 2: f = c.t.bytes(c.t.below(3000)); if (f.size() >= 4 && f.substr(0, 4) == Bytes("\x03\xd9\xa2\x9a", 4)) f[0] = 0; what = "arbitrary bytes"; break;
    case 3: { static const std::vector<Bytes> v = {"", "\n", "<?xml version=\"1.0\"?><KeePassFile/>", "PK\x03\x04", "{}", "%PDF-1.4"}; f = c.t.of(v); what = "a text"; break; }
    case 4: { f = own(kdb); size_t n = 1 + c.t.below(20); f = c.t.chance(1, 2) ? Bytes(n, '\0') + f : f.substr(n); what = "a shifted file"; break; }
    default: {
      std::string q = c.dir + (c.t.chance(1, 2) ? "/missing" : "/no/such/dir");
      if (c.t.chance(1, 5)) q = "";
      keepass::Key key = make_key(c, cr);
      Outcome o = kdb ? Outcome(import_kdb(q, key)) : Outcome(import_kdbx(q, key));
      PBT_REQUIRE(o.kind == kNotFound, "missing", "a file that does not exist is reported as " << o.str());
      if (c.t.chance(1, 2)) {
        Outcome k = guarded([&] { key.SetKeyFile(q); });
        PBT_REQUIRE(k.kind == kNotFound, "missing", "a key file that does not exist is reported as " << k.str());
      }
      c.label("missing");
      return;
    }
  }
  bridge::write_file(p, f);
  what += kdb ? " imported as KDB" : " imported as KDBX";
  keepass::Key key = make_key(c, cr);
  refused(kdb ? Outcome(import_kdb(p, key)) : Outcome(import_kdbx(p, key)), what);
  c.label(what.substr(0, what.find_first_of("0123456789")));
  c.describe(what);
  c.nontrivial(f + (kdb ? "1" : "2"));
}

// What must not be refused: minor versions and marks without meaning.
static void accepted(Case& c) {
  begin(c);
  bool kdb = c.t.chance(1, 2);
  model::Db m = any_db(c, kdb);
  gen::Cred cr = gen::cred(c.t);
  pbt::SplitMix rng = c.t.sub();
  std::string p = c.dir + "/f", what;
  keepass::Key key = make_key(c, cr);
  if (kdb) {
    ref::KdbRaw r = ref::kdb_records(m, ref::gen_kdb_style(c.t), rng);
    r.version = 0x00030000 | uint32_t(c.t.below(256));
    r.flags = (uint32_t(c.t.below(0)) & ~10u) | (m.cipher ? 8 : 2);
    what = "version " + std::to_string(r.version) + " flags " + std::to_string(r.flags);
    bridge::write_file(p, ref::seal_kdb(r, ref::kdb_content(r), comps(cr)));
  } else {
    ref::KdbxStyle st = ref::gen_kdbx_style(c.t);
    ref::RawKdbx r = ref::raw_header(m, st, rng);
    r.version = 0x00030000 | uint32_t(c.t.chance(1, 2) ? c.t.below(6) : c.t.below(0x10000));
    what = "version " + std::to_string(r.version);
    for (size_t n = c.t.below(3); n--;) {
      ref::HeaderField f{1, c.t.bytes(c.t.below(300))};
      r.fields.insert(r.fields.begin() + long(c.t.below(r.fields.size() + 1)), f);
      what += " comment";
    }
    bridge::write_file(p, seal(m, r, st, rng, comps(cr)));
  }
  Imported i = kdb ? import_kdb(p, key) : import_kdbx(p, key);
  c.eval();
  PBT_REQUIRE(i.ok(), "refused", (kdb ? "a KDB" : "a KDBX") << " file with " << what << " was refused: " << i.str());
  if (kdb) same_kdb(m, *i.db, "imported", "database with " + what);
  else same_kdbx(m, *i.db, "imported", "database with " + what);
  c.label(kdb ? "kdb" : "kdbx");
  c.describe(what);
  c.nontrivial(what + model::dump(m));
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C23";
  k.rule = "distinct headers or files handed to an importer";
  k.assumptions = {"files whose header declares a supported cipher, but lack other header fields, are not judged here", "KDB files that declare both ciphers are not judged"};
  k.subs = {{"kdbx", 4000, 120000, kdbx}, {"kdb", 4000, 120000, kdb}, {"foreign", 2500, 60000, foreign}, {"accepted", 1500, 40000, accepted}};
  return pbt::run_check(k, argc, argv);
}
