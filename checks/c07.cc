// C07: damaged or truncated files are never read as a different database.
#include <algorithm>

#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
struct Fmt { bool kdb; const char* name() const { return kdb ? "kdb" : "kdbx"; } };

Imported import(bool kdb, const std::string& p, const Key& k) { return kdb ? import_kdb(p, k) : import_kdbx(p, k); }

struct Saved {
  bool kdb = false;
  gen::Cred cr;
  Key key;
  Bytes file;
  std::string path, dump, what;
  const model::DumpOpt& opt() const { return kdb ? kKdbDump : kKdbxDump; }
};

model::Db small_db(Case& c, bool kdb, size_t big, size_t mg, size_t me) {
  gen::Opt o;
  o.kdb = kdb;
  o.strict_xml = true;
  o.big = big;
  o.max_groups = mg;
  o.max_entries = me;
  model::Db db = gen::db(c.t, o);
  db.rounds = 1 + db.rounds % 20;  // without rounds the transform seed has no meaning
  return db;
}

Saved save(Case& c, bool kdb, size_t big, size_t mg, size_t me) {
  Saved s;
  s.kdb = kdb;
  model::Db db = small_db(c, kdb, big, mg, me);
  s.cr = c.t.chance(2, 3) ? simple_cred() : gen::cred(c.t);
  s.key = make_key(c, s.cr);
  s.path = c.dir + "/f";
  s.what = std::string(kdb ? "kdb " : "kdbx ") + model::shape(db);
  if (c.t.chance(1, 4)) {
    pbt::SplitMix rng = c.t.sub();
    s.file = kdb ? ref::write_kdb(db, comps(s.cr), ref::gen_kdb_style(c.t), rng) : ref::write_kdbx(db, comps(s.cr), ref::gen_kdbx_style(c.t), rng);
    bridge::write_file(s.path, s.file);
    c.label("writer:reference");
  } else {
    Outcome e = kdb ? export_kdb(s.path, *bridge::to_db(db, false), s.key) : export_kdbx(s.path, *bridge::to_db(db), s.key);
    PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
    s.file = bridge::read_file(s.path);
  }
  Imported i = import(kdb, s.path, s.key);
  PBT_REQUIRE(i.ok(), "undamaged-rejected", "undamaged " << s.what << " file rejected: " << i.str());
  s.dump = model::dump(bridge::from_db(*i.db), s.opt());
  c.label(kdb ? (db.cipher ? "kdb-twofish" : "kdb-aes") : db.compress ? "kdbx-gzip" : "kdbx-plain");
  return s;
}

// Imports the damaged bytes: an error or the saved database.
void judge(Case& c, const Saved& s, const Bytes& bad, const std::string& what) {
  if (rounds_of(s.kdb, bad) > 200000) return;
  bridge::write_file(s.path, bad);
  c.eval();
  Imported i = import(s.kdb, s.path, s.key);
  PBT_REQUIRE(i.kind != kUnknown, "not-std-exception", what << ": exception of an unknown type");
  if (!i.ok()) { c.label("rejected"); return; }
  std::string got = model::dump(bridge::from_db(*i.db), s.opt());
  c.label("read as saved");
  PBT_REQUIRE(got == s.dump, "different-database", s.what << " damaged (" << what << ") was read as another database: " << pbt::first_diff(s.dump, got));
}

std::string mutate(Case& c, Bytes& f) {
  std::string what;
  size_t n = 1 + c.t.pick({6, 2, 1});
  for (size_t i = 0; i < n; ++i) {
    if (f.empty()) break;
    // Concentrate on the header half of the time.
    size_t zone = c.t.chance(1, 3) ? std::min<size_t>(f.size(), 300) : f.size();
    size_t p = c.t.below(zone);
    switch (c.t.below(9)) {
      case 0: { int b = c.t.below(8); f[p] ^= 1 << b; what += "flip bit " + std::to_string(b) + " of byte " + std::to_string(p) + "; "; break; }
      case 1: { f[p] = char(c.t.below(256)); what += "set byte " + std::to_string(p) + "; "; break; }
      case 2: { size_t k = 1 + c.t.below(40); for (size_t j = p; j < f.size() && j < p + k; ++j) f[j] = char(c.t.below(256)); what += "overwrite " + std::to_string(k) + " at " + std::to_string(p) + "; "; break; }
      case 3: f.resize(p); what += "truncate to " + std::to_string(p) + "; "; break;
      case 4: { size_t k = (f.size() - p) / 16 * 16; size_t q = f.size() - c.t.below(k / 16 + 1) * 16; f.resize(q); what += "drop last blocks to " + std::to_string(q) + "; "; break; }
      case 5: { Bytes x = c.t.bytes(1 + c.t.below(70)); f += x; what += "append " + std::to_string(x.size()) + "; "; break; }
      case 6: {
        // Swap, drop or repeat 16-byte cipher blocks, aligned to the end.
        size_t nb = f.size() / 16;
        if (nb < 2) break;
        size_t a = f.size() - 16 * (1 + c.t.below(nb)), b = f.size() - 16 * (1 + c.t.below(nb));
        switch (c.t.below(3)) {
          case 0: for (int j = 0; j < 16; ++j) std::swap(f[a + j], f[b + j]); what += "swap blocks; "; break;
          case 1: f.erase(a, 16); what += "drop block; "; break;
          default: f.insert(a, f.substr(b, 16)); what += "repeat block; "; break;
        }
        break;
      }
      case 7: { size_t k = 1 + c.t.below(20); f.erase(p, k); what += "erase " + std::to_string(k) + " at " + std::to_string(p) + "; "; break; }
      default: { size_t k = 1 + c.t.below(20); f.insert(p, c.t.bytes(k)); what += "insert " + std::to_string(k) + " at " + std::to_string(p) + "; "; break; }
    }
  }
  return what;
}
}  // namespace

static void raw(Case& c) {
  begin(c);
  Saved s = save(c, c.t.chance(1, 2), 0, 5, 4);
  std::string list;
  size_t n = 4 + c.t.below(12);
  for (size_t i = 0; i < n; ++i) {
    Bytes bad = s.file;
    std::string what = mutate(c, bad);
    if (bad == s.file) continue;
    if (i < 3) list += " | " + what;
    c.nontrivial(bad);
    judge(c, s, bad, what);
  }
  c.describe(s.what + list + " ... " + std::to_string(n) + " damages");
}

// Every truncation point and every single-bit flip of one small file.
static void sweep(Case& c) {
  begin(c);
  Saved s = save(c, c.t.chance(1, 2), 0, 2, 2);
  // Twofish is slow here.
  size_t lim = (c.thorough ? 6000 : 2500) / (s.kdb && s.file[8] & 8 ? 4 : 1);
  if (s.file.size() > lim) pbt::discard();
  for (size_t n = 0; n < s.file.size(); ++n) judge(c, s, s.file.substr(0, n), "truncated to " + std::to_string(n) + " bytes");
  size_t step = c.thorough ? 1 : 3;
  for (size_t b = c.t.below(step); b < s.file.size() * 8; b += step) {
    Bytes bad = s.file;
    bad[b / 8] ^= 1 << (b % 8);
    judge(c, s, bad, "bit " + std::to_string(b % 8) + " of byte " + std::to_string(b / 8) + " flipped");
  }
  c.label("sweep");
  c.nontrivial(s.file);
  c.describe(s.what + ": all truncations, bit flips (step " + std::to_string(step) + ") of " + std::to_string(s.file.size()) + " bytes");
}

// --- damage below the encryption: KDBX ------------------------------------
namespace {
struct Block { uint32_t index; Bytes hash; uint32_t size; Bytes data; };
std::vector<Block> split(const Bytes& framed) {
  std::vector<Block> v;
  size_t p = 0;
  while (p + 40 <= framed.size()) {
    Block b;
    b.index = ref::get32(framed, p);
    b.hash = framed.substr(p + 4, 32);
    b.size = ref::get32(framed, p + 36);
    b.data = framed.substr(p + 40, b.size);
    p += 40 + b.data.size();
    v.push_back(b);
  }
  return v;
}
Bytes join(const std::vector<Block>& v) {
  Bytes o;
  for (auto& b : v) { ref::put32(o, b.index); o += b.hash; ref::put32(o, b.size); o += b.data; }
  return o;
}
}  // namespace

static void inner_kdbx(Case& c) {
  begin(c);
  Saved s;
  model::Db db = small_db(c, false, c.t.chance(1, 6) ? 60000 : 0, 5, 4);
  s.cr = simple_cred();
  s.key = make_key(c, s.cr);
  s.path = c.dir + "/f";
  Outcome e = export_kdbx(s.path, *bridge::to_db(db), s.key);
  PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
  s.what = "kdbx " + model::shape(db);
  s.file = bridge::read_file(s.path);
  s.dump = model::dump(db, kKdbxDump);
  ref::KdbxInfo info;
  try { info = ref::read_kdbx(s.file, comps(s.cr)); }
  catch (const ref::Error& x) { pbt::fail("not-valid-kdbx", x.what()); }
  Bytes fk = ref::final_key(db.master_seed, ref::transform(ref::composite_kdbx(comps(s.cr)), db.tseed, db.rounds));
  auto seal = [&](const Bytes& framed) { return info.header + ref::aes_cbc_encrypt(fk, info.db.iv, info.start_bytes + framed); };
  Bytes inner = ref::unhash_blocks(info.payload);
  std::vector<size_t> sizes;
  if (c.t.chance(3, 4)) { size_t base = 1 + inner.size() / (1 + c.t.below(8)); sizes = {base, std::max<size_t>(1, base / 3)}; }
  Bytes framed = ref::hash_blocks(inner, sizes);
  c.label(db.compress ? "gzip" : "plain");
  judge(c, s, seal(framed), "nothing (re-encrypted)");
  std::string list;
  size_t n = 3 + c.t.below(8);
  for (size_t k = 0; k < n; ++k) {
    std::string what;
    Bytes f2;
    size_t kind = c.t.below(db.compress ? 11 : 8);
    std::vector<Block> v = split(framed);
    size_t i = c.t.below(v.size());
    switch (kind) {
      case 0: { size_t p = c.t.below(framed.size() * 8); f2 = framed; f2[p / 8] ^= 1 << (p % 8); what = "bit flip in framed content at byte " + std::to_string(p / 8) + " of " + std::to_string(framed.size()); break; }
      case 1: { size_t p = c.t.below(framed.size()); f2 = framed.substr(0, p); what = "framed content cut at " + std::to_string(p) + " of " + std::to_string(framed.size()); break; }
      case 2: {  // whole blocks
        size_t j = c.t.below(v.size());
        switch (c.t.below(4)) {
          case 0: std::swap(v[i], v[j]); what = "blocks " + std::to_string(i) + "," + std::to_string(j) + " swapped"; break;
          case 1: v.erase(v.begin() + i); what = "block " + std::to_string(i) + " dropped"; break;
          case 2: { Block b = v[i]; v.insert(v.begin() + j, b); what = "block " + std::to_string(i) + " repeated at " + std::to_string(j); break; }
          default: std::swap(v[i].data, v[j].data); std::swap(v[i].size, v[j].size); what = "contents of blocks " + std::to_string(i) + "," + std::to_string(j) + " swapped"; break;
        }
        f2 = join(v);
        break;
      }
      case 3: {  // header fields of one block
        switch (c.t.below(4)) {
          case 0: v[i].index += c.t.chance(1, 2) ? 1 : 0xffffffffu; break;
          case 1: v[i].hash[c.t.below(32)] ^= 1 << c.t.below(8); break;
          case 2: v[i].size += c.t.chance(1, 2) ? 1 + c.t.below(50) : 0u - 1 - c.t.below(50); break;
          default: v[i].size = 0; break;
        }
        f2 = join(v);
        what = "header of block " + std::to_string(i) + " changed";
        break;
      }
      case 4: {  // an early end block
        Block b{uint32_t(i), Bytes(32, '\0'), 0, ""};
        v.insert(v.begin() + i, b);
        if (i + 1 == v.size() - 0) what = "";
        f2 = join(v);
        what = "end block inserted before block " + std::to_string(i);
        break;
      }
      case 5: {  // data beyond the end block
        f2 = framed + c.t.bytes(1 + c.t.below(60));
        what = "data after the end block";
        break;
      }
      case 6: {  // consistently framed, shortened payload
        size_t p = c.t.below(inner.size());
        f2 = ref::hash_blocks(inner.substr(0, p), sizes);
        what = "payload cut at " + std::to_string(p) + " of " + std::to_string(inner.size()) + ", frames valid";
        break;
      }
      case 7: {  // start bytes
        Bytes sb = info.start_bytes;
        sb[c.t.below(32)] ^= 1 << c.t.below(8);
        what = "start bytes changed";
        c.nontrivial(sb + framed);
        judge(c, s, info.header + ref::aes_cbc_encrypt(fk, info.db.iv, sb + framed), what);
        continue;
      }
      case 8: {
        Bytes g = inner;
        size_t p = c.t.below(g.size() * 8);
        g[p / 8] ^= 1 << (p % 8);
        f2 = ref::hash_blocks(g, sizes);
        what = "bit flip in gzip data at byte " + std::to_string(p / 8) + " of " + std::to_string(g.size()) + ", frames valid";
        break;
      }
      case 9: {
        Bytes g = inner;
        size_t p = c.t.below(g.size()), q = c.t.below(g.size() - p) + 1;
        g.erase(p, std::min<size_t>(q, 1 + c.t.below(64)));
        f2 = ref::hash_blocks(g, sizes);
        what = "gzip data with bytes missing at " + std::to_string(p) + ", frames valid";
        break;
      }
      default: {
        // Uncompressed size or CRC in the trailer.
        Bytes g = inner;
        size_t p = g.size() - 1 - c.t.below(8);
        g[p] ^= 1 << c.t.below(8);
        f2 = ref::hash_blocks(g, sizes);
        what = "gzip trailer damaged, frames valid";
        break;
      }
    }
    if (f2 == framed) continue;
    c.label("kind:" + std::to_string(kind));
    c.nontrivial(f2);
    if (k < 3) list += " | " + what;
    judge(c, s, seal(f2), what);
  }
  c.describe(s.what + list);
}

// A header that was altered, with everything below it re-encrypted to match:
// only the header hash inside the content tells.
static void header_kdbx(Case& c) {
  begin(c);
  Saved s;
  model::Db db = small_db(c, false, 0, 4, 4);
  s.cr = simple_cred();
  s.key = make_key(c, s.cr);
  s.path = c.dir + "/f";
  Outcome e = export_kdbx(s.path, *bridge::to_db(db), s.key);
  PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
  s.what = "kdbx " + model::shape(db);
  s.file = bridge::read_file(s.path);
  s.dump = model::dump(db, kKdbxDump);
  ref::KdbxInfo info;
  try { info = ref::read_kdbx(s.file, comps(s.cr)); }
  catch (const ref::Error& x) { pbt::fail("not-valid-kdbx", x.what()); }
  ref::RawKdbx r;
  r.version = info.version;
  r.master_seed = db.master_seed; r.iv = info.db.iv; r.tseed = db.tseed; r.iks = db.iks; r.rounds = db.rounds; r.compress = db.compress;
  r.start_bytes = info.start_bytes;
  for (auto& f : info.fields) if (f.first != 0) r.fields.push_back({f.first, f.second}); else r.eoh = f.second;
  PBT_REQUIRE(ref::seal_kdbx(r, info.payload, comps(s.cr)) == s.file, "harness", "re-sealing does not reproduce the file");
  auto set = [&](int id, const Bytes& v) { for (auto& f : r.fields) if (f.id == id) f.data = v; };
  std::string what;
  switch (c.t.below(9)) {
    case 0: if (r.master_seed.empty()) pbt::discard(); r.master_seed[c.t.below(r.master_seed.size())] ^= 1; set(4, r.master_seed); what = "master seed"; break;
    case 1: r.tseed[c.t.below(32)] ^= 1; set(5, r.tseed); what = "transform seed"; break;
    case 2: { r.rounds += 1 + c.t.below(30); Bytes v; ref::put64(v, r.rounds); set(6, v); what = "rounds"; break; }
    case 3: r.iv[c.t.below(16)] ^= 4; set(7, r.iv); what = "IV"; break;
    case 4: { r.iks[c.t.below(32)] ^= 2; set(8, r.iks); what = "inner key"; break; }
    case 5: r.fields.push_back({1, "comment"}); what = "comment added"; break;
    case 6: { size_t i = c.t.below(r.fields.size()), j = c.t.below(r.fields.size()); if (i == j) j = (i + 1) % r.fields.size(); std::swap(r.fields[i], r.fields[j]); what = "fields reordered"; break; }
    case 7: r.eoh += "x"; what = "end-of-header data"; break;
    default: r.version = 0x00030000; what = "version"; break;
  }
  Bytes payload = info.payload;
  if (c.t.chance(1, 5)) {
    r.compress = !r.compress;
    Bytes v; ref::put32(v, r.compress); set(3, v);
    Bytes inner = ref::unhash_blocks(payload);
    payload = ref::hash_blocks(r.compress ? ref::gzip(inner) : ref::gunzip(inner), {});
    what += ", compression";
  }
  Bytes bad = ref::seal_kdbx(r, payload, comps(s.cr));
  c.nontrivial(bad);
  c.label("header:" + what);
  c.describe(s.what + ": header altered (" + what + ") and content re-encrypted");
  judge(c, s, bad, "header altered (" + what + "), content re-encrypted");
}

// --- damage below the encryption: KDB --------------------------------------
static void inner_kdb(Case& c) {
  begin(c);
  Saved s;
  s.kdb = true;
  model::Db db = small_db(c, true, 0, 6, 6);
  s.cr = simple_cred();
  s.key = make_key(c, s.cr);
  s.path = c.dir + "/f";
  Outcome e = export_kdb(s.path, *bridge::to_db(db, false), s.key);
  PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
  s.what = "kdb " + model::shape(db);
  s.file = bridge::read_file(s.path);
  s.dump = model::dump(db, kKdbDump);
  ref::KdbInfo info;
  try { info = ref::read_kdb(s.file, comps(s.cr)); }
  catch (const ref::Error& x) { pbt::fail("not-valid-kdb", x.what()); }
  Bytes hash = ref::sha256(info.content);
  PBT_REQUIRE(ref::seal_kdb_hash(info, info.content, hash, comps(s.cr)) == s.file, "harness", "re-sealing does not reproduce the file");
  std::string list;
  size_t n = 3 + c.t.below(8);
  for (size_t k = 0; k < n; ++k) {
    std::string what;
    ref::KdbRaw r = info;
    Bytes content = info.content, h = hash;
    bool rehash = false;
    size_t kind = c.t.below(8);
    switch (kind) {
      case 0: if (content.empty()) continue; { size_t p = c.t.below(content.size() * 8); content[p / 8] ^= 1 << (p % 8); what = "content bit " + std::to_string(p); } break;
      case 1: if (content.empty()) continue; { size_t p = c.t.below(content.size()); content.resize(p); what = "content cut to " + std::to_string(p); } break;
      case 2: content += c.t.bytes(1 + c.t.below(40)); what = "content extended"; break;
      case 3: h[c.t.below(32)] ^= 1 << c.t.below(8); what = "content hash changed"; break;
      case 4: r.num_groups += c.t.chance(1, 2) ? 1 : 0xffffffffu; what = "group count " + std::to_string(r.num_groups); break;
      case 5: r.num_entries += c.t.chance(1, 2) ? 1 : 0xffffffffu; what = "entry count " + std::to_string(r.num_entries); break;
      case 6: { int d = c.t.chance(1, 2) ? 1 : -1; r.num_entries += d; r.num_groups -= d; what = "counts shifted by " + std::to_string(d); break; }
      default: {  // cut with a matching hash: the counts still tell
        if (content.empty()) continue;
        size_t p = c.t.below(content.size());
        if (c.t.chance(1, 2)) {  // at a record boundary
          std::vector<size_t> ends;
          size_t q = 0;
          while (q + 6 <= content.size()) { uint32_t ty = ref::get16(content, q); q += 6 + ref::get32(content, q + 2); if (ty == 0xffff) ends.push_back(q); }
          ends.pop_back();
          p = ends.empty() ? 0 : c.t.of(ends);
        }
        content.resize(p);
        rehash = true;
        what = "content cut to " + std::to_string(p) + " with matching hash";
        break;
      }
    }
    // Counts beyond any content take long to reject only if believed.
    if (rehash) h = ref::sha256(content);
    Bytes bad = ref::seal_kdb_hash(r, content, h, comps(s.cr));
    if (bad == s.file) continue;
    c.label("kind:" + std::to_string(kind));
    c.nontrivial(bad);
    if (k < 3) list += " | " + what;
    judge(c, s, bad, what);
  }
  c.describe(s.what + list);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C07";
  k.rule = "distinct damaged files that differ from the saved file (sweep: distinct files swept)";
  k.assumptions = {"damage does not include re-computing the file's own hashes over changed content (a forgery by a key holder), except shortenings",
                   "files have at least one key-transformation round (without any, a KDB file's transform seed is not used)",
                   "damaged headers asking for more than 200000 key-transformation rounds are not run"};
  k.subs = {{"raw", 4000, 120000, raw}, {"sweep", 60, 1500, sweep}, {"inner-kdbx", 2500, 80000, inner_kdbx}, {"header-kdbx", 1500, 40000, header_kdbx}, {"inner-kdb", 2500, 80000, inner_kdb}};
  k.subs[1].cpu_limit_s = 300;
  return pbt::run_check(k, argc, argv);
}
