#include "common.hh"

#include <unistd.h>

namespace harness {
using keepass::Database;
using keepass::Key;

const model::DumpOpt kKdbDump = [] { model::DumpOpt o; o.kdb = true; return o; }();
const model::DumpOpt kKdbxDump = [] { model::DumpOpt o; o.inline_compress = false; return o; }();

const char* kind_name(Kind k) {
  static const char* n[] = {"ok", "FormatError", "PasswordError", "IoError", "FileNotFoundError", "InternalError", "std::exception", "unknown exception"};
  return n[k];
}

Outcome guarded(const std::function<void()>& f) {
  Outcome o;
  try {
    f();
  } catch (const pbt::Failure&) {
    throw;
  } catch (const pbt::Discard&) {
    throw;
  } catch (const keepass::FormatError& e) {
    o.kind = kFormat; o.what = e.what();
  } catch (const keepass::PasswordError& e) {
    o.kind = kPassword; o.what = e.what();
  } catch (const keepass::FileNotFoundError& e) {
    o.kind = kNotFound; o.what = e.what();
  } catch (const keepass::IoError& e) {
    o.kind = kIo; o.what = e.what();
  } catch (const keepass::InternalError& e) {
    o.kind = kInternal; o.what = e.what();
  } catch (const std::exception& e) {
    o.kind = kStdOther; o.what = e.what();
  } catch (...) {
    o.kind = kUnknown;
  }
  return o;
}

Imported import_kdbx(const std::string& path, const Key& key, keepass::KdbxFile* file) {
  Imported r;
  static_cast<Outcome&>(r) = guarded([&] {
    keepass::KdbxFile local;
    r.db = (file ? file : &local)->Import(path, key);
  });
  if (r.ok() && !r.db) pbt::fail("null-database", "Import returned a null database without an error");
  return r;
}
Imported import_kdb(const std::string& path, const Key& key, keepass::KdbFile* file) {
  Imported r;
  static_cast<Outcome&>(r) = guarded([&] {
    keepass::KdbFile local;
    r.db = (file ? file : &local)->Import(path, key);
  });
  if (r.ok() && !r.db) pbt::fail("null-database", "Import returned a null database without an error");
  return r;
}
Outcome export_kdbx(const std::string& path, const Database& db, const Key& key, keepass::KdbxFile* file) {
  return guarded([&] {
    keepass::KdbxFile local;
    (file ? file : &local)->Export(path, db, key);
  });
}
Outcome export_kdb(const std::string& path, const Database& db, const Key& key, keepass::KdbFile* file) {
  return guarded([&] {
    keepass::KdbFile local;
    (file ? file : &local)->Export(path, db, key);
  });
}

Key make_key(Case& c, const gen::Cred& cr) {
  Key k;
  if (cr.has_pw) k.SetPassword(cr.pw);
  if (cr.has_kf) {
    static int n = 0;
    std::string p = c.dir + "/key" + std::to_string(n++);
    std::string hexd;
    if (cr.kf_hex) {
      static const char* d = "0123456789abcdef";
      for (unsigned char b : cr.kf) { hexd += d[b >> 4]; hexd += d[b & 15]; }
    } else
      hexd = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>" +
             ref::b64(cr.kf) + "</Data>\n\t</Key>\n</KeyFile>\n";
    bridge::write_file(p, hexd);
    Outcome o = guarded([&] { k.SetKeyFile(p); });
    ::unlink(p.c_str());
    if (!o.ok()) pbt::fail("keyfile-rejected", "a well-formed key file (" + std::string(cr.kf_hex ? "hex" : "XML") + ") was rejected: " + o.str());
  }
  return k;
}
ref::Components comps(const gen::Cred& cr) { return ref::components(cr.has_pw, cr.pw, cr.has_kf, cr.kf); }
gen::Cred simple_cred() { gen::Cred c; c.has_pw = true; c.pw = "password"; return c; }

// The kind of line that differs: its first word, at whatever depth.
std::string class_of_diff(const std::string& a, const std::string& b) {
  size_t i = 0, line = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') line = i + 1; ++i; }
  auto word = [&](const std::string& s) {
    size_t p = line;
    while (p < s.size() && s[p] == ' ') ++p;
    size_t e = p;
    while (e < s.size() && s[e] != ' ' && s[e] != '\n') ++e;
    return s.substr(p, e - p);
  };
  std::string x = word(a), y = word(b);
  return x == y ? x : x.empty() ? "extra-" + y : y.empty() ? "missing-" + x : x + "/" + y;
}

void same(const std::string& e, const std::string& g, const std::string& key, const std::string& what) {
  if (e == g) return;
  pbt::fail(key + ":" + class_of_diff(e, g), what + ": " + pbt::first_diff(e, g));
}
void same_kdbx(const model::Db& e, const Database& g, const std::string& key, const std::string& what) {
  std::string aliens;
  model::Db m = bridge::from_db(g, &aliens);
  same(model::dump(e, kKdbxDump), model::dump(m, kKdbxDump), key, what);
  if (!aliens.empty()) pbt::fail(key + ":alien", what + ": " + aliens);
}
void same_kdb(const model::Db& e, const Database& g, const std::string& key, const std::string& what) {
  std::string aliens;
  model::Db m = bridge::from_db(g, &aliens);
  same(model::dump(e, kKdbDump), model::dump(m, kKdbDump), key, what);
  if (!aliens.empty()) pbt::fail(key + ":alien", what + ": " + aliens);
}

static void touch_entry(keepass::Entry& e) {
  (void)e.ToJson();
  if (!(e == e)) pbt::fail("self-unequal", "an entry differs from itself");
  for (auto& a : e.attachments()) (void)a->ToJson();
  for (auto& h : e.history()) touch_entry(*h);
}
static void touch_group(keepass::Group& g) {
  for (auto& e : g.Entries()) touch_entry(*e);
  for (auto& s : g.Groups()) touch_group(*s);
}
void touch(Database& db) {
  std::string aliens;
  model::Db m = bridge::from_db(db, &aliens);
  if (db.root()) {
    (void)db.root()->ToJson();
    if (!(*db.root() == *db.root())) pbt::fail("self-unequal", "a group differs from itself");
    touch_group(*db.root());
  }
}

bool rich(const model::Db& db) {
  std::vector<const model::Entry*> es;
  model::all_entries(db.root, es, true);
  return (model::count_groups(db.root) > 1 && !es.empty()) || !db.meta.binaries.empty() || !db.meta.icons.empty();
}
void ask_compression(Case& c, keepass::Database& db) {
  if (!db.meta()) return;
  bool some = false;
  for (auto& b : db.meta()->binaries())
    if (b && b->data().is_protected() && c.t.chance(1, 2)) { b->set_compress(true); some = true; }
  if (some) c.label("protected-and-compressed");
}

model::Db make_db(Case& c, const gen::Opt& o) {
  model::Db db = gen::db(c.t, o);
  if (o.crowd) {
    std::string what = gen::crowd(c.t, o, db);
    c.label("crowd:" + what.substr(0, what.rfind(' ')));
    c.describe(what);
  }
  return db;
}

void label_db(Case& c, const model::Db& db) {
  std::vector<const model::Entry*> es;
  model::all_entries(db.root, es, true);
  size_t depth = 0;
  bool updown = false;
  {
    std::vector<size_t> lv;
    std::function<void(const model::Group&, size_t)> go = [&](const model::Group& g, size_t d) { lv.push_back(d); depth = std::max(depth, d); for (auto& s : g.groups) go(s, d + 1); };
    go(db.root, 0);
    for (size_t i = 2; i + 1 < lv.size(); ++i) if (lv[i] < lv[i - 1] && lv[i + 1] > lv[i]) updown = true;
  }
  if (updown) c.label("tree:up-then-down");
  if (depth >= 3) c.label("tree:depth>=3");
  if (es.size() >= 3) c.label("entries>=3");
  if (db.compress) c.label("compressed");
  if (db.cipher) c.label("twofish");
  if (!db.meta.icons.empty()) c.label("custom-icons");
  if (!db.meta.binaries.empty()) c.label("binary-pool");
  for (auto e : es) {
    if (!e->history.empty()) c.label("history");
    if (!e->attachments.empty()) c.label("attachment");
    if (!e->custom.empty()) c.label("custom-fields");
    if (e->password.prot) c.label("protected-password");
    for (auto& a : e->attachments) if (a.pool < 0) c.label("inline-attachment");
  }
}

uint64_t rounds_of(bool kdb, const Bytes& f) {
  if (kdb) return f.size() >= 124 ? ref::get32(f, 120) : 0;
  uint64_t r = 0;
  size_t p = 12;
  while (p + 3 <= f.size()) {
    int id = uint8_t(f[p]);
    size_t n = ref::get16(f, p + 1);
    p += 3;
    if (p + n > f.size()) break;
    if (id == 6 && n >= 8) r = std::max<uint64_t>(r, ref::get64(f, p));
    else if (id == 6) { Bytes x = f.substr(p, n) + Bytes(8, '\0'); r = std::max<uint64_t>(r, ref::get64(x, 0)); }
    p += n;
    if (id == 0) break;
  }
  return r;
}

void begin(Case& c) {
  real_random(false);
  seed_random(c.t.below(0));
  disarm();
}
}  // namespace harness
