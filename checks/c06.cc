// C06: only the right credentials open a database.
#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
// Credentials with arbitrary components, including none at all.
struct Any {
  bool has_pw = false, has_kf = false;
  Bytes pw, kf;
};
Any from(const gen::Cred& c) { return {c.has_pw, c.has_kf, c.pw, c.kf}; }
gen::Cred to(const Any& a, bool hex) {
  gen::Cred c;
  c.has_pw = a.has_pw; c.pw = a.pw; c.has_kf = a.has_kf; c.kf = a.kf; c.kf_hex = hex;
  return c;
}
Bytes composite(const Any& a, bool kdb) {
  ref::Components cp = ref::components(a.has_pw, a.pw, a.has_kf, a.kf);
  if (!a.has_pw && !a.has_kf) return kdb ? Bytes(32, '\0') : ref::sha256("");
  return kdb ? ref::composite_kdb(cp) : ref::composite_kdbx(cp);
}

Any wrong(Case& c, const Any& r, std::string& what) {
  Any w = r;
  for (;;) {
    switch (c.t.below(9)) {
      case 0:  // a bit of the key file
        if (!w.has_kf) continue;
        { size_t b = c.t.below(256); w.kf[b / 8] ^= 1 << (b % 8); what = "key-file bit " + std::to_string(b); }
        return w;
      case 1:  // a bit of the password
        if (!w.has_pw || w.pw.empty()) continue;
        { size_t b = c.t.below(w.pw.size() * 8); w.pw[b / 8] ^= 1 << (b % 8); what = "password bit " + std::to_string(b); }
        return w;
      case 2:
        if (!w.has_pw) continue;
        { static const std::vector<Bytes> add = {Bytes(1, '\0'), " ", "a", "\n", Bytes(64, 'a')}; w.pw += c.t.of(add); what = "password extended"; }
        return w;
      case 3:
        if (!w.has_pw || w.pw.empty()) continue;
        w.pw.erase(w.pw.size() - 1 - c.t.below(w.pw.size()), 1);
        what = "password shortened";
        return w;
      case 4:
        if (w.has_pw) { w.has_pw = false; w.pw.clear(); what = "password missing"; }
        else { w.has_pw = true; w.pw = c.t.chance(1, 2) ? "" : c.t.bytes(5); what = "password added"; }
        return w;
      case 5:
        if (w.has_kf) { w.has_kf = false; w.kf.clear(); what = "key file missing"; }
        else {
          w.has_kf = true;
          w.kf = c.t.chance(1, 2) ? Bytes(32, '\0') : c.t.chance(1, 2) ? ref::sha256(w.pw) : c.t.bytes(32);
          what = "key file added";
        }
        return w;
      case 6: {  // components in each other's place
        Any s;
        if (r.has_pw) { s.has_kf = true; s.kf = ref::sha256(r.pw); }
        if (r.has_kf) { s.has_pw = true; s.pw = r.kf; }
        what = "components exchanged";
        return s;
      }
      case 7: what = "no components"; return Any();
      default:
        if (w.has_pw) w.pw = c.t.bytes(c.t.below(20));
        if (w.has_kf) w.kf = c.t.bytes(32);
        what = "unrelated credentials";
        return w;
    }
  }
}
}  // namespace

static void creds(Case& c) {
  begin(c);
  bool kdb = c.t.chance(1, 2);
  gen::Opt o;
  o.kdb = kdb;
  o.max_groups = 3;
  o.max_entries = 2;
  model::Db db = gen::db(c.t, o);
  gen::Cred cr = gen::cred(c.t);
  if (cr.has_kf && c.t.chance(1, 12)) cr.kf = Bytes(32, '\0');
  db.rounds %= 40;
  Key right = make_key(c, cr);
  std::string p = c.dir + "/db";
  bool foreign = c.t.chance(1, 4);
  std::string fmt = kdb ? (db.cipher ? "kdb-twofish" : "kdb-aes") : "kdbx";
  c.label(fmt);
  if (foreign) {
    pbt::SplitMix rng = c.t.sub();
    if (kdb) bridge::write_file(p, ref::write_kdb(db, comps(cr), ref::gen_kdb_style(c.t), rng));
    else bridge::write_file(p, ref::write_kdbx(db, comps(cr), ref::gen_kdbx_style(c.t), rng));
  } else {
    auto lib = bridge::to_db(db, !kdb);
    Outcome e = kdb ? export_kdb(p, *lib, right) : export_kdbx(p, *lib, right);
    PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
  }
  auto import = [&](const Key& k) { return kdb ? import_kdb(p, k) : import_kdbx(p, k); };
  Imported ok = import(right);
  PBT_REQUIRE(ok.ok(), "right-rejected", fmt << " file does not open with its own credentials (" << cr.describe() << "): " << ok.str());
  // The same credentials set up in another order or form open it as well.
  {
    Key again;
    if (cr.has_kf) {
      std::string kp = c.dir + "/alt";
      bridge::write_file(kp, gen::keyfile_text(c.t, cr.kf, c.t.chance(1, 2)));
      Outcome s = guarded([&] { again.SetKeyFile(kp); });
      PBT_REQUIRE(s.ok(), "keyfile-rejected", "valid key file rejected: " << s.str());
    }
    if (cr.has_pw) again.SetPassword(cr.pw);
    Imported r2 = import(again);
    PBT_REQUIRE(r2.ok(), "right-rejected", fmt << " file does not open with equivalent credentials (" << cr.describe() << "): " << r2.str());
    c.eval(1);
  }
  Any r = from(cr);
  std::string list;
  size_t tries = 4 + c.t.below(c.thorough ? 60 : 12);
  for (size_t i = 0; i < tries; ++i) {
    std::string what;
    Any w = wrong(c, r, what);
    if (composite(w, kdb) == composite(r, kdb)) { c.label("same composite"); continue; }
    Key k = make_key(c, to(w, c.t.chance(1, 2)));
    Imported i2 = import(k);
    c.eval();
    c.label("wrong:" + what.substr(0, what.find_first_of("0123456789")));
    c.nontrivial(pbt::hash_str(composite(w, kdb) + composite(r, kdb), kdb));
    PBT_REQUIRE(!i2.ok(), "wrong-accepted", fmt << " file saved with " << cr.describe() << " opened with the wrong credentials (" << what << ")");
    PBT_REQUIRE(i2.kind == kPassword, "wrong-error", fmt << " file opened with the wrong credentials (" << what << ") fails with " << i2.str() << " instead of the password error");
    if (i < 3) list += ", " + what;
  }
  c.describe(fmt + (foreign ? " (reference writer) " : " ") + cr.describe() + list + " ... " + std::to_string(tries) + " tries");
  Imported last = import(right);
  PBT_REQUIRE(last.ok(), "right-rejected-after", "file no longer opens with its own credentials: " << last.str());
}

// Many unrelated keys against one small file: the decrypted text of a wrong
// key is random, so every early accidental validity must still be caught.
static void volume(Case& c) {
  begin(c);
  bool kdb = c.t.chance(2, 3);
  model::Db db;
  db.rounds = c.t.below(2);
  db.master_seed = c.t.bytes(kdb ? 16 : 32);
  db.tseed = c.t.bytes(32);
  db.iv = c.t.bytes(16);
  db.cipher = kdb ? c.t.below(2) : 0;
  db.compress = !kdb && c.t.chance(1, 2);
  db.root.uuid = kdb ? Bytes(16, '\0') : gen::uuid_from(3, 3);
  model::Group g;
  g.uuid = Bytes(16, '\0');
  if (!kdb) g.uuid = gen::uuid_from(3, 4);
  g.name = "g";
  db.root.groups.push_back(g);
  keepass::Key key("right");
  std::string p = c.dir + "/v";
  auto lib = bridge::to_db(db, !kdb);
  Outcome e = kdb ? export_kdb(p, *lib, key) : export_kdbx(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
  uint64_t seed = c.t.below(0);
  size_t n = c.thorough ? 3000 : 600;
  for (size_t i = 0; i < n; ++i) {
    std::string pw = std::to_string(seed) + "/" + std::to_string(i);
    keepass::Key w(pw);
    Imported r = kdb ? import_kdb(p, w) : import_kdbx(p, w);
    PBT_REQUIRE(!r.ok(), "wrong-accepted", "file opened with the wrong password " << pw);
    PBT_REQUIRE(r.kind == kPassword, "wrong-error", (kdb ? "kdb" : "kdbx") << " file opened with the wrong password " << pw << " fails with " << r.str());
  }
  c.eval(n);
  c.label(kdb ? "kdb" : "kdbx");
  c.nontrivial(seed);
  c.describe(std::string(kdb ? "kdb" : "kdbx") + ", " + std::to_string(n) + " wrong passwords");
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C06";
  k.rule = "distinct pairs of right and wrong composite keys that differ (volume sub-check: distinct series of wrong passwords)";
  k.assumptions = {"credentials whose composite key is equal by the format's definition (KDB: a key file holding the SHA-256 of the password) are the same credentials"};
  k.subs = {{"creds", 4000, 100000, creds}, {"volume", 120, 2500, volume}};
  return pbt::run_check(k, argc, argv);
}
