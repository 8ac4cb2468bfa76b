#include "kdb.hh"

#include <algorithm>
#include <ctime>
#include <map>
#include <set>

namespace ref {
using model::Attachment;
using model::Entry;
using model::Group;
using pbt::SplitMix;

const Bytes kKdbNever("\x2e\xdf\x39\x7e\xfb", 5);

Bytes kdb_pack(const Civil& c) {
  // 00YYYYYY YYYYYYMM MMDDDDDH HHHHMMMM MMSSSSSS
  uint64_t v = 0;
  v = v << 14 | uint64_t(c.y);
  v = v << 4 | uint64_t(c.mo);
  v = v << 5 | uint64_t(c.d);
  v = v << 5 | uint64_t(c.h);
  v = v << 6 | uint64_t(c.mi);
  v = v << 6 | uint64_t(c.s);
  Bytes o(5, '\0');
  for (int i = 4; i >= 0; --i) { o[i] = char(v); v >>= 8; }
  return o;
}
Civil kdb_unpack(const Bytes& b) {
  if (b.size() != 5) throw Error("KDB: time of " + std::to_string(b.size()) + " bytes");
  uint64_t v = 0;
  for (unsigned char c : b) v = v << 8 | c;
  Civil c;
  c.s = v & 63; v >>= 6;
  c.mi = v & 63; v >>= 6;
  c.h = v & 31; v >>= 5;
  c.d = v & 31; v >>= 5;
  c.mo = v & 15; v >>= 4;
  c.y = int64_t(v);
  return c;
}
Bytes kdb_time(int64_t t) {
  if (t == 0) return kKdbNever;
  time_t tt = t;
  std::tm tm;
  if (!localtime_r(&tt, &tm)) throw Error("localtime");
  return kdb_pack({tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec});
}
int64_t kdb_time_parse(const Bytes& b) {
  Civil c = kdb_unpack(b);
  if (b == kKdbNever) return 0;
  if (c.mo < 1 || c.mo > 12 || c.d < 1 || c.d > 31 || c.h > 23 || c.mi > 59 || c.s > 60 || c.y < 1) throw Error("KDB: impossible time " + pbt::hex(b));
  std::tm tm{};
  tm.tm_year = int(c.y - 1900);
  tm.tm_mon = c.mo - 1;
  tm.tm_mday = c.d;
  tm.tm_hour = c.h;
  tm.tm_min = c.mi;
  tm.tm_sec = c.s;
  tm.tm_isdst = -1;
  return int64_t(mktime(&tm));
}

namespace {
struct Cur {
  const Bytes& s;
  size_t p = 0;
  KdbRecord record() {
    KdbRecord r;
    for (;;) {
      if (p + 6 > s.size()) throw Error("KDB: truncated field");
      uint32_t ty = get16(s, p);
      size_t n = get32(s, p + 2);
      p += 6;
      if (n > s.size() - p) throw Error("KDB: field longer than the content");
      Bytes d = s.substr(p, n);
      p += n;
      if (ty == 0xffff) {
        if (n) throw Error("KDB: end field with data");
        return r;
      }
      r.fields.push_back({ty, d});
    }
  }
};
std::string cstr(const Bytes& d) {
  if (d.empty() || d.back() != '\0') throw Error("KDB: text without terminator");
  size_t z = d.find('\0');
  if (z != d.size() - 1) throw Error("KDB: text with embedded NUL");
  return d.substr(0, z);
}
uint32_t num(const Bytes& d, size_t n) {
  if (d.size() != n) throw Error("KDB: number of " + std::to_string(d.size()) + " bytes");
  return n == 2 ? get16(d, 0) : get32(d, 0);
}
}  // namespace

KdbInfo read_kdb(const Bytes& f, const Components& key) {
  KdbInfo r;
  if (f.size() < 124) throw Error("KDB: short header");
  r.sig0 = get32(f, 0);
  r.sig1 = get32(f, 4);
  r.flags = get32(f, 8);
  r.version = get32(f, 12);
  r.master_seed = f.substr(16, 16);
  r.iv = f.substr(32, 16);
  r.num_groups = get32(f, 48);
  r.num_entries = get32(f, 52);
  Bytes hash = f.substr(56, 32);
  r.tseed = f.substr(88, 32);
  r.rounds = get32(f, 120);
  if (r.sig0 != 0x9aa2d903 || r.sig1 != 0xb54bfb65) throw Error("KDB: bad signature");
  if ((r.version & 0xffffff00) != 0x00030000) throw Error("KDB: version");
  bool aes = r.flags & 2, tf = r.flags & 8;
  if (aes == tf) throw Error("KDB: cipher flags " + std::to_string(r.flags));
  r.cipher = tf;
  Bytes fk = final_key(r.master_seed, transform(composite_kdb(key), r.tseed, r.rounds));
  r.content = tf ? twofish_cbc_decrypt(fk, r.iv, f.substr(124)) : aes_cbc_decrypt(fk, r.iv, f.substr(124));
  if (sha256(r.content) != hash) throw Error("KDB: content hash");
  Cur c{r.content};
  model::Db& db = r.db;
  std::vector<Group*> stack{&db.root};
  std::map<uint32_t, std::vector<int>> path_of;  // group id -> path of child indices
  std::vector<std::vector<int>> cur_path{{}};
  std::vector<int> cur;
  for (uint32_t i = 0; i < r.num_groups; ++i) {
    KdbRecord rec = c.record();
    r.groups.push_back(rec);
    Group g;
    uint32_t id = 0, level = 0;
    std::set<uint32_t> seen;
    for (auto& fd : rec.fields) {
      if (fd.type && !seen.insert(fd.type).second) throw Error("KDB: repeated group field");
      switch (fd.type) {
        case 0: break;
        case 1: id = num(fd.data, 4); break;
        case 2: g.name = cstr(fd.data); break;
        case 3: case 4: case 5: case 6: g.times[fd.type - 3] = kdb_time_parse(fd.data); break;
        case 7: g.icon = num(fd.data, 4); break;
        case 8: level = num(fd.data, 2); break;
        case 9: g.flags = num(fd.data, 4); break;
        default: throw Error("KDB: unknown group field " + std::to_string(fd.type));
      }
    }
    if (!seen.count(1)) throw Error("KDB: group without id");
    if (id == 0 || id == 0xffffffff) throw Error("KDB: reserved group id " + std::to_string(id));
    if (path_of.count(id)) throw Error("KDB: repeated group id");
    if (level > cur.size()) throw Error("KDB: group level skips");
    cur.resize(level);
    Group* p = &db.root;
    for (int k : cur) p = &p->groups[k];
    cur.push_back(int(p->groups.size()));
    p->groups.push_back(g);
    path_of[id] = cur;
  }
  for (uint32_t i = 0; i < r.num_entries; ++i) {
    KdbRecord rec = c.record();
    r.entries.push_back(rec);
    Entry e;
    Attachment a;
    bool has = false;
    uint32_t gid = 0;
    std::set<uint32_t> seen;
    for (auto& fd : rec.fields) {
      if (fd.type && !seen.insert(fd.type).second) throw Error("KDB: repeated entry field");
      switch (fd.type) {
        case 0: break;
        case 1: if (fd.data.size() != 16) throw Error("KDB: UUID size"); e.uuid = fd.data; break;
        case 2: gid = num(fd.data, 4); break;
        case 3: e.icon = num(fd.data, 4); break;
        case 4: e.title.v = cstr(fd.data); break;
        case 5: e.url.v = cstr(fd.data); break;
        case 6: e.username.v = cstr(fd.data); break;
        case 7: e.password.v = cstr(fd.data); break;
        case 8: e.notes.v = cstr(fd.data); break;
        case 9: case 10: case 11: case 12: e.times[fd.type - 9] = kdb_time_parse(fd.data); break;
        case 13: a.name = cstr(fd.data); has |= !a.name.empty(); break;
        case 14: a.inl.data = fd.data; has |= !fd.data.empty(); break;
        default: throw Error("KDB: unknown entry field " + std::to_string(fd.type));
      }
    }
    if (has) e.attachments.push_back(a);
    auto it = path_of.find(gid);
    if (it == path_of.end()) throw Error("KDB: orphaned entry");
    Group* p = &db.root;
    for (int k : it->second) p = &p->groups[k];
    p->entries.push_back(e);
  }
  if (c.p != r.content.size()) throw Error("KDB: trailing content");
  db.cipher = r.cipher;
  db.master_seed = r.master_seed;
  db.iv = r.iv;
  db.tseed = r.tseed;
  db.rounds = r.rounds;
  return r;
}

KdbStyle gen_kdb_style(pbt::Tape& t) {
  KdbStyle s;
  static const std::vector<uint32_t> v = {0x00030002, 0x00030000, 0x00030003, 0x00030004};
  s.version = t.of(v);
  s.sha2_flag = !t.chance(1, 3);
  s.shuffle_fields = t.chance(1, 3);
  s.comments = t.chance(1, 4);
  s.random_ids = t.chance(2, 3);
  if (s.random_ids && t.chance(1, 3)) s.alike_bits = 1 + int(t.below(4));
  s.shuffle_entries = t.chance(1, 2);
  s.omit_defaults = t.chance(1, 3);
  s.keepass_attach = t.chance(1, 2);
  return s;
}

namespace {
Bytes le16(uint32_t v) { Bytes o; put16(o, v); return o; }
Bytes le32(uint32_t v) { Bytes o; put32(o, v); return o; }
Bytes z(const std::string& s) { return s + std::string(1, '\0'); }
}  // namespace

KdbRaw kdb_records(const model::Db& db, const KdbStyle& st, SplitMix r) {
  KdbRaw k;
  auto below = [&](unsigned n) { return unsigned((r.next() >> 20) % n); };
  k.version = st.version;
  k.cipher = db.cipher;
  k.flags = (db.cipher ? 8 : 2) | (st.sha2_flag ? 1 : 0);
  k.master_seed = db.master_seed;
  k.iv = db.iv;
  k.tseed = db.tseed;
  k.rounds = uint32_t(db.rounds);
  auto finish = [&](KdbRecord& rec) {
    if (st.comments) for (unsigned n = below(3); n--;) rec.fields.insert(rec.fields.begin() + below(unsigned(rec.fields.size() + 1)), KdbField{0, Bytes(below(40), char(below(256)))});
    if (st.shuffle_fields) for (size_t i = rec.fields.size(); i > 1; --i) std::swap(rec.fields[i - 1], rec.fields[below(unsigned(i))]);
  };
  auto omit = [&](bool def) { return st.omit_defaults && def && below(2); };
  std::set<uint32_t> used;
  std::vector<std::pair<const Entry*, uint32_t>> es;
  std::vector<std::vector<std::pair<const Entry*, uint32_t>>> per_group;
  uint32_t next = 0;
  std::function<void(const Group&, uint32_t)> go = [&](const Group& g, uint32_t level) {
    uint32_t id;
    static const uint32_t kAlike[] = {0, 0xffff0000u, 0x0000ffffu, 0xffffff00u, 0x00ffffffu};
    do {
      id = st.random_ids ? (below(4) == 0 ? below(3) : below(4) == 0 ? 0xfffffff0u + below(16) : uint32_t(r.next() >> 17)) : next++;
      if (st.alike_bits && used.size() < 200) { uint32_t m = kAlike[st.alike_bits]; id = (uint32_t(r.next() >> 17) & m) | (0x12345678u & ~m); }
    } while (!used.insert(id).second);
    KdbRecord rec;
    auto f = [&](uint32_t ty, const Bytes& d) { rec.fields.push_back({ty, d}); };
    f(1, le32(id));
    if (!omit(g.name.empty())) f(2, z(g.name));
    for (int i = 0; i < 4; ++i) if (!omit(g.times[i] == 0)) f(3 + i, kdb_time(g.times[i]));
    if (!omit(g.icon == 0)) f(7, le32(g.icon));
    if (!omit(level == 0)) f(8, le16(level));
    // KeePass 1.x writes the flags as four bytes, this library has written two.
    if (!omit(g.flags == 0)) f(9, below(2) || g.flags > 0xffff ? le32(g.flags) : le16(g.flags));
    finish(rec);
    k.groups.push_back(rec);
    per_group.push_back({});
    size_t me = per_group.size() - 1;
    for (auto& e : g.entries) per_group[me].push_back({&e, id});
    for (auto& s : g.groups) go(s, level + 1);
  };
  for (auto& g : db.root.groups) go(g, 0);
  if (!st.shuffle_entries) for (auto& v : per_group) for (auto& e : v) es.push_back(e);
  else {
    std::vector<size_t> pos(per_group.size(), 0), live;
    for (size_t i = 0; i < per_group.size(); ++i) if (!per_group[i].empty()) live.push_back(i);
    while (!live.empty()) {
      size_t j = below(unsigned(live.size())), g = live[j];
      es.push_back(per_group[g][pos[g]++]);
      if (pos[g] == per_group[g].size()) live.erase(live.begin() + long(j));
    }
  }
  for (auto& pr : es) {
    const Entry& e = *pr.first;
    KdbRecord rec;
    auto f = [&](uint32_t ty, const Bytes& d) { rec.fields.push_back({ty, d}); };
    f(1, e.uuid);
    f(2, le32(pr.second));
    if (!omit(e.icon == 0)) f(3, le32(e.icon));
    if (!omit(e.title.v.empty())) f(4, z(e.title.v));
    if (!omit(e.url.v.empty())) f(5, z(e.url.v));
    if (!omit(e.username.v.empty())) f(6, z(e.username.v));
    if (!omit(e.password.v.empty())) f(7, z(e.password.v));
    if (!omit(e.notes.v.empty())) f(8, z(e.notes.v));
    for (int i = 0; i < 4; ++i) if (!omit(e.times[i] == 0)) f(9 + i, kdb_time(e.times[i]));
    Attachment a;
    if (!e.attachments.empty()) a = e.attachments[0];
    if (!a.name.empty() || st.keepass_attach) f(13, z(a.name));
    if (!a.inl.data.empty() || st.keepass_attach) f(14, a.inl.data);
    finish(rec);
    k.entries.push_back(rec);
  }
  k.num_groups = uint32_t(k.groups.size());
  k.num_entries = uint32_t(k.entries.size());
  return k;
}

Bytes kdb_content(const KdbRaw& r) {
  Bytes o;
  auto rec = [&](const KdbRecord& x) {
    for (auto& f : x.fields) { put16(o, f.type); put32(o, uint32_t(f.data.size())); o += f.data; }
    put16(o, 0xffff);
    put32(o, 0);
  };
  for (auto& g : r.groups) rec(g);
  for (auto& e : r.entries) rec(e);
  return o;
}
Bytes seal_kdb_hash(const KdbRaw& r, const Bytes& content, const Bytes& hash, const Components& key) {
  Bytes o;
  put32(o, r.sig0);
  put32(o, r.sig1);
  put32(o, r.flags);
  put32(o, r.version);
  o += r.master_seed + r.iv;
  put32(o, r.num_groups);
  put32(o, r.num_entries);
  o += hash + r.tseed;
  put32(o, r.rounds);
  Bytes fk = final_key(r.master_seed, transform(composite_kdb(key), r.tseed, r.rounds));
  return o + (r.cipher ? twofish_cbc_encrypt(fk, r.iv, content) : aes_cbc_encrypt(fk, r.iv, content));
}
Bytes seal_kdb(const KdbRaw& r, const Bytes& content, const Components& key) { return seal_kdb_hash(r, content, sha256(content), key); }
Bytes write_kdb(const model::Db& db, const Components& key, const KdbStyle& st, SplitMix rng) {
  KdbRaw r = kdb_records(db, st, rng);
  return seal_kdb(r, kdb_content(r), key);
}
}  // namespace ref
