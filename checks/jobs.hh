// Files of every kind that can be imported, with the database they were made of.
#pragma once
#include "common.hh"

namespace harness {
struct Job {
  bool kdb = false;
  gen::Cred cr;
  Bytes file;          // what is imported
  size_t plain = 0;    // size of its decrypted and decompressed content
  std::shared_ptr<keepass::Database> lib;
};

inline void edit_doc(pbt::SplitMix& r, ref::Node& root) {
  std::vector<std::pair<ref::Node*, size_t>> all;
  std::function<void(ref::Node&)> go = [&](ref::Node& n) { for (size_t i = 0; i < n.kids.size(); ++i) { all.push_back({&n, i}); go(n.kids[i]); } };
  go(root);
  if (all.empty()) return;
  auto at = all[(r.next() >> 20) % all.size()];
  ref::Node& k = at.first->kids[at.second];
  switch ((r.next() >> 20) % 6) {
    case 0: at.first->kids.erase(at.first->kids.begin() + long(at.second)); break;
    case 1: k.text = "%%% not this %%%"; break;
    case 2: k.text.clear(); break;
    case 3: k.attrs.clear(); break;
    case 4: k.name = "Other"; break;
    default: { ref::Node d = k; at.first->kids.push_back(d); break; }
  }
}

enum Way { kGood, kWrongKey, kRaw, kContent, kSizes, kWays };
const char* const kWayNames[] = {"valid", "wrong key", "damaged", "malformed content", "huge size fields"};

inline Job make_job(Case& c, bool kdb, Way way, size_t big) {
  Job j;
  j.kdb = kdb;
  gen::Opt o;
  o.kdb = kdb;
  o.strict_xml = true;
  o.max_groups = 5;
  o.max_entries = 4;
  o.big = big;
  model::Db m = gen::db(c.t, o);
  m.rounds = 1 + m.rounds % 3;
  j.cr = simple_cred();
  pbt::SplitMix rng = c.t.sub();
  if (kdb) {
    ref::KdbRaw r = ref::kdb_records(m, ref::gen_kdb_style(c.t), rng);
    auto any = [&]() -> ref::KdbRecord* {
      size_t n = r.groups.size() + r.entries.size();
      if (!n) return nullptr;
      size_t i = (rng.next() >> 20) % n;
      return i < r.groups.size() ? &r.groups[i] : &r.entries[i - r.groups.size()];
    };
    if (way == kContent) {
      if (ref::KdbRecord* x = any()) if (!x->fields.empty()) {
        ref::KdbField& f = x->fields[(rng.next() >> 20) % x->fields.size()];
        switch ((rng.next() >> 20) % 4) {
          case 0: f.data.resize(f.data.size() / 2); break;
          case 1: f.type = uint32_t(rng.next() >> 20) % 20; break;
          case 2: for (auto& ch : f.data) ch = char(rng.next() >> 20); break;
          default: f.data += "xyz"; break;
        }
      }
    }
    Bytes content = ref::kdb_content(r);
    j.plain = content.size();
    if (way == kSizes) {
      static const uint32_t huge[] = {0x10000000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, 100000000};
      uint32_t v = huge[(rng.next() >> 20) % 6];
      switch ((rng.next() >> 20) % 3) {
        case 0: r.num_groups = v; break;
        case 1: r.num_entries = v; break;
        default: {
          // A field that claims more than there is.
          Bytes b;
          ref::put16(b, 2);
          ref::put32(b, v);
          content = b + content;
          if (!r.num_groups) r.num_groups = 1;
        }
      }
    }
    j.file = ref::seal_kdb(r, content, comps(j.cr));
  } else if (way == kSizes) {
    ref::KdbxStyle st = ref::plain_kdbx_style();
    ref::RawKdbx r = ref::raw_header(m, st, rng);
    Bytes framed;
    ref::put32(framed, 0);
    framed += Bytes(32, 'h');
    static const uint32_t huge[] = {0x10000000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, 100000000};
    ref::put32(framed, huge[(rng.next() >> 20) % 6]);
    framed += Bytes((rng.next() >> 20) % 3000, 'd');
    j.plain = framed.size();
    j.file = ref::seal_kdbx(r, framed, comps(j.cr));
  } else {
    auto ed = [&](ref::Node& n) { if (way == kContent) edit_doc(rng, n); };
    pbt::SplitMix wr = c.t.sub();
    j.file = ref::write_kdbx(m, comps(j.cr), ref::gen_kdbx_style(c.t), wr, ed, [&](Bytes& x) { j.plain = x.size(); });
  }
  if (way == kRaw) {
    size_t p = (rng.next() >> 20) % j.file.size();
    switch ((rng.next() >> 20) % 3) {
      case 0: j.file[p] = char(j.file[p] ^ (1 << ((rng.next() >> 20) % 8))); break;
      case 1: j.file.resize(p); break;
      default: j.file.resize(j.file.size() - std::min<size_t>(j.file.size(), 16 * (1 + (rng.next() >> 20) % 4))); break;
    }
    if (rounds_of(kdb, j.file) > 10000) j.file.resize(30);
  }
  j.lib = bridge::to_db(m);
  return j;
}
}  // namespace harness
