// C12: the hashed block stream is lossless and detects damage.
#include <sstream>

#include "patterns.hh"
#include "stream.hh"
using namespace harness;

namespace {
Bytes payload(Case& c, size_t n) {
  Bytes d = c.t.bytes(n);
  if (c.t.chance(1, 6)) d = Bytes(n, c.t.chance(1, 2) ? '\xff' : '\0');
  return d;
}
size_t block_size(Case& c) {
  static const std::vector<size_t> v = {1, 2, 3, 7, 16, 31, 32, 33, 64, 100, 255, 256, 1000, 1024, 4096, 16384, 65536};
  return c.t.chance(1, 2) ? c.t.of(v) : 1 + c.t.below(300);
}
// Writes d through the library; checks the framing with the strict reference.
Bytes lib_write(Case& c, const Bytes& d, size_t bs, bool dflt, std::string* what) {
  std::ostringstream os;
  {
    std::unique_ptr<keepass::hashed_ostreambuf> sb(dflt ? new keepass::hashed_ostreambuf(os) : new keepass::hashed_ostreambuf(os, uint32_t(bs)));
    bool ok = WritePattern::run(c, *sb, d, what);
    PBT_REQUIRE(ok, "write-failed", *what << ": writing to a memory stream failed");
    std::ostream o(sb.get());
    o.flush();
    PBT_REQUIRE(o.good(), "write-failed", *what << ": flushing to a memory stream failed");
  }
  return os.str();
}
Bytes lib_read(Case& c, const Bytes& framed, std::string* what, ReadResult* out) {
  ReadResult r;
  if (c.t.chance(1, 2)) {
    std::istringstream is(framed);
    keepass::hashed_istreambuf sb(is);
    r = read_all(c, sb, what);
  } else {
    PieceSource ps(framed, 1 + c.t.below(c.t.chance(1, 2) ? 5 : 5000), c.t.sub());
    std::istream is(&ps);
    keepass::hashed_istreambuf sb(is);
    r = read_all(c, sb, what);
    *what += ", source in pieces";
  }
  *out = r;
  return r.data;
}
}  // namespace

static void written(Case& c) {
  size_t bs = block_size(c);
  static const std::vector<size_t> mult = {0, 1, 2, 3, 5};
  size_t n = c.t.chance(1, 2) ? c.t.of(mult) * bs + c.t.below(3) : c.t.below(3000);
  if (n && c.t.chance(1, 3)) --n;
  if (n > 300000) n = 300000;
  if (n / bs > 3000) n = 3000 * bs;
  Bytes d = payload(c, n);
  std::string how, how2;
  Bytes f = lib_write(c, d, bs, false, &how);
  c.describe(std::to_string(n) + " bytes, blocks of " + std::to_string(bs) + ", " + how);
  c.label("write:" + how);
  c.nontrivial(d + "/" + std::to_string(bs) + how);
  std::vector<size_t> sizes;
  Bytes back;
  try { back = ref::unhash_blocks(f, &sizes); } catch (const ref::Error& e) { pbt::fail("framing", std::to_string(n) + " bytes in blocks of " + std::to_string(bs) + " (" + how + "): " + e.what()); }
  PBT_REQUIRE(back == d, "content", "framed content differs: " << pbt::first_diff(back, d));
  for (size_t s : sizes) PBT_REQUIRE(s <= bs, "block-size", "a block of " << s << " bytes, asked for " << bs);
  ReadResult r;
  lib_read(c, f, &how2, &r);
  c.label("read:" + how2.substr(0, how2.find(',')));
  PBT_REQUIRE(!r.error && r.data == d, "round-trip", n << " bytes in blocks of " << bs << " (" << how << "; " << how2 << ") read back as " << r.data.size() << " bytes" << (r.error ? " with an error" : "") << ": " << pbt::first_diff(r.data, d));
}
// The destination of the writer fails.
static void sink(Case& c) {
  size_t bs = block_size(c);
  Bytes d = payload(c, c.t.below(3000));
  std::ostringstream os;
  { keepass::hashed_ostreambuf sb(os, uint32_t(bs)); sb.sputn(d.data(), std::streamsize(d.size())); std::ostream o(&sb); o.flush(); }
  sink_failure(c, d, os.str(), [&](std::ostream& o) { return std::unique_ptr<std::streambuf>(new keepass::hashed_ostreambuf(o, uint32_t(bs))); });
}
// Around the default block size.
static void written_default(Case& c) {
  static const std::vector<size_t> centre = {1 << 20, 2 << 20, 0, 1000};
  size_t n = c.t.of(centre) + c.t.below(5);
  if (n >= 2) n -= 2;
  Bytes d = c.t.bytes(n);
  std::string how, how2;
  Bytes f = lib_write(c, d, 0, true, &how);
  c.describe(std::to_string(n) + " bytes, default blocks, " + how);
  c.nontrivial(std::to_string(n) + how + d.substr(0, 100));
  Bytes back;
  try { back = ref::unhash_blocks(f); } catch (const ref::Error& e) { pbt::fail("framing", std::to_string(n) + " bytes (" + how + "): " + e.what()); }
  PBT_REQUIRE(back == d, "content", "framed content differs: " << pbt::first_diff(back, d));
  ReadResult r;
  lib_read(c, f, &how2, &r);
  PBT_REQUIRE(!r.error && r.data == d, "round-trip", n << " bytes (" << how2 << ") read back as " << r.data.size() << " bytes");
}

// Any other valid division into blocks.
static void divided(Case& c) {
  Bytes d = payload(c, c.t.below(c.t.chance(1, 10) ? 200000 : 4000));
  std::vector<size_t> sizes;
  size_t k = 1 + c.t.below(8);
  for (size_t i = 0; i < k; ++i) sizes.push_back(d.size() > 50000 ? 1 + c.t.below(60000) : 1 + c.t.below(c.t.chance(1, 3) ? 4 : 900));
  Bytes f = ref::hash_blocks(d, sizes);
  // Whatever follows the terminating block is not part of the stream.
  std::string how;
  ReadResult r;
  lib_read(c, f, &how, &r);
  c.describe(std::to_string(d.size()) + " bytes in " + std::to_string(k) + " alternating block sizes, " + how);
  c.nontrivial(f);
  PBT_REQUIRE(!r.error && r.data == d, "foreign-blocks", d.size() << " bytes in valid blocks (" << how << ") read back as " << r.data.size() << " bytes" << (r.error ? " with an error" : "") << ": " << pbt::first_diff(r.data, d));
}

static void damaged(Case& c) {
  Bytes d = payload(c, 1 + c.t.below(c.t.chance(1, 6) ? 5000 : 300));
  std::vector<size_t> sizes = {1 + c.t.below(d.size() + 1)};
  if (c.t.chance(1, 2)) sizes.push_back(1 + c.t.below(d.size() + 1));
  Bytes f = ref::hash_blocks(d, sizes), orig = f;
  // Block boundaries.
  std::vector<size_t> at;
  for (size_t p = 0; p + 40 <= f.size(); p += 40 + ref::get32(f, p + 36)) at.push_back(p);
  size_t nb = at.size();  // including the terminator
  auto block = [&](size_t i) { return f.substr(at[i], (i + 1 < nb ? at[i + 1] : f.size()) - at[i]); };
  size_t good = d.size();  // bytes that may still be delivered
  auto content_before = [&](size_t off) { size_t s = 0; for (size_t i = 0; i + 1 < nb && at[i + 1] <= off; ++i) s += at[i + 1] - at[i] - 40; return s; };
  std::string what;
  switch (c.t.below(9)) {
    case 0: case 1: {
      size_t p = c.t.below(f.size());
      f[p] ^= char(1 << c.t.below(8));
      good = content_before(p);
      size_t b = 0;
      while (b + 1 < nb && at[b + 1] <= p) ++b;
      size_t in = p - at[b];
      what = std::string("flipped bit in ") + (in < 4 ? "index" : in < 36 ? "hash" : in < 40 ? "size" : "payload") + (b + 1 == nb ? " of the last block" : "");
      break;
    }
    case 2: { size_t p = c.t.below(f.size()); f.resize(p); good = content_before(p); what = "truncated to " + std::to_string(p) + " of " + std::to_string(orig.size()); break; }
    case 3: { size_t i = c.t.below(nb); size_t p = at[i]; Bytes b = block(i); f.erase(p, b.size()); good = content_before(p); what = "block dropped"; break; }
    case 4: { size_t i = c.t.below(nb), p = at[i]; Bytes b = block(i); f.insert(p, b); good = content_before(p) + b.size() - 40; if (i + 1 == nb) { what = "terminator repeated"; good = d.size(); f = orig; f.resize(orig.size() - 1); } else what = "block repeated"; break; }
    case 5: {
      if (nb < 3) { f.resize(f.size() - 1); what = "truncated by one byte"; break; }
      size_t i = c.t.below(nb - 2);
      Bytes a = block(i), b = block(i + 1);
      if (a.substr(4) == b.substr(4)) { f.resize(f.size() - 1); what = "truncated by one byte"; break; }
      f.replace(at[i], a.size() + b.size(), b + a);
      good = content_before(at[i]);
      what = "blocks exchanged";
      break;
    }
    case 6: {  // field overwritten
      size_t i = c.t.below(nb), off = c.t.below(3);
      static const std::vector<uint32_t> v = {0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 40, 100};
      uint32_t x = c.t.of(v);
      Bytes w;
      if (off == 2) w = c.t.bytes(32); else ref::put32(w, x);
      size_t p = at[i] + (off == 0 ? 0 : off == 1 ? 36 : 4);
      if (f.substr(p, w.size()) == w) w[0] ^= 1;
      f.replace(p, w.size(), w);
      good = content_before(p);
      what = off == 0 ? "index overwritten" : off == 1 ? "size overwritten with " + std::to_string(x) : "hash overwritten";
      break;
    }
    case 7: {  // truncated block whose hash would fit if the end were data
      size_t pad = 1 + c.t.below(70);
      Bytes pl = c.t.bytes(c.t.below(100)), h = ref::sha256(pl + Bytes(pad, c.t.chance(3, 4) ? '\xff' : '\0')), b;
      size_t i = c.t.below(nb);
      ref::put32(b, uint32_t(i));
      b += h;
      ref::put32(b, uint32_t(pl.size() + pad));
      f.resize(at[i]);
      f += b + pl;
      good = content_before(at[i]);
      what = "block cut " + std::to_string(pad) + " bytes short of its hashed size";
      break;
    }
    default: {  // payload byte inserted or removed
      size_t i = c.t.below(nb - 1);
      size_t p = at[i] + 40 + c.t.below(at[i + 1] - at[i] - 40);
      if (c.t.chance(1, 2)) f.erase(p, 1); else f.insert(p, 1, char(c.t.below(256)));
      good = content_before(at[i]);
      what = "payload byte inserted or removed";
      // A byte inserted into or removed from a run of itself keeps this block.
      if (f.compare(0, at[i + 1], orig, 0, at[i + 1]) == 0) good = content_before(at[i + 1]);
      break;
    }
  }
  if (f == orig) pbt::discard();
  std::string how;
  ReadResult r;
  lib_read(c, f, &how, &r);
  c.describe(what + ", " + std::to_string(nb - 1) + " blocks, " + how);
  c.label("damage:" + what.substr(0, what.find_first_of("0123456789")));
  c.nontrivial(f);
  PBT_REQUIRE(r.std_error, "not-std-exception", "not a standard exception");
  PBT_REQUIRE(r.error, "damage-unreported", what << " (" << how << "): the reader reports no error and delivers " << r.data.size() << " bytes");
  PBT_REQUIRE(r.data.size() <= good && d.compare(0, r.data.size(), r.data) == 0, "damaged-bytes-delivered",
              what << " (" << how << "): the reader delivers " << r.data.size() << " bytes, of which only " << good << " are intact");
}

// Every bit of a small stream flipped and every truncation, one at a time.
static void exhaustive(Case& c) {
  size_t which = c.t.below(3);
  Bytes d = which == 0 ? Bytes("a") : which == 1 ? Bytes("hashed block stream") : Bytes(40, '\xff');
  Bytes f = ref::hash_blocks(d, {which == 1 ? size_t(7) : size_t(20)});
  for (size_t bit = 0; bit < f.size() * 8; ++bit) {
    Bytes g = f;
    g[bit / 8] ^= char(1 << bit % 8);
    std::istringstream is(g);
    keepass::hashed_istreambuf sb(is);
    std::string how;
    ReadResult r = read_all(c, sb, &how);
    PBT_REQUIRE(r.error, "damage-unreported", "bit " << bit << " of " << f.size() << " bytes flipped (" << how << "): no error");
    PBT_REQUIRE(d.compare(0, r.data.size(), r.data) == 0, "damaged-bytes-delivered", "bit " << bit << " flipped: wrong bytes delivered");
    c.eval();
    c.nontrivial(g);
  }
  for (size_t n = 0; n < f.size(); ++n) {
    std::istringstream is(f.substr(0, n));
    keepass::hashed_istreambuf sb(is);
    std::string how;
    ReadResult r = read_all(c, sb, &how);
    PBT_REQUIRE(r.error, "truncation-unreported", "truncation to " << n << " of " << f.size() << " bytes (" << how << "): no error");
    PBT_REQUIRE(d.compare(0, r.data.size(), r.data) == 0, "damaged-bytes-delivered", "truncation: wrong bytes delivered");
    c.eval();
    c.nontrivial(f.substr(0, n));
  }
  c.describe("all bit flips and truncations of " + std::to_string(f.size()) + " bytes");
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C12";
  k.rule = "distinct framed or written byte sequences with their block sizes and patterns";
  k.assumptions = {"the stream is written once and flushed once at its end, as the library's callers do", "a reader that has reported an error is not used further", "an error is an exception from the stream buffer or the bad state of the istream around it"};
  k.subs = {{"written", 8000, 250000, written}, {"written-default", 16, 200, written_default}, {"divided", 5000, 150000, divided}, {"damaged", 15000, 600000, damaged}, {"exhaustive", 30, 3000, exhaustive, true}, {"sink", 4000, 120000, sink}};
  return pbt::run_check(k, argc, argv);
}
