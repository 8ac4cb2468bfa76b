// C13: the gzip stream is lossless, standard and detects damage.
#include <sstream>

#include "patterns.hh"
#include "stream.hh"
using namespace harness;

namespace {
// Content of a given length and compressibility.
Bytes content(Case& c, size_t n) {
  Bytes d = c.t.bytes(n);
  switch (c.t.below(5)) {
    case 0: return d;
    case 1: return Bytes(n, char(c.t.below(256)));
    case 2: for (auto& ch : d) ch = "abcd <>"[uint8_t(ch) % 7]; return d;
    case 3: { size_t p = 1 + c.t.below(40000); for (size_t i = p; i < n; ++i) d[i] = d[i - p]; return d; }
    default: for (size_t i = 0; i < n; ++i) if (i / 997 % 2) d[i] = 'z'; return d;
  }
}
size_t length(Case& c) {
  static const std::vector<size_t> v = {0, 1, 2, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65535, 65536, 100000, 163840};
  switch (c.t.pick({4, 2, 2})) {
    case 0: return c.t.below(600);
    case 1: { size_t n = c.t.of(v) + c.t.below(6); return n > 3 ? n - 3 : n; }
    default: return c.t.below(60000);
  }
}
Bytes lib_write(Case& c, const Bytes& d, std::string* what) {
  std::ostringstream os;
  {
    keepass::gzip_ostreambuf sb(os);
    bool ok = WritePattern::run(c, sb, d, what);
    PBT_REQUIRE(ok, "write-failed", *what << ": writing to a memory stream failed");
    std::ostream o(&sb);
    o.flush();
    PBT_REQUIRE(o.good(), "write-failed", *what << ": flushing to a memory stream failed");
  }
  return os.str();
}
ReadResult lib_read(Case& c, const Bytes& z, std::string* what, size_t limit) {
  ReadResult r;
  if (c.t.chance(1, 2)) {
    std::istringstream is(z);
    keepass::gzip_istreambuf sb(is);
    r = read_all(c, sb, what, limit);
  } else {
    PieceSource ps(z, 1 + c.t.below(c.t.chance(1, 2) ? 5 : 40000), c.t.sub());
    std::istream is(&ps);
    keepass::gzip_istreambuf sb(is);
    r = read_all(c, sb, what, limit);
    *what += ", source in pieces";
  }
  return r;
}
// A valid member made some other way: level, strategy, memory, window, flush
// points, optional header fields, stored blocks.
Bytes foreign(Case& c, const Bytes& d, std::string* what) {
  int level = int(c.t.below(10)), strategy = int(c.t.below(5)), mem = 1 + int(c.t.below(9)), wbits = 9 + int(c.t.below(7));
  std::vector<size_t> pts;
  size_t np = c.t.chance(1, 2) ? 0 : c.t.below(6);
  for (size_t i = 0; i < np; ++i) pts.push_back(c.t.below(d.size() + 1));
  std::sort(pts.begin(), pts.end());
  static const std::vector<int> kinds = {1, 2, 3, 5};
  int kind = c.t.of(kinds);
  Bytes z = ref::gzip(d, level, strategy, mem, wbits, pts, kind);
  *what = "level " + std::to_string(level) + " strategy " + std::to_string(strategy) + " mem " + std::to_string(mem) + " window " + std::to_string(wbits) + " flushes " + std::to_string(np) + "x" + std::to_string(kind);
  if (c.t.chance(1, 3)) {  // optional header fields
    Bytes h = z.substr(0, 10), extra;
    int fl = 0;
    if (c.t.chance(1, 2)) { fl |= 4; Bytes x = c.t.bytes(c.t.below(c.t.chance(1, 8) ? 40000 : 50)); ref::put16(extra, uint32_t(x.size())); extra += x; }
    if (c.t.chance(1, 2)) { fl |= 8; extra += "name-of-file.xml" + Bytes(1, '\0'); }
    if (c.t.chance(1, 2)) { fl |= 16; extra += "a comment" + Bytes(1, '\0'); }
    if (c.t.chance(1, 2)) fl |= 1;
    h[3] = char(fl);
    for (int i = 4; i < 8; ++i) h[size_t(i)] = char(c.t.below(256));
    h[8] = char(c.t.below(256));
    h[9] = char(c.t.below(256));
    z = h + extra + z.substr(10);
    *what += " header flags " + std::to_string(fl);
  }
  if (c.t.chance(1, 12)) {  // stored blocks of odd sizes, some empty
    Bytes body;
    size_t p = 0;
    do {
      size_t n = std::min<size_t>(d.size() - p, c.t.below(c.t.chance(1, 4) ? 65536 : 3000));
      bool last = p + n == d.size();
      body += char(last ? 1 : 0);
      ref::put16(body, uint32_t(n));
      ref::put16(body, uint32_t(n) ^ 0xffff);
      body += d.substr(p, n);
      p += n;
      if (last) break;
      if (body.size() > 3000000) { return z; }
    } while (true);
    Bytes tail = z.substr(z.size() - 8);
    z = Bytes("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10) + body + tail;
    *what = "stored blocks";
  }
  return z;
}
}  // namespace

static void written(Case& c) {
  size_t n = length(c);
  Bytes d = content(c, n);
  std::string how, how2;
  Bytes z = lib_write(c, d, &how);
  c.describe(std::to_string(n) + " bytes to " + std::to_string(z.size()) + ", " + how);
  c.label("write:" + how);
  c.nontrivial(d + how);
  Bytes back;
  size_t used = 0;
  try { back = ref::gunzip(z, &used); } catch (const ref::Error& e) { pbt::fail("not-gzip", std::to_string(n) + " bytes (" + how + "): " + e.what()); }
  PBT_REQUIRE(back == d, "content", n << " bytes (" << how << ") expand to " << back.size() << " bytes: " << pbt::first_diff(back, d));
  PBT_REQUIRE(used == z.size(), "trailing", n << " bytes (" << how << "): " << z.size() - used << " bytes follow the gzip member");
  ReadResult r = lib_read(c, z, &how2, d.size() + 100);
  c.label("read:" + how2.substr(0, how2.find(',')));
  PBT_REQUIRE(!r.error && r.data == d, "round-trip", n << " bytes (" << how << "; " << how2 << ") read back as " << r.data.size() << " bytes" << (r.error ? " with an error" : "") << ": " << pbt::first_diff(r.data, d));
}

static void foreign_read(Case& c) {
  size_t n = length(c);
  Bytes d = content(c, n);
  std::string what, how;
  Bytes z = foreign(c, d, &what);
  size_t used = 0;
  if (ref::gunzip(z, &used) != d || used != z.size()) pbt::fail("harness", "the foreign member is not valid: " + what);
  ReadResult r = lib_read(c, z, &how, d.size() + 100);
  c.describe(std::to_string(n) + " bytes, " + what + ", " + how);
  c.label("read:" + how.substr(0, how.find(',')));
  c.nontrivial(z);
  PBT_REQUIRE(!r.error && r.data == d, "foreign", n << " bytes compressed with " << what << " (" << how << ") read as " << r.data.size() << " bytes" << (r.error ? " with an error" : "") << ": " << pbt::first_diff(r.data, d));
}

// Compressed sizes around the multiples of the reader's buffer.
static void aligned(Case& c) {
  size_t target = 16384 * (1 + c.t.below(3)) + c.t.below(41) - 20;
  // Stored (level 0) data gives control over the compressed size.
  size_t n = target - 18 - 5;
  Bytes d = c.t.bytes(n), z;
  for (int i = 0; i < 4; ++i) {
    z = ref::gzip(d, 0);
    if (z.size() == target) break;
    n = n + target - z.size();
    d = c.t.bytes(n);
  }
  std::string how;
  ReadResult r = lib_read(c, z, &how, d.size() + 100);
  c.describe(std::to_string(z.size()) + " compressed bytes, " + how);
  c.nontrivial(z);
  PBT_REQUIRE(!r.error && r.data == d, "aligned", "member of " << z.size() << " bytes (" << how << ") read as " << r.data.size() << " of " << d.size() << " bytes" << (r.error ? " with an error" : ""));
  size_t cut = 1 + c.t.below(30);
  r = lib_read(c, z.substr(0, z.size() - cut), &how, d.size() + 100);
  PBT_REQUIRE(r.error, "truncation-unreported", "member of " << z.size() << " bytes cut by " << cut << " (" << how << "): no error, " << r.data.size() << " bytes delivered");
  PBT_REQUIRE(d.compare(0, r.data.size(), r.data) == 0, "wrong-bytes", "truncated member delivers other bytes");
}

static void damaged(Case& c) {
  size_t n = c.t.chance(1, 4) ? length(c) : 1 + c.t.below(400);
  Bytes d = content(c, n);
  std::string how, what;
  Bytes z = c.t.chance(1, 3) ? lib_write(c, d, &how) : foreign(c, d, &what), orig = z;
  bool cut = false;
  switch (c.t.below(7)) {
    case 0: case 1: { size_t p = c.t.below(z.size()); z.resize(p); what = "truncated to " + std::to_string(p) + " of " + std::to_string(orig.size()); cut = true; break; }
    case 2: { size_t k = 1 + c.t.below(std::min<size_t>(9, z.size())); z.resize(z.size() - k); what = "truncated by " + std::to_string(k); cut = true; break; }
    case 3: { size_t p = c.t.below(z.size()); z[p] ^= char(1 << c.t.below(8)); what = "bit flipped at " + std::to_string(p) + " of " + std::to_string(z.size()); break; }
    case 4: { size_t p = z.size() - 1 - c.t.below(8); z[p] ^= char(1 + c.t.below(255)); what = "trailer damaged"; break; }
    case 5: { size_t p = 10 + c.t.below(z.size() - 10); z.erase(p, 1 + c.t.below(10)); what = "bytes removed at " + std::to_string(p); break; }
    default: { size_t p = c.t.below(z.size()); for (size_t i = 0; i < 5 && p + i < z.size(); ++i) z[p + i] = char(c.t.below(256)); what = "overwritten at " + std::to_string(p); break; }
  }
  if (z == orig) pbt::discard();
  ReadResult r = lib_read(c, z, &how, d.size() * 2 + 2000000);
  c.describe(what + ", " + how);
  c.label("damage:" + what.substr(0, what.find_first_of("0123456789")));
  c.label(r.error ? "outcome:error" : "outcome:intact");
  c.nontrivial(z);
  PBT_REQUIRE(r.std_error, "not-std-exception", "not a standard exception");
  if (cut) PBT_REQUIRE(r.error, "truncation-unreported", what << " (" << how << "): no error, " << r.data.size() << " of " << d.size() << " bytes delivered");
  if (!r.error) PBT_REQUIRE(r.data == d, "damage-unreported", what << " (" << how << "): no error, but " << r.data.size() << " bytes instead of " << d.size() << " are delivered: " << pbt::first_diff(r.data, d));
  if (cut) PBT_REQUIRE(r.data.size() <= d.size() && d.compare(0, r.data.size(), r.data) == 0, "wrong-bytes", what << ": delivers other bytes before the error");
}

// Data after the last deflate block is cut off at every single point.
static void every_cut(Case& c) {
  Bytes d = content(c, c.t.below(120));
  std::string how, what;
  Bytes z = c.t.chance(1, 2) ? lib_write(c, d, &how) : foreign(c, d, &what);
  if (z.size() > 3000) pbt::discard();
  c.describe("every truncation of " + std::to_string(z.size()) + " bytes");
  for (size_t n = 0; n < z.size(); ++n) {
    std::istringstream is(z.substr(0, n));
    keepass::gzip_istreambuf sb(is);
    ReadResult r = read_all(c, sb, &how, 100000);
    PBT_REQUIRE(r.error, "truncation-unreported", "truncated to " << n << " of " << z.size() << " bytes (" << how << "): no error, " << r.data.size() << " of " << d.size() << " bytes delivered");
    c.eval();
    c.nontrivial(z.substr(0, n));
  }
}

// The destination of the writer fails.
static void sink(Case& c) {
  Bytes d = content(c, length(c));
  std::ostringstream os;
  { keepass::gzip_ostreambuf sb(os); sb.sputn(d.data(), std::streamsize(d.size())); std::ostream o(&sb); o.flush(); }
  sink_failure(c, d, os.str(), [&](std::ostream& o) { return std::unique_ptr<std::streambuf>(new keepass::gzip_ostreambuf(o)); });
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C13";
  k.rule = "distinct (content, write pattern) pairs, foreign members and damaged members";
  k.assumptions = {"the stream is written once and flushed once at its end, as the library's callers do", "damage is random, so that fitting CRC-32 and length by chance has probability 2^-64 per case; header bytes that carry no content may change without an error as long as the content is intact", "one member per stream"};
  k.subs = {{"written", 5000, 150000, written}, {"foreign", 6000, 200000, foreign_read}, {"aligned", 1500, 30000, aligned}, {"damaged", 10000, 400000, damaged}, {"every-cut", 200, 5000, every_cut}, {"sink", 1500, 45000, sink}};
  return pbt::run_check(k, argc, argv);
}
