// C14: base64 is exact, and bounded decoding cannot overrun.
#include <iterator>
#include <list>
#include <sstream>

#include "base64.hh"
#include "common.hh"
#include "iterator.hh"
using namespace harness;

namespace {
const std::string kAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const std::string kSpace = " \t\n\r\v\f";

// Encodes through one of the iterator kinds the template accepts.
std::string encode(Case& c, const Bytes& d, std::string* how) {
  switch (c.t.below(7)) {
    case 0: *how = "string"; return keepass::base64_encode(d);
    case 1: { *how = "vector<uint8_t>"; std::vector<uint8_t> v(d.begin(), d.end()); return keepass::base64_encode(v.begin(), v.end()); }
    case 2: { *how = "vector<char>"; std::vector<char> v(d.begin(), d.end()); return keepass::base64_encode(v.begin(), v.end()); }
    case 3: { *how = "list"; std::list<uint8_t> v(d.begin(), d.end()); return keepass::base64_encode(v.begin(), v.end()); }
    case 4: { *how = "istreambuf_iterator"; std::istringstream s(d); return keepass::base64_encode(std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>()); }
    case 5: { *how = "pointers"; const uint8_t* p = reinterpret_cast<const uint8_t*>(d.data()); return keepass::base64_encode(p, p + d.size()); }
    default: { *how = "const_iterator"; return keepass::base64_encode(d.cbegin(), d.cend()); }
  }
}
// Decodes through one of the destination kinds.
Bytes decode(Case& c, const std::string& t, std::string* how) {
  switch (c.t.below(6)) {
    case 0: *how = "string"; return keepass::base64_decode(t);
    case 1: { *how = "vector<uint8_t>"; std::vector<uint8_t> v; keepass::base64_decode(t, std::back_inserter(v)); return Bytes(v.begin(), v.end()); }
    case 2: { *how = "vector<char>"; std::vector<char> v; keepass::base64_decode(t, std::back_inserter(v)); return Bytes(v.begin(), v.end()); }
    case 3: { *how = "ostreambuf_iterator"; std::ostringstream o; keepass::base64_decode(t, std::ostreambuf_iterator<char>(o)); return o.str(); }
    case 4: { *how = "pointer"; Bytes v(t.size() + 1, 'G'); keepass::base64_decode(t, reinterpret_cast<uint8_t*>(&v[0])); size_t n = ref::unb64([&] { std::string s; for (char ch : t) if (kSpace.find(ch) == Bytes::npos) s += ch; return s; }()).size(); for (size_t i = n; i < v.size(); ++i) PBT_REQUIRE(v[i] == 'G', "overrun", "decoding wrote past the decoded size"); return v.substr(0, n); }
    default: { *how = "inserter"; std::list<uint8_t> v; keepass::base64_decode(t, std::inserter(v, v.begin())); return Bytes(v.begin(), v.end()); }
  }
}
std::string spaced(Case& c, const std::string& t) {
  std::string o;
  int kind = int(c.t.below(4));
  static const std::vector<size_t> widths = {1, 2, 3, 4, 5, 64, 76};
  size_t width = c.t.of(widths);
  pbt::SplitMix r = c.t.sub();
  auto ws = [&] { return kSpace[(r.next() >> 16) % kSpace.size()]; };
  if (kind == 0) o += ws();
  for (size_t i = 0; i < t.size(); ++i) {
    if (kind == 1 && i && i % width == 0) o += "\r\n";
    if (kind == 2 && (r.next() >> 16) % 3 == 0) o += std::string(1 + (r.next() >> 16) % 3, ws());
    o += t[i];
  }
  if (kind != 1 || c.t.chance(1, 2)) o += ws();
  if (kind == 3) o = std::string(3, ws()) + o;
  return o;
}
}  // namespace

static void exact(Case& c) {
  size_t n = c.t.chance(1, 20) ? c.t.below(20000) : c.t.below(200);
  Bytes d = c.t.bytes(n);
  if (c.t.chance(1, 5)) d = Bytes(n, char(c.t.chance(1, 2) ? 0xff : 0));
  std::string how, how2, how3;
  std::string t = encode(c, d, &how), want = ref::b64(d);
  PBT_REQUIRE(t == want, "encode", "encoding " << pbt::hex(d, 24) << " (" << n << " bytes, " << how << ") gives " << pbt::quote(t) << ", standard " << pbt::quote(want));
  Bytes back = decode(c, want, &how2);
  PBT_REQUIRE(back == d, "decode", "decoding " << pbt::quote(want) << " (" << how2 << ") gives " << pbt::hex(back, 24) << " instead of " << pbt::hex(d, 24));
  std::string sp = spaced(c, want);
  Bytes back2 = decode(c, sp, &how3);
  PBT_REQUIRE(back2 == d, "white-space", "decoding " << pbt::quote(sp) << " (" << how3 << ") gives " << pbt::hex(back2, 24) << " instead of " << pbt::hex(d, 24));
  c.describe(std::to_string(n) + " bytes, " + how + ", " + how2 + ", " + how3);
  c.label("encode:" + how);
  c.label("decode:" + how2);
  c.label("rest:" + std::to_string(n % 3));
  if (n) c.nontrivial(d + how + how2);
}

// All sequences of up to two bytes, and (thorough) of three; the first byte is
// the case index.
static void short_all(Case& c) {
  unsigned a = unsigned(c.t.below(256));
  auto one = [&](const Bytes& d) {
    std::string t = keepass::base64_encode(d);
    if (t != ref::b64(d)) pbt::fail("encode", "encoding " + pbt::hex(d) + " gives " + pbt::quote(t));
    if (keepass::base64_decode(t) != d) pbt::fail("decode", "decoding " + pbt::quote(t) + " gives " + pbt::hex(keepass::base64_decode(t)));
    c.eval();
  };
  one(Bytes());
  one(Bytes(1, char(a)));
  for (unsigned b = 0; b < 256; ++b) {
    Bytes d{char(a), char(b)};
    one(d);
    c.nontrivial(d);
    if (c.thorough) for (unsigned e = 0; e < 256; ++e) one(Bytes{char(a), char(b), char(e)});
  }
  c.describe("all sequences starting with " + std::to_string(a));
}

static void rejects(Case& c) {
  Bytes d = c.t.bytes(c.t.below(60));
  std::string t = ref::b64(d), what;
  switch (c.t.below(6)) {
    case 0: {  // a foreign character
      if (t.empty()) t = "AAAA";
      std::string foreign;
      for (int i = 0; i < 256; ++i) if (kAlphabet.find(char(i)) == Bytes::npos && kSpace.find(char(i)) == Bytes::npos && i != '=') foreign += char(i);
      size_t p = c.t.below(t.size());
      while (p && t[p] == '=') --p;
      t[p] = foreign[c.t.below(foreign.size())];
      what = "foreign character";
      break;
    }
    case 1: {  // length
      size_t k = 1 + c.t.below(3);
      if (t.empty() || c.t.chance(1, 2)) { std::string u = t; while (!u.empty() && u.back() == '=') u.pop_back(); u = u.substr(0, u.size() / 4 * 4); t = u; for (size_t i = 0; i < k; ++i) t += kAlphabet[c.t.below(64)]; }
      else t.resize(t.size() - k);
      if (t.size() % 4 == 0) t += "A";
      what = "length " + std::to_string(t.size());
      break;
    }
    case 2: {  // padding missing
      while (!t.empty() && t.back() == '=') t.pop_back();
      if (t.size() % 4 == 0) t += c.t.chance(1, 2) ? "AB" : "ABC";
      what = "padding missing";
      break;
    }
    case 3: {  // padding in the middle, or too much of it
      t = ref::b64(c.t.bytes(3 * (1 + c.t.below(8))));
      size_t p = c.t.below(t.size() - 2);
      t[p] = '=';
      what = "padding inside";
      break;
    }
    case 4: t = ref::b64(c.t.bytes(3 * c.t.below(8))) + (c.t.chance(1, 2) ? "====" : "A==="); what = "too much padding"; break;
    default: t = ref::b64(c.t.bytes(3 * c.t.below(8) + 1 + c.t.below(2))) + ref::b64(c.t.bytes(1 + c.t.below(8))); what = "data after padding"; break;
  }
  if (c.t.chance(1, 4)) t = spaced(c, t);
  c.describe(what + ": " + pbt::quote(t, 40));
  c.label("reject:" + what.substr(0, what.find(' ')));
  c.nontrivial(t);
  Bytes got;
  Outcome o = guarded([&] { got = keepass::base64_decode(t); });
  PBT_REQUIRE(o.kind != kUnknown, "not-std-exception", "not a standard exception");
  PBT_REQUIRE(!o.ok(), "accepted", "text that is not base64 (" << what << ") " << pbt::quote(t) << " decodes to " << pbt::hex(got) << " without an error");
  Outcome v = guarded([&] { std::vector<uint8_t> b; keepass::base64_decode(t, std::back_inserter(b)); });
  PBT_REQUIRE(!v.ok(), "accepted", "text that is not base64 (" << what << ") is decoded into a vector");
}
// Each of the 256 characters in each place of a group.
static void every_char(Case& c) {
  size_t i = c.t.below(256);
  for (size_t p = 0; p < 8; ++p) {
    std::string t = "QUJDREVG";
    t[p] = char(i);
    bool ok = kAlphabet.find(char(i)) != Bytes::npos || (i == '=' && p == 7);
    // A space leaves seven characters, which is no multiple of four.
    Bytes got;
    Outcome o = guarded([&] { got = keepass::base64_decode(t); });
    PBT_REQUIRE(o.ok() == ok, ok ? "rejected" : "accepted", "character " << i << " in place " << p << (ok ? " is rejected: " + o.str() : " is accepted"));
    if (ok) PBT_REQUIRE(got == ref::unb64(t) || i == '=', "decode", "decoding " << t << " gives " << pbt::hex(got));
    if (i == '=') { if (ok) PBT_REQUIRE(got == Bytes("ABCDE"), "decode", "decoding " << t << " gives " << pbt::hex(got)); }
    c.eval();
    c.nontrivial(t);
  }
  c.describe("character " + std::to_string(i));
}

template <size_t N> struct Guarded {
  std::array<uint8_t, 48> before;
  std::array<uint8_t, N> a;
  std::array<uint8_t, 48> after;
  Guarded() { before.fill(0xa5); a.fill(0x5a); after.fill(0xa5); }
  bool intact() const { for (auto b : before) if (b != 0xa5) return false; for (auto b : after) if (b != 0xa5) return false; return true; }
};
template <size_t N> void bounded_n(Case& c) {
  static const std::vector<int> delta = {0, -1, 1, -2, 2, -3, 3};
  int64_t want = c.t.chance(2, 3) ? int64_t(N) + c.t.of(delta) : int64_t(c.t.below(3 * N + 10));
  size_t n = want < 0 ? 0 : size_t(want);
  Bytes d = c.t.bytes(n);
  std::string t = ref::b64(d);
  if (c.t.chance(1, 3)) t = spaced(c, t);
  auto g = std::make_unique<Guarded<N>>();
  Outcome o = guarded([&] { keepass::base64_decode(t, keepass::bounds_checked(g->a)); });
  std::string what = std::to_string(n) + " bytes into " + std::to_string(N);
  c.describe(what);
  c.label(n <= N ? "fits" : "too long");
  c.nontrivial(d + std::to_string(N));
  PBT_REQUIRE(g->intact(), "overrun", what << ": bytes outside the destination were written");
  if (n <= N) {
    PBT_REQUIRE(o.ok(), "rejected", what << ": " << o.str());
    PBT_REQUIRE(Bytes(g->a.begin(), g->a.begin() + n) == d, "decode", what << " gives " << pbt::hex(Bytes(g->a.begin(), g->a.begin() + n)));
    for (size_t i = n; i < N; ++i) PBT_REQUIRE(g->a[i] == 0x5a, "overrun", what << ": byte " << i << " past the data was written");
  } else {
    PBT_REQUIRE(!o.ok(), "overlong-accepted", what << ": no error");
    PBT_REQUIRE(o.kind != kUnknown, "not-std-exception", what);
  }
  // The iterator on its own, advanced and assigned in the usual ways.
  Guarded<N> h;
  auto it = keepass::bounds_checked(h.a);
  size_t at = 0;
  bool over = false;
  size_t ops = c.t.below(2 * N + 6);
  Outcome q = guarded([&] {
    for (size_t i = 0; i < ops; ++i) {
      uint8_t b = uint8_t(i * 7 + 1);
      over = at >= N;
      switch (c.t.below(3)) {
        case 0: *it = b; if (!over) PBT_REQUIRE(h.a[at] == b, "iterator", "assignment " << i << " did not reach element " << at); ++it; break;
        case 1: *it++ = b; if (!over) PBT_REQUIRE(h.a[at] == b, "iterator", "post-increment assignment " << i << " did not reach element " << at); break;
        default: { const uint8_t cb = b; it = cb; if (!over) PBT_REQUIRE(h.a[at] == b, "iterator", "assignment " << i << " did not reach element " << at); ++it; break; }
      }
      ++at;
    }
  });
  PBT_REQUIRE(h.intact(), "overrun", "the bounded iterator wrote outside its array");
  PBT_REQUIRE(q.ok() == (ops <= N), "iterator", ops << " assignments to " << N << " elements: " << q.str());
}
static void bounded(Case& c) {
  switch (c.t.below(8)) {
    case 0: return bounded_n<16>(c);
    case 1: return bounded_n<32>(c);
    case 2: return bounded_n<1>(c);
    case 3: return bounded_n<2>(c);
    case 4: return bounded_n<3>(c);
    case 5: return bounded_n<8>(c);
    case 6: return bounded_n<33>(c);
    default: return bounded_n<64>(c);
  }
}
// The ranges the iterator is used on are also heap vectors.
static void bounded_vec(Case& c) {
  size_t cap = c.t.below(70), n = c.t.chance(1, 2) ? cap + c.t.below(4) : c.t.below(100);
  Bytes d = c.t.bytes(n);
  std::vector<uint8_t> v(cap, 0x5a);
  Outcome o = guarded([&] { keepass::base64_decode(ref::b64(d), keepass::bounds_checked(v)); });
  c.describe(std::to_string(n) + " bytes into a vector of " + std::to_string(cap));
  c.nontrivial(d + std::to_string(cap));
  PBT_REQUIRE(v.size() == cap, "overrun", "the vector changed its size");
  if (n <= cap) {
    PBT_REQUIRE(o.ok(), "rejected", n << " bytes into " << cap << ": " << o.str());
    PBT_REQUIRE(Bytes(v.begin(), v.begin() + long(n)) == d, "decode", n << " bytes into " << cap);
  } else {
    PBT_REQUIRE(!o.ok(), "overlong-accepted", n << " bytes into " << cap << ": no error");
  }
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C14";
  k.rule = "distinct byte sequences, texts and destination sizes";
  k.assumptions = {"unused bits of the last character before padding are not constrained", "white space is space, tab, line feed, carriage return, vertical tab and form feed"};
  k.subs = {{"exact", 30000, 1000000, exact}, {"short", 256, 256, short_all, true, 300}, {"rejects", 20000, 600000, rejects}, {"every-char", 256, 256, every_char, true}, {"bounded", 20000, 600000, bounded}, {"bounded-vector", 6000, 100000, bounded_vec}};
  return pbt::run_check(k, argc, argv);
}
