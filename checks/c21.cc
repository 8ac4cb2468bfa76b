// C21: identifiers and start bytes do not repeat and are not predictable.
// The library's real randomness is used here; a violation is statistical, with
// a probability below 1e-9 of being raised on a sound source.
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstring>
#include <thread>

#include "common.hh"
using namespace harness;
using keepass::Entry;
using keepass::Group;
using keepass::Key;

namespace {
typedef std::vector<Bytes> Ids;

Bytes make(unsigned kind) {
  if (kind & 1) { Entry e; return bridge::str(e.uuid()); }
  Group g;
  return bridge::str(g.uuid());
}

void distinct(Ids v, const std::string& what, size_t allow = 0) {
  std::sort(v.begin(), v.end());
  size_t dup = 0;
  std::string first;
  for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) { if (!dup++) first = pbt::hex(v[i]); }
  PBT_REQUIRE(dup <= allow, "repeated", what << ": " << dup << " of " << v.size() << " repeat, for example " << first);
}
// No eight consecutive bytes, at any offset of the stream of values, come
// again: 2^23 windows of 64 random bits collide with a probability of 2^-19,
// so more than two collisions do not happen. Finds generators of small period
// and states of up to about 40 bits, whatever their alignment.
void windows(const Ids& v, const std::string& what) {
  Bytes all;
  for (auto& x : v) all += x;
  std::vector<uint64_t> h;
  h.reserve(all.size());
  for (size_t i = 0; i + 8 <= all.size(); ++i) { uint64_t u; memcpy(&u, all.data() + i, 8); h.push_back(u); }
  std::sort(h.begin(), h.end());
  size_t dup = 0;
  for (size_t i = 1; i < h.size(); ++i) dup += h[i] == h[i - 1];
  PBT_REQUIRE(dup <= 2, "recurring", what << ": " << dup << " of the " << h.size() << " sequences of eight bytes come again");
}
// Shortest linear feedback register over GF(2) (Berlekamp-Massey).
size_t linear_complexity(const std::vector<bool>& s) {
  size_t n = s.size(), W = n / 64 + 2, L = 0;
  long m = -1;
  // win holds the last bits reversed: bit i of win = s[N - i].
  std::vector<uint64_t> C(W), B(W), T, win(W);
  C[0] = B[0] = 1;
  for (size_t N = 0; N < n; ++N) {
    size_t lim = std::min(W, N / 64 + 2);
    for (size_t k = lim; k-- > 1;) win[k] = win[k] << 1 | win[k - 1] >> 63;
    win[0] = win[0] << 1 | uint64_t(s[N]);
    uint64_t d = 0;
    for (size_t k = 0; k <= L / 64; ++k) d ^= C[k] & win[k];
    if (!(__builtin_popcountll(d) & 1)) continue;
    bool grow = 2 * L <= N;
    if (grow) T = C;
    size_t sh = size_t(long(N) - m), ws = sh / 64, bs = sh % 64;
    for (size_t k = ws; k < W; ++k) { C[k] ^= B[k - ws] << bs; if (bs && k > ws) C[k] ^= B[k - ws - 1] >> (64 - bs); }
    if (grow) { L = N + 1 - L; m = long(N); B = T; }
  }
  return L;
}
// The stream of one bit of each step bytes has no linear recurrence: the
// complexity of n random bits is n / 2 with deviations beyond 40 of
// probability 2^-80. Finds xorshift, Mersenne Twister and feedback registers.
void nonlinear(const Bytes& all, size_t step, size_t bit, size_t max_bits, const std::string& what) {
  std::vector<bool> s;
  size_t ones = 0;
  for (size_t i = bit / 8; i < all.size() && s.size() < max_bits; i += step) { s.push_back(uint8_t(all[i]) >> (bit % 8) & 1); ones += s.back(); }
  if (ones == 0 || ones == s.size()) return;  // a fixed bit, judged by spread()
  size_t L = linear_complexity(s);
  PBT_REQUIRE(L + 40 >= s.size() / 2, "linear", what << ": " << s.size() << " bits (bit " << bit << " of every " << step << " bytes) follow a linear recurrence of length " << L);
}
Bytes join(const Ids& v) { Bytes b; for (auto& x : v) b += x; return b; }
// Dimension of the span over GF(2).
size_t rank(const Ids& v, size_t max_rows) {
  std::vector<std::vector<uint64_t>> rows;
  size_t bits = v[0].size() * 8, r = 0;
  for (size_t i = 0; i < v.size() && i < max_rows; ++i) {
    std::vector<uint64_t> w((bits + 63) / 64);
    memcpy(w.data(), v[i].data(), v[i].size());
    rows.push_back(w);
  }
  for (size_t b = 0; b < bits; ++b) {
    size_t p = r;
    while (p < rows.size() && !(rows[p][b / 64] >> (b % 64) & 1)) ++p;
    if (p == rows.size()) continue;
    std::swap(rows[p], rows[r]);
    for (size_t i = r + 1; i < rows.size(); ++i) if (rows[i][b / 64] >> (b % 64) & 1) for (size_t k = 0; k < rows[r].size(); ++k) rows[i][k] ^= rows[r][k];
    ++r;
  }
  return r;
}
Ids differences(const Ids& v, size_t lag, bool sub) {
  Ids d;
  for (size_t i = lag; i < v.size(); ++i) {
    Bytes x = v[i];
    if (!sub) for (size_t k = 0; k < x.size(); ++k) x[k] = char(x[k] ^ v[i - lag][k]);
    else for (size_t k = 0; k < x.size(); ++k) x[k] = char(x[k] - v[i - lag][k]);
    d.push_back(x);
  }
  return d;
}
// At least 15 of 16 bits are free, in any linear combination: constant bits,
// repeated or related bytes, counters and short xor generators have less.
void spread(const Ids& v, const std::string& what) {
  if (v.size() < 600) return;
  size_t bits = v[0].size() * 8, need = bits * 15 / 16;
  for (size_t lag = 1; lag <= 3; ++lag)
    for (int s = 0; s < 2; ++s) {
      size_t r = rank(differences(v, lag, s), 2 * bits + 64);
      PBT_REQUIRE(r >= need, "dependent", what << ": differences at distance " << lag << " span " << r << " of " << bits << " bits");
    }
  // Each of the free bits is balanced: 8 sigma; at most a sixteenth is fixed.
  size_t off = 0;
  std::string which;
  for (size_t b = 0; b < bits; ++b) {
    double n = 0;
    for (auto& x : v) n += x[b / 8] >> (b % 8) & 1;
    if (std::fabs(n - v.size() / 2.0) > 4.0 * std::sqrt(double(v.size()))) { ++off; which += " " + std::to_string(b); }
  }
  PBT_REQUIRE(off <= bits / 16, "unbalanced", what << ": bits" << which << " are unbalanced over " << v.size());
  // No byte depends on another one (sum over pairs with fixed lag; 256x256
  // cells), nor on the byte of the previous value.
  if (v.size() >= (1u << 17)) {
    for (size_t d = 0; d <= v[0].size(); ++d) {
      for (size_t i = 0; i < v[0].size(); i += 5) {
        std::vector<uint32_t> cell(65536);
        size_t j = (i + d) % v[0].size();
        if (d == 0) continue;
        bool prev = d == v[0].size();
        for (size_t k = 1; k < v.size(); ++k) ++cell[size_t(uint8_t(v[k][i])) << 8 | uint8_t(prev ? v[k - 1][i] : v[k][j])];
        double e = double(v.size() - 1) / 65536, x2 = 0;
        for (auto n : cell) x2 += (n - e) * (n - e) / e;
        // Mean 65535, sigma 362. Fixed bits would double it; that many are
        // judged above, so only bytes without fixed bits are judged here.
        double z = (x2 - 65535) / 362;
        if (z < 12) continue;
        bool fixed = false;
        for (size_t b : {i, j}) { uint8_t o = 0, a = 255; for (auto& x : v) { o |= uint8_t(x[b]); a &= uint8_t(x[b]); } if (o != 255 || a != 0) fixed = true; }
        PBT_REQUIRE(fixed, "correlated", what << ": byte " << i << (prev ? " depends on that of the previous value" : " depends on byte " + std::to_string(j)) << " (z = " << z << ")");
      }
    }
  }
}

struct Shared {
  uint8_t* p;
  size_t n;
  explicit Shared(size_t size) : n(size) {
    p = static_cast<uint8_t*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (p == MAP_FAILED) pbt::fail("harness", "mmap");
  }
  ~Shared() { munmap(p, n); }
};
const unsigned kWorkers = 8;

// Runs f(worker) in several child processes.
void in_processes(unsigned n, const std::function<void(unsigned)>& f) {
  std::vector<pid_t> ps;
  for (unsigned w = 0; w < n; ++w) {
    pid_t p = fork();
    if (p == 0) { try { f(w); } catch (...) { _exit(3); } _exit(0); }
    if (p < 0) pbt::fail("harness", "fork");
    ps.push_back(p);
  }
  bool ok = true;
  for (pid_t p : ps) { int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} ok = ok && WIFEXITED(st) && WEXITSTATUS(st) == 0; }
  PBT_REQUIRE(ok, "crash", "a process that creates objects failed");
}

const keepass::Database& small_db() {
  static std::shared_ptr<keepass::Database> db;
  if (!db) {
    db = std::make_shared<keepass::Database>();
    db->set_root(std::make_shared<Group>());
    db->set_meta(std::make_shared<keepass::Metadata>());
    db->set_master_seed(std::vector<uint8_t>(32, 1));
    db->set_transform_rounds(1);
    db->set_compress(false);
  }
  return *db;
}
// Start bytes of an exported file of small_db().
Bytes start_bytes(const Bytes& f) {
  static Bytes key, cached;
  size_t pos = 12;
  Bytes ms, ts, civ, rounds;
  for (;;) {
    PBT_REQUIRE(pos + 3 <= f.size(), "harness", "header");
    uint8_t id = f[pos];
    size_t n = uint8_t(f[pos + 1]) | uint8_t(f[pos + 2]) << 8;
    Bytes d = f.substr(pos + 3, n);
    pos += 3 + n;
    if (id == 4) ms = d;
    if (id == 5) ts = d;
    if (id == 7) civ = d;
    if (id == 0) break;
  }
  if (cached != ms + ts) {
    key = ref::final_key(ms, ref::transform(ref::composite_kdbx(ref::components(true, "x", false, "")), ts, 1));
    cached = ms + ts;
  }
  return ref::aes_cbc_decrypt(key, civ, f.substr(pos, 32), false);
}
}  // namespace

static void one_process(Case& c) {
  begin(c);
  real_random(true);
  size_t n = size_t(1) << (c.thorough ? 20 : 18);
  unsigned mode = unsigned(c.t.below(3));
  Ids v;
  v.reserve(n);
  for (size_t i = 0; i < n; ++i) v.push_back(make(mode == 2 ? unsigned(i) : mode));
  real_random(false);
  std::string what = std::to_string(n) + (mode == 2 ? " groups and entries" : mode == 1 ? " entries" : " groups") + " in one process";
  distinct(v, what);
  windows(v, what);
  spread(v, what);
  Bytes all = join(v);
  for (size_t bit : {size_t(0), size_t(8 + c.t.below(40)), size_t(72 + c.t.below(56))}) nonlinear(all, 16, bit, 1u << 16, what);
  nonlinear(all, 1, c.t.below(8), 1u << 16, what);
  c.eval(n);
  c.describe(what + ", first " + pbt::hex(v[0]) + " " + pbt::hex(v[1]));
  c.nontrivial(v[0]);
}

// Several processes at once, forked by a process that may already have
// created objects, each creating few or many.
static void processes(Case& c) {
  begin(c);
  real_random(true);
  bool warm = c.t.chance(1, 2);
  size_t per = size_t(1) << c.t.below(3), total = c.thorough ? (1u << 18) : (1u << 16);
  size_t procs = total / kWorkers;
  Ids before;
  if (warm) for (int i = 0; i < 3; ++i) before.push_back(make(i));
  Shared sh(procs * kWorkers * per * 16);
  in_processes(kWorkers, [&](unsigned w) {
    const size_t batch = 8;
    for (size_t i = 0; i < procs; i += batch) {
      for (size_t j = i; j < i + batch && j < procs; ++j) {
        pid_t p = fork();
        if (p == 0) {
          for (size_t k = 0; k < per; ++k) { Bytes b = make(unsigned(k + w)); memcpy(sh.p + ((w * procs + j) * per + k) * 16, b.data(), 16); }
          _exit(0);
        }
        if (p < 0) _exit(4);
      }
      while (waitpid(-1, nullptr, 0) > 0) {}
    }
  });
  real_random(false);
  Ids v = before;
  for (size_t i = 0; i < procs * kWorkers * per; ++i) v.push_back(Bytes(reinterpret_cast<char*>(sh.p) + i * 16, 16));
  std::string what = std::to_string(procs * kWorkers) + (warm ? " processes forked after the first use, " : " fresh processes, ") + std::to_string(per) + " objects each";
  distinct(v, what);
  windows(v, what);
  spread(v, what);
  c.eval(v.size());
  c.describe(what);
  c.nontrivial(v[0]);
}

// Threads at once: few that create many, or many that create few.
static void threads(Case& c) {
  begin(c);
  real_random(true);
  bool many = c.t.chance(1, 2);
  size_t total = c.thorough ? (1u << 20) : (1u << 17), per = many ? 4 : total / 16 ;
  Ids v;
  size_t n = total / per, done = 0;
  while (done < n) {
    size_t now = std::min<size_t>(16, n - done);
    std::vector<Ids> out(now);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < now; ++t)
      ts.emplace_back([&, t] {
        Ids mine;
        ++ready;
        while (!many && ready < now) {}
        for (size_t k = 0; k < per; ++k) mine.push_back(make(unsigned(k)));
        out[t] = std::move(mine);
      });
    for (auto& t : ts) t.join();
    for (auto& o : out) v.insert(v.end(), o.begin(), o.end());
    done += now;
  }
  real_random(false);
  std::string what = std::to_string(n) + " threads, " + std::to_string(per) + " objects each";
  distinct(v, what);
  windows(v, what);
  spread(v, what);
  c.eval(v.size());
  c.describe(what);
  c.nontrivial(v[0]);
}

// Exports of the same database: start bytes differ and are not predictable.
static void exports(Case& c) {
  begin(c);
  real_random(true);
  unsigned mode = unsigned(c.t.below(3));  // one process, a process each, one exporter object for all
  size_t per = (c.thorough ? (mode == 1 ? 16384 : 32768) : (mode == 1 ? 256 : 2048));
  Shared sh(kWorkers * per * 32);
  small_db();
  in_processes(kWorkers, [&](unsigned w) {
    std::string p = c.dir + "/x" + std::to_string(w);
    Key key("x");
    keepass::KdbxFile file;
    for (size_t i = 0; i < per; ++i) {
      auto one = [&] {
        Outcome o = export_kdbx(p, small_db(), key, mode == 2 ? &file : nullptr);
        if (!o.ok()) _exit(5);
        Bytes s = start_bytes(bridge::read_file(p));
        memcpy(sh.p + (w * per + i) * 32, s.data(), 32);
      };
      if (mode != 1) { one(); continue; }
      pid_t q = fork();
      if (q == 0) { one(); _exit(0); }
      int st = 0;
      waitpid(q, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(6);
    }
  });
  real_random(false);
  Ids v;
  for (size_t i = 0; i < kWorkers * per; ++i) v.push_back(Bytes(reinterpret_cast<char*>(sh.p) + i * 32, 32));
  static const char* names[] = {" exports in 8 processes", " exports in a process each", " exports by 8 exporters"};
  std::string what = "start bytes of " + std::to_string(v.size()) + names[mode];
  distinct(v, what);
  windows(v, what);
  spread(v, what);
  if (mode != 1) nonlinear(join(Ids(v.begin(), v.begin() + long(per))), 1, c.t.below(8), 1u << 16, what);
  c.eval(v.size());
  c.describe(what + ", first " + pbt::hex(v[0]));
  c.nontrivial(v[0]);
}

// The random device gives values of twelve random bits each. Three or more
// draws per value (or per process) still make 2^14 values distinct; one or two,
// as for seeding another generator, do not.
static void weak(Case& c) {
  begin(c);
  unsigned kind = unsigned(c.t.below(3));
  size_t per = kind == 1 ? 1024 : 2048, n = kWorkers * per, len = kind == 2 ? 32 : 16;
  Shared sh(n * len);
  small_db();
  std::string names[] = {" objects", " processes with one object each", " exports"};
  std::string what = std::to_string(n) + names[kind] + " from a random device with few values";
  real_random(true, 12);
  if (kind == 0)
    for (size_t i = 0; i < n; ++i) { Bytes b = make(unsigned(i)); memcpy(sh.p + i * len, b.data(), len); }
  else in_processes(kWorkers, [&](unsigned w) {
    std::string p = c.dir + "/x" + std::to_string(w);
    Key key("x");
    for (size_t i = 0; i < per; ++i) {
      Bytes s;
      if (kind == 2) {
        Outcome o = export_kdbx(p, small_db(), key);
        if (!o.ok()) _exit(5);
        s = start_bytes(bridge::read_file(p));
        memcpy(sh.p + (w * per + i) * len, s.data(), len);
      } else {
        pid_t q = fork();
        if (q == 0) { s = make(unsigned(i)); memcpy(sh.p + (w * per + i) * len, s.data(), len); _exit(0); }
        waitpid(q, nullptr, 0);
      }
    }
  });
  real_random(false);
  Ids v;
  for (size_t i = 0; i < n; ++i) v.push_back(Bytes(reinterpret_cast<char*>(sh.p) + i * len, len));
  distinct(v, what, 2);
  c.eval(n);
  c.describe(what);
  c.nontrivial(v[0]);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C21";
  k.rule = "every case: distinct first identifier; a case creates at least 2^11 identifiers or start bytes and compares all pairs";
  k.assumptions = {"statistical: judged by the absence of collisions (also of all sequences of 8 bytes), GF(2) rank of differences, balance of bits, independence of bytes and linear complexity, each with a chance below 1e-9 of failing on uniform values",
                   "up to a sixteenth of the bits may be fixed (RFC 4122 version bits)",
                   "a sound implementation draws at least three words from std::random_device per value, or does not use it at all",
                   "the operating system's random source is sound; a nonlinear generator whose seed has more than about 34 bits per value or process is not told from a sound one"};
  k.subs = {{"one_process", 6, 24, one_process}, {"processes", 2, 12, processes}, {"threads", 6, 24, threads}, {"exports", 5, 12, exports}, {"weak", 6, 24, weak}};
  for (auto& s : k.subs) s.cpu_limit_s = 900;
  return pbt::run_check(k, argc, argv);
}
