#include "engine.hh"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt {

void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }

uint64_t SplitMix::next() {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t mix(uint64_t a, uint64_t b) {
  SplitMix m(a ^ (b * 0xd6e8feb86659fd93ull + 0x2545f4914f6cdd1dull));
  m.next();
  return m.next();
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  uint64_t h = 1469598103934665603ull ^ seed;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return mix(h, n);
}

std::string hex(const std::string& s, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    r += d[static_cast<unsigned char>(s[i]) >> 4];
    r += d[static_cast<unsigned char>(s[i]) & 15];
  }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

std::string quote(const std::string& s, size_t max) {
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  r += "\"";
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

std::string first_diff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  if (i == a.size() && i == b.size()) return "(equal)";
  size_t ls = a.rfind('\n', i ? i - 1 : 0);
  ls = ls == std::string::npos ? 0 : ls + 1;
  if (ls > i) ls = i;
  auto line = [&](const std::string& s) {
    size_t st = std::max(ls, i > 120 ? i - 120 : 0);
    return quote(s.substr(st, 240), 240);
  };
  return "at byte " + std::to_string(i) + ":\n  expected " + line(a) + "\n  actual   " + line(b);
}

uint64_t Tape::below(uint64_t n) {
  uint64_t v;
  if (pos_ < in_.size()) v = in_[pos_];
  else v = replay_ ? 0 : rng_.next();
  ++pos_;
  if (n) v %= n;
  rec_.push_back(v);
  return v;
}

size_t Tape::pick(std::initializer_list<unsigned> w) {
  uint64_t sum = 0;
  for (unsigned x : w) sum += x;
  uint64_t v = below(sum);
  size_t i = 0;
  for (unsigned x : w) {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return 0;
}

Bytes Tape::bytes(size_t n) {
  Bytes r(n, '\0');
  if (!n) return r;
  uint64_t m = below(8);
  if (m == 0) return r;                         // zeros
  if (m == 1) {                                 // one repeated byte
    std::fill(r.begin(), r.end(), static_cast<char>(below(256)));
    return r;
  }
  if (n <= 8 && m <= 4) {                       // individually chosen
    for (auto& c : r) c = static_cast<char>(below(256));
    return r;
  }
  SplitMix s(below(0));
  if (m == 2) {                                 // few distinct values
    for (auto& c : r) { uint64_t v = s.next(); c = (v & 7) ? char('a' + (v >> 8) % 3) : char(v >> 16); }
    return r;
  }
  for (auto& c : r) c = static_cast<char>(s.next() >> 17);
  return r;
}

void set_tz(const std::string& tz) {
  static std::string cur = "\x01";
  if (cur == tz) return;
  cur = tz;
  setenv("TZ", tz.c_str(), 1);
  tzset();
}

std::string json_str(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

namespace {

double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Slot { std::atomic<uint64_t> current; std::atomic<uint64_t> done; };

constexpr int kExitFailure = 10;
constexpr int kExitHang = 97;

void on_hang(int) {
  static const char m[] = "\nPBT: per-case CPU time limit exceeded\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(kExitHang);
}

void arm_cpu(unsigned sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

void clean_dir(const std::string& dir) {
  // Removes plain files directly inside one of our own scratch directories.
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = dir + "/" + n;
      if (unlink(p.c_str()) != 0) rmdir(p.c_str());
    }
    closedir(d);
  }
}

struct Outcome {
  enum Kind { kPass, kFail, kCrash, kHang, kDiscard } kind = kPass;
  std::string key, msg;
  std::vector<uint64_t> tape;
  bool bad() const { return kind == kFail || kind == kCrash || kind == kHang; }
};

struct Runner {
  const Check& check;
  bool thorough;
  uint64_t seed;
  unsigned workers;
  std::string scratch;
  std::set<std::string> known;
  double deadline = 0;

  uint64_t case_seed(size_t sub, uint64_t index) const {
    return mix(mix(mix(seed, hash_str(check.property)), hash_str(check.subs[sub].name)), index);
  }

  // Runs one case in this process.
  void run_case(size_t sub, Tape& t, Case& c) const {
    set_tz("UTC0");
    arm_cpu(check.subs[sub].cpu_limit_s);
    check.subs[sub].run(c);
  }

  void prepare_child(const std::string& err_path) const {
    signal(SIGPROF, on_hang);
    int fd = open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    int nul = open("/dev/null", O_RDONLY);
    if (nul >= 0) { dup2(nul, 0); close(nul); }
  }

  static std::string slurp(const std::string& p, size_t max = 1 << 20) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > max) s.resize(max);
    return s;
  }

  // A short stable key for a crash, from the sanitizer/assert output.
  static std::string crash_key(const std::string& err, int status) {
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
      size_t e = err.find_first_of(" \n", p + 25);
      return "crash:asan:" + err.substr(p + 25, e - p - 25);
    }
    p = err.find("SUMMARY: ThreadSanitizer: ");
    if (p != std::string::npos) {
      size_t e = err.find('\n', p), in = err.rfind(" in ", e);
      std::string m = err.substr(p + 26, e - p - 26);
      return "race:" + (in != std::string::npos && in > p ? err.substr(in + 4, e - in - 4) : m);
    }
    p = err.find("runtime error: ");
    if (p != std::string::npos) {
      size_t e = err.find('\n', p);
      std::string m = err.substr(p + 15, std::min<size_t>(e - p - 15, 40));
      for (auto& c : m) if (isdigit(static_cast<unsigned char>(c))) c = '#';
      return "crash:ubsan:" + m;
    }
    p = err.find("Assertion `");
    if (p != std::string::npos) {
      size_t e = err.find('\'', p);
      return "crash:assert:" + err.substr(p + 11, e - p - 11);
    }
    if (err.find("terminate called") != std::string::npos) return "crash:terminate";
    if (WIFSIGNALED(status)) return "crash:signal" + std::to_string(WTERMSIG(status));
    return "crash:exit" + std::to_string(WEXITSTATUS(status));
  }

  static void put(std::string& o, const std::string& s) {
    uint64_t n = s.size();
    o.append(reinterpret_cast<char*>(&n), 8);
    o += s;
  }
  static std::string take(const std::string& o, size_t& p) {
    uint64_t n = 0;
    if (p + 8 > o.size()) return "";
    memcpy(&n, &o[p], 8);
    p += 8;
    if (p + n > o.size()) return "";
    std::string s = o.substr(p, n);
    p += n;
    return s;
  }
  static std::string pack(const std::vector<uint64_t>& v) {
    return std::string(reinterpret_cast<const char*>(v.data()), v.size() * 8);
  }
  static std::vector<uint64_t> unpack(const std::string& s) {
    std::vector<uint64_t> v(s.size() / 8);
    memcpy(v.data(), s.data(), v.size() * 8);
    return v;
  }

  // Executes one tape in a fresh child process.
  Outcome isolated(size_t sub, const std::vector<uint64_t>& tape, uint64_t index,
                   std::string* output = nullptr) const {
    return isolated_run([&](Case*& cp, Tape*& tp) {
      static Tape* t;
      static Case* c;
      t = new Tape(tape);
      c = new Case(*t);
      tp = t; cp = c;
      c->index = index;
      run_one(sub, *t, *c);
    }, output);
  }

  void run_one(size_t sub, Tape& t, Case& c) const {
    c.dir = scratch + "/iso";
    c.thorough = thorough;
    clean_dir(c.dir);
    run_case(sub, t, c);
  }

  // Executes a sequence of search cases (history) in one fresh child.
  Outcome isolated_history(const std::vector<std::pair<size_t, uint64_t>>& cases) const {
    return isolated_run([&](Case*& cp, Tape*& tp) {
      for (auto& sc : cases) {
        Tape* t = make_tape(sc.first, sc.second);
        Case* c = new Case(*t);
        cp = c; tp = t;
        c->index = sc.second;
        bool last = &sc == &cases.back();
        try {
          run_one(sc.first, *t, *c);
        } catch (Discard&) {
        } catch (Failure&) {
          if (last) throw;
        }
        if (!last) { delete c; delete t; }
      }
    }, nullptr);
  }

  Tape* make_tape(size_t sub, uint64_t index) const {
    return check.subs[sub].enumerated ? new Tape(case_seed(sub, index), index)
                                      : new Tape(case_seed(sub, index));
  }

  template <class F>
  Outcome isolated_run(F f, std::string* output) const {
    std::string iso = scratch + "/iso";
    mkdir(iso.c_str(), 0700);
    std::string res = scratch + "/iso.res", err = scratch + "/iso.err";
    unlink(res.c_str());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      prepare_child(err);
      Case* c = nullptr;
      Tape* t = nullptr;
      Outcome o;
      try {
        f(c, t);
      } catch (Discard&) {
        o.kind = Outcome::kDiscard;
      } catch (Failure& e) {
        o.kind = Outcome::kFail; o.key = e.key; o.msg = e.msg;
      } catch (std::exception& e) {
        o.kind = Outcome::kFail; o.key = "harness-exception"; o.msg = e.what();
      }
      arm_cpu(0);
      std::string out;
      out += static_cast<char>(o.kind);
      put(out, o.key); put(out, o.msg);
      put(out, t ? pack(t->recorded()) : "");
      std::ofstream(res, std::ios::binary) << out;
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    std::string e = slurp(err);
    if (output) *output = e;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      std::string r = slurp(res, 1ull << 32);
      size_t p = 1;
      if (!r.empty()) o.kind = static_cast<Outcome::Kind>(r[0]);
      o.key = take(r, p);
      o.msg = take(r, p);
      o.tape = unpack(take(r, p));
      if (r.empty()) { o.kind = Outcome::kCrash; o.key = "crash:exit0"; o.msg = e; }
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == kExitHang) {
      o.kind = Outcome::kHang;
      o.key = "hang";
      o.msg = "case exceeded its CPU time limit";
    } else {
      o.kind = Outcome::kCrash;
      o.key = crash_key(e, st);
      size_t q = e.find("ERROR: AddressSanitizer");
      if (q == std::string::npos) q = e.find("runtime error");
      if (q == std::string::npos) q = e.find("Assertion");
      if (q == std::string::npos) q = 0;
      o.msg = e.substr(q > 200 ? q - 200 : 0, 3000);
    }
    return o;
  }

  std::vector<uint64_t> shrink(size_t sub, std::vector<uint64_t> best, const std::string& key,
                               uint64_t index, double budget, uint64_t& attempts) const {
    double end = now() + budget;
    auto attempt = [&](std::vector<uint64_t> cand) {
      if (now() > end) return false;
      ++attempts;
      Outcome o = isolated(sub, cand, index);
      if (!o.bad() || o.key != key) return false;
      if (!o.tape.empty() && o.tape.size() <= cand.size()) cand = o.tape;
      while (!cand.empty() && cand.back() == 0) cand.pop_back();
      if (cand == best) return false;
      best = cand;
      return true;
    };
    {
      auto c = best;
      while (!c.empty() && c.back() == 0) c.pop_back();
      best = c;
    }
    // A hang costs its whole CPU limit per attempt: do not shrink it.
    if (key == "hang") return best;
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      // Truncate.
      for (size_t len = best.size() / 2; len >= 1 && now() < end; len /= 2) {
        if (best.size() > len) {
          auto c = best;
          c.resize(c.size() - len);
          if (attempt(c)) { progress = true; len = best.size(); }
        }
      }
      // Delete chunks.
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
        for (size_t i = 0; i + len <= best.size() && now() < end;) {
          auto c = best;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c)) progress = true; else i += len;
        }
        if (len == 1) break;
      }
      // Zero chunks.
      for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2) {
        for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
          auto c = best;
          bool any = false;
          for (size_t k = i; k < i + len; ++k) { any |= c[k] != 0; c[k] = 0; }
          if (any && attempt(c)) progress = true;
        }
        if (len == 1) break;
      }
      // Minimise values.
      for (size_t i = 0; i < best.size() && now() < end; ++i) {
        uint64_t lo = 0;
        while (i < best.size() && best[i] > lo && now() < end) {
          uint64_t mid = lo + (best[i] - lo) / 2;
          auto c = best;
          c[i] = mid;
          if (mid != best[i] && attempt(c)) { progress = true; }
          else { if (mid + 1 > best[i]) break; lo = mid + 1; if (lo >= best[i]) break; }
        }
      }
    }
    return best;
  }
};

struct Merged {
  uint64_t evals = 0, cases = 0, discards = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> sub_cases;
  std::map<std::string, uint64_t> known;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  bool stopped_early = false;
};

}  // namespace

int run_check(const Check& check, int argc, char** argv) {
  double t0 = now();
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  std::string replay, verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : ".";
  double scale = getenv("PBT_SCALE") ? atof(getenv("PBT_SCALE")) : 1.0;
  std::string only = getenv("PBT_ONLY") ? getenv("PBT_ONLY") : "";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--tier" && i + 1 < argc) tier = argv[++i];
  }
  Runner r{check, tier == "thorough", 1, 8, "", {}, 0};
  if (const char* s = getenv("VERIF_SEED")) r.seed = strtoull(s, nullptr, 0);
  long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  r.workers = ncpu > 0 ? std::min<long>(ncpu, 8) : 4;
  if (const char* s = getenv("PBT_WORKERS")) r.workers = std::max(1, atoi(s));
  double max_wall = r.thorough ? 3600 : 600;
  if (const char* s = getenv("PBT_MAX_WALL")) max_wall = atof(s);
  r.deadline = t0 + max_wall;

  const char* tmp = getenv("TMPDIR");
  std::string tmpl = std::string(tmp ? tmp : "/tmp") + "/pbt-" + check.property + "-XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
  r.scratch = tb.data();
  struct Cleanup {
    std::string d;
    ~Cleanup() {
      if (DIR* dd = opendir(d.c_str())) {
        while (dirent* e = readdir(dd)) {
          std::string n = e->d_name;
          if (n != "." && n != "..") clean_dir(d + "/" + n);
        }
        closedir(dd);
      }
      clean_dir(d);
      rmdir(d.c_str());
    }
  } cleanup{r.scratch};
  mkdir((r.scratch + "/iso").c_str(), 0700);

  // Known findings.
  {
    std::ifstream f(verif + "/known-findings.txt");
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string w, prop, key;
      is >> w >> prop >> key;
      if (w == "known:" && prop == "property=" + check.property && key.rfind("key=", 0) == 0)
        r.known.insert(key.substr(4));
    }
  }

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line, subname;
    std::vector<uint64_t> tape;
    std::vector<std::pair<size_t, uint64_t>> hist;
    uint64_t index = 0;
    auto find_sub = [&](const std::string& n) {
      for (size_t i = 0; i < check.subs.size(); ++i) if (check.subs[i].name == n) return i;
      std::cerr << "unknown sub-check " << n << "\n";
      exit(2);
    };
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "sub") is >> subname;
      else if (k == "index") is >> index;
      else if (k == "seed") is >> r.seed;
      else if (k == "thorough") { int v; is >> v; r.thorough = v; }
      else if (k == "tape") { uint64_t v; while (is >> v) tape.push_back(v); }
      else if (k == "case") { std::string s; uint64_t v; is >> s >> v; hist.push_back({find_sub(s), v}); }
    }
    std::string out;
    Outcome o = hist.empty() ? r.isolated(find_sub(subname), tape, index, &out) : r.isolated_history(hist);
    if (o.bad()) {
      std::cout << "REPRODUCED key=" << o.key << "\n" << o.msg << "\n" << out.substr(0, 4000) << "\n";
      std::cout << "VIOLATION property=" << check.property << " replay=" << replay << std::endl;
      return 1;
    }
    std::cout << "not reproduced" << (o.kind == Outcome::kDiscard ? " (discarded)" : "") << std::endl;
    return 0;
  }

  std::map<std::string, std::string> extra = check.extra;
  if (check.phase) {
    int rc = check.phase(r.thorough, r.seed, extra);
    if (rc) return rc;
  }

  // Flattened list of cases.
  std::vector<uint64_t> counts;
  uint64_t total = 0;
  std::vector<uint64_t> base;
  for (auto& s : check.subs) {
    uint64_t n = r.thorough ? s.thorough : s.quick;
    if (!s.enumerated || scale < 1) n = static_cast<uint64_t>(n * scale + 0.5);
    if (!only.empty() && only != s.name) n = 0;
    base.push_back(total);
    counts.push_back(n);
    total += n;
  }
  auto locate = [&](uint64_t g) {
    size_t s = std::upper_bound(base.begin(), base.end(), g) - base.begin() - 1;
    while (counts[s] == 0 || g >= base[s] + counts[s]) --s;
    return std::make_pair(s, g - base[s]);
  };
  // Spread the sub-checks evenly over the run: order[k] visits global indices
  // with a fixed stride permutation so expensive subs do not cluster.
  auto nth = [&](uint64_t k) { return k; };

  Slot* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * (r.workers + 1), PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(r.workers, -1);
  std::vector<unsigned> gen(r.workers, 0);

  auto worker = [&](unsigned w, uint64_t start, unsigned g) {
    std::string id = std::to_string(w) + "." + std::to_string(g);
    r.prepare_child(r.scratch + "/err." + id);
    std::string dir = r.scratch + "/w" + std::to_string(w);
    mkdir(dir.c_str(), 0700);
    Merged m;
    std::map<size_t, int> sampled;
    int rc = 0;
    std::string failure;
    for (uint64_t k = start; k < total; k += r.workers) {
      if (now() > r.deadline) { m.stopped_early = true; break; }
      uint64_t gi = nth(k);
      slots[w].current = k;
      auto sc = locate(gi);
      Tape* t = r.make_tape(sc.first, sc.second);
      Case c(*t);
      c.dir = dir;
      c.index = sc.second;
      c.thorough = r.thorough;
      c.want_sample = sampled[sc.first] < 2 && (sc.second / r.workers) % 7 == 0;
      ++m.cases;
      ++m.sub_cases[check.subs[sc.first].name];
      Outcome o;
      try {
        r.run_case(sc.first, *t, c);
      } catch (Discard&) {
        ++m.discards;
        ++m.labels["discarded:" + check.subs[sc.first].name];
      } catch (Failure& e) {
        o.kind = Outcome::kFail; o.key = e.key; o.msg = e.msg;
      } catch (std::exception& e) {
        o.kind = Outcome::kFail; o.key = "harness-exception"; o.msg = e.what();
      }
      if (const char* slow = getenv("PBT_SLOW")) {
        // For tuning: cases that use much of their CPU limit.
        struct itimerval it;
        getitimer(ITIMER_PROF, &it);
        long used = long(check.subs[sc.first].cpu_limit_s) - it.it_value.tv_sec;
        if (used >= 5) std::ofstream(slow, std::ios::app) << check.property << ' ' << check.subs[sc.first].name << ' ' << sc.second << ' ' << used << '\n';
      }
      m.evals += c.evals + 1;
      for (auto& l : c.labels) ++m.labels[check.subs[sc.first].name + "/" + l];
      if (m.hashes.size() < 2000000) for (auto h : c.nontrivial_hashes) m.hashes.insert(mix(h, sc.first));
      if (!c.sample.empty()) {
        ++sampled[sc.first];
        if (c.sample.size() > 1500) c.sample = c.sample.substr(0, 1500) + "...";
        m.samples.push_back("[" + check.subs[sc.first].name + " #" + std::to_string(sc.second) + "] " + c.sample);
      }
      if (o.kind == Outcome::kFail) {
        if (r.known.count(o.key)) {
          ++m.known[o.key];
        } else {
          Runner::put(failure, std::to_string(k));
          Runner::put(failure, o.key);
          Runner::put(failure, o.msg);
          Runner::put(failure, Runner::pack(t->recorded()));
          rc = kExitFailure;
        }
      }
      delete t;
      if (rc) break;
      slots[w].done = k + 1;
    }
    arm_cpu(0);
    std::string out;
    auto puti = [&](uint64_t v) { out.append(reinterpret_cast<char*>(&v), 8); };
    puti(m.evals); puti(m.cases); puti(m.discards); puti(m.stopped_early);
    auto putm = [&](const std::map<std::string, uint64_t>& mm) {
      puti(mm.size());
      for (auto& x : mm) { Runner::put(out, x.first); puti(x.second); }
    };
    putm(m.labels); putm(m.sub_cases); putm(m.known);
    puti(m.hashes.size());
    for (auto h : m.hashes) puti(h);
    puti(m.samples.size());
    for (auto& s : m.samples) Runner::put(out, s);
    std::ofstream(r.scratch + "/res." + id, std::ios::binary) << out;
    if (rc) std::ofstream(r.scratch + "/fail." + id, std::ios::binary) << failure;
    _exit(rc);
  };

  Merged M;
  auto merge = [&](const std::string& path) {
    std::string s = Runner::slurp(path, 1ull << 32);
    if (s.empty()) return;
    size_t p = 0;
    auto geti = [&]() { uint64_t v = 0; if (p + 8 <= s.size()) memcpy(&v, &s[p], 8); p += 8; return v; };
    M.evals += geti(); M.cases += geti(); M.discards += geti(); M.stopped_early |= geti() != 0;
    auto getm = [&](std::map<std::string, uint64_t>& mm) {
      for (uint64_t n = geti(); n-- && p < s.size();) { std::string k = Runner::take(s, p); mm[k] += geti(); }
    };
    getm(M.labels); getm(M.sub_cases); getm(M.known);
    for (uint64_t n = geti(); n-- && p < s.size();) M.hashes.insert(geti());
    for (uint64_t n = geti(); n-- && p < s.size();) M.samples.push_back(Runner::take(s, p));
  };

  auto spawn = [&](unsigned w, uint64_t start) {
    fflush(stdout);
    unsigned g = gen[w]++;
    pid_t pid = fork();
    if (pid == 0) worker(w, start, g);
    pids[w] = pid;
  };
  std::vector<uint64_t> starts(r.workers);
  for (unsigned w = 0; w < r.workers; ++w) { starts[w] = w; slots[w].current = w; spawn(w, w); }

  struct Found { bool any = false; uint64_t k = 0; unsigned w = 0; Outcome o; uint64_t start = 0; } found;
  unsigned live = r.workers;
  std::vector<std::string> unreproduced;
  while (live) {
    int st;
    pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) break;
    unsigned w = 0;
    while (w < r.workers && pids[w] != pid) ++w;
    if (w == r.workers) continue;
    std::string id = std::to_string(w) + "." + std::to_string(gen[w] - 1);
    pids[w] = -1;
    --live;
    merge(r.scratch + "/res." + id);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    Outcome o;
    uint64_t k = slots[w].current;
    if (WIFEXITED(st) && WEXITSTATUS(st) == kExitFailure) {
      std::string s = Runner::slurp(r.scratch + "/fail." + id, 1ull << 32);
      size_t p = 0;
      k = strtoull(Runner::take(s, p).c_str(), nullptr, 10);
      o.kind = Outcome::kFail;
      o.key = Runner::take(s, p);
      o.msg = Runner::take(s, p);
      o.tape = Runner::unpack(Runner::take(s, p));
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == kExitHang) {
      o.kind = Outcome::kHang; o.key = "hang";
    } else {
      std::string e = Runner::slurp(r.scratch + "/err." + id);
      o.kind = Outcome::kCrash; o.key = Runner::crash_key(e, st);
      o.msg = e.substr(0, 3000);
      M.cases += 1;
    }
    bool is_known = r.known.count(o.key) > 0;
    if (is_known) ++M.known[o.key];
    if (!is_known && !(found.any && found.k < k)) {
      found.any = true; found.k = k; found.w = w; found.o = o; found.start = starts[w];
    }
    if (is_known) {
      starts[w] = k + r.workers;
      if (starts[w] < total) { spawn(w, starts[w]); ++live; }
      continue;
    }
    if (getenv("PBT_KEEP_GOING")) {
      std::cout << "found[" << k << "] key=" << o.key << " " << o.msg.substr(0, 600) << std::endl;
      starts[w] = k + r.workers;
      if (starts[w] < total) { spawn(w, starts[w]); ++live; }
      continue;
    }
    // Let the others stop.
    for (unsigned v = 0; v < r.workers; ++v) if (pids[v] > 0) kill(pids[v], SIGKILL);
    while (live) { int s2; pid_t p2 = waitpid(-1, &s2, 0); if (p2 < 0) break; --live; for (auto& x : pids) if (x == p2) x = -1; }

    // Confirm in fresh processes.
    auto sc = locate(nth(found.k));
    std::vector<uint64_t> tape = found.o.tape;
    if (tape.empty()) {
      // Crash: regenerate; record the tape of a run that fails the same way by
      // replaying the generator stream (the tape up to the crash is unknown, so
      // draw a long prefix of the same stream).
      Tape* t = r.make_tape(sc.first, sc.second);
      (void)t;
      SplitMix rng(r.case_seed(sc.first, sc.second));
      bool en = check.subs[sc.first].enumerated;
      if (en) tape.push_back(sc.second);
      for (int i = 0; i < 20000; ++i) tape.push_back(rng.next());
    }
    int ok = 0;
    Outcome conf;
    for (int i = 0; i < 2; ++i) {
      Outcome c = r.isolated(sc.first, tape, sc.second);
      if (c.bad()) { ++ok; conf = c; }
    }
    std::string rep_text;
    Outcome final_o;
    bool violation = false;
    uint64_t attempts = 0;
    if (ok == 2 && !r.known.count(conf.key)) {
      violation = true;
      double budget = getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : (r.thorough ? 180 : 60);
      auto small = r.shrink(sc.first, tape, conf.key, sc.second, budget, attempts);
      final_o = r.isolated(sc.first, small, sc.second);
      if (!final_o.bad()) { small = tape; final_o = conf; }
      std::ostringstream os;
      os << "property " << check.property << "\nsub " << check.subs[sc.first].name << "\nindex " << sc.second
         << "\nseed " << r.seed << "\nthorough " << r.thorough << "\ntape";
      for (auto v : small) os << " " << v;
      os << "\n";
      rep_text = os.str();
    } else {
      // The failure may need what earlier cases in the same process left
      // behind: replay the whole history of that worker, then shorten it.
      std::vector<std::pair<size_t, uint64_t>> hist;
      for (uint64_t k2 = found.start; k2 <= found.k; k2 += r.workers) hist.push_back(locate(nth(k2)));
      Outcome h = r.isolated_history(hist);
      if (h.bad()) {
        violation = true;
        final_o = h;
        double end = now() + 120;
        size_t len = 2;
        while (len < hist.size() && now() < end) {
          std::vector<std::pair<size_t, uint64_t>> cand(hist.end() - len, hist.end());
          Outcome c = r.isolated_history(cand);
          if (c.bad()) { hist = cand; final_o = c; break; }
          len *= 2;
        }
        for (size_t i = 0; i + 1 < hist.size() && hist.size() <= 64 && now() < end;) {
          auto cand = hist;
          cand.erase(cand.begin() + i);
          Outcome c = r.isolated_history(cand);
          if (c.bad()) { hist = cand; final_o = c; } else ++i;
        }
        std::ostringstream os;
        os << "property " << check.property << "\nseed " << r.seed << "\nthorough " << r.thorough << "\n";
        for (auto& x : hist) os << "case " << check.subs[x.first].name << " " << x.second << "\n";
        rep_text = os.str();
      }
    }
    if (!violation) {
      unreproduced.push_back("case " + std::to_string(found.k) + " key=" + found.o.key);
      std::cout << "note: failure at case " << found.k << " (" << found.o.key
                << ") did not reproduce; continuing\n" << found.o.msg.substr(0, 1500) << std::endl;
      if (unreproduced.size() > 20) break;
      for (unsigned v = 0; v < r.workers; ++v) {
        uint64_t s = v == found.w ? found.k + r.workers
                                  : std::max<uint64_t>(slots[v].done ? slots[v].done - 1 + r.workers : v, starts[v]);
        starts[v] = s;
        if (s < total) { spawn(v, s); ++live; }
      }
      found = Found();
      continue;
    }
    mkdir((verif + "/replays").c_str(), 0755);
    char nm[64];
    snprintf(nm, sizeof nm, "%016llx", (unsigned long long)hash_str(rep_text));
    std::string path = verif + "/replays/" + check.property + "-" + nm + ".replay";
    {
      std::ofstream f(path);
      f << rep_text;
      std::istringstream is("key=" + final_o.key + "\n" + final_o.msg);
      std::string line;
      while (std::getline(is, line)) f << "# " << line << "\n";
    }
    std::cout << "sub-check: " << check.subs[sc.first].name << " case " << sc.second << " (shrink attempts "
              << attempts << ")\nkey=" << final_o.key << "\n" << final_o.msg << "\n";
    std::cout << "VIOLATION property=" << check.property << " replay=" << path << std::endl;
    found.o = final_o;
    break;
  }
  for (unsigned v = 0; v < r.workers; ++v) if (pids[v] > 0) { kill(pids[v], SIGKILL); waitpid(pids[v], nullptr, 0); }

  // Evidence.
  {
    std::ostringstream os;
    os << "{\"property\":" << json_str(check.property) << ",\"tier\":" << json_str(r.thorough ? "thorough" : "quick")
       << ",\"seed\":" << r.seed << ",\"level\":" << json_str(check.level) << ",\"coverage\":{";
    os << "\"evaluations\":" << M.evals << ",\"distinct_nontrivial\":" << M.hashes.size()
       << ",\"cases\":" << M.cases << ",\"discarded\":" << M.discards
       << ",\"rule\":" << json_str(check.rule) << ",\"cases_by_sub_check\":{";
    const char* sep = "";
    for (auto& x : M.sub_cases) { os << sep << json_str(x.first) << ":" << x.second; sep = ","; }
    os << "},\"classification\":{";
    sep = "";
    for (auto& x : M.labels) { os << sep << json_str(x.first) << ":" << x.second; sep = ","; }
    os << "},\"enumerated_in_full\":{";
    sep = "";
    for (size_t i = 0; i < check.subs.size(); ++i)
      if (check.subs[i].enumerated) { os << sep << json_str(check.subs[i].name) << ":" << counts[i]; sep = ","; }
    os << "},\"stopped_early\":" << (M.stopped_early ? "true" : "false");
    for (auto& x : extra) os << "," << json_str(x.first) << ":" << x.second;
    os << ",\"unreproduced\":[";
    sep = "";
    for (auto& x : unreproduced) { os << sep << json_str(x); sep = ","; }
    os << "],\"samples\":[";
    std::sort(M.samples.begin(), M.samples.end());
    sep = "";
    std::map<std::string, int> per;
    for (auto& x : M.samples) {
      if (per[x.substr(0, x.find(' '))]++ >= 2) continue;
      os << sep << json_str(x);
      sep = ",";
    }
    os << "]},\"assumptions\":[";
    sep = "";
    for (auto& x : check.assumptions) { os << sep << json_str(x); sep = ","; }
    os << "],\"wall_s\":" << (now() - t0) << ",\"violations\":" << (found.any && !getenv("PBT_KEEP_GOING") ? 1 : 0) << "}\n";
    mkdir((verif + "/evidence").c_str(), 0755);
    std::ofstream(verif + "/evidence/" + check.property + ".json") << os.str();
  }
  for (auto& x : M.known)
    std::cout << "KNOWN-FINDING: property=" << check.property << " " << x.first << " (" << x.second << " cases)" << std::endl;
  std::cout << check.property << " " << tier << ": " << M.cases << " cases, " << M.evals << " evaluations, "
            << M.hashes.size() << " distinct non-trivial, " << (now() - t0) << " s"
            << (found.any ? ", VIOLATED" : "") << std::endl;
  return found.any && !getenv("PBT_KEEP_GOING") ? 1 : 0;
}

}  // namespace pbt
