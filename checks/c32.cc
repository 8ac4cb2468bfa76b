// C32: operations leave the process as it was.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <cfenv>
#include <clocale>
#include <iostream>
#include <locale>
#include <map>
#include <new>
#include <set>

#include <openssl/err.h>

#include "common.hh"
#include "jobs.hh"
#include "random.hh"
using namespace harness;
using keepass::Key;
extern char** environ;

namespace {
std::string listing(const char* dir) {
  std::set<std::string> s;
  if (DIR* d = opendir(dir)) {
    while (dirent* e = readdir(d)) s.insert(e->d_name);
    closedir(d);
  }
  std::string r;
  for (const std::string& x : s) r += x + " ";
  return r;
}

struct Punct : std::numpunct<char> {
  char do_thousands_sep() const override { return '\''; }
  std::string do_grouping() const override { return "\3"; }
};

// What an embedding program can observe of its process.
typedef std::map<std::string, std::string> State;
template <class S> void stream_state(State& st, const std::string& name, S& s) {
  std::ostringstream o;
  o << s.flags() << ' ' << s.precision() << ' ' << s.width() << ' ' << int(s.fill()) << ' ' << int(s.exceptions()) << ' ' << int(s.rdstate()) << ' '
    << static_cast<const void*>(s.rdbuf()) << ' ' << static_cast<const void*>(s.tie()) << ' ' << s.getloc().name();
  st["the state of " + name] = o.str();
}
State state() {
  State st;
  char buf[4096];
  st["the working directory"] = getcwd(buf, sizeof buf) ? buf : "?";
  mode_t m = umask(0);
  umask(m);
  st["the umask"] = std::to_string(m);
  std::string& env = st["the environment"];
  for (char** e = environ; *e; ++e) env += std::string(*e) + "\n";
  st["the time zone"] = std::string(tzname[0]) + "," + tzname[1] + "," + std::to_string(timezone) + "," + std::to_string(daylight);
  st["the C locale"] = setlocale(LC_ALL, nullptr);
  std::locale l;
  st["the C++ locale"] = l.name() + (std::use_facet<std::numpunct<char>>(l).grouping().empty() ? "" : " with grouping");
  sigset_t mask;
  sigprocmask(SIG_BLOCK, nullptr, &mask);
  std::string& sig = st["the handling of signals"];
  for (int i = 1; i < NSIG; ++i) {
    struct sigaction a;
    if (sigaction(i, nullptr, &a) != 0) continue;
    std::ostringstream o;
    o << i << ':' << sigismember(&mask, i) << ' ' << reinterpret_cast<void*>(a.sa_handler) << ' ' << a.sa_flags << ' ';
    sig += o.str();
  }
  st["the rounding mode"] = std::to_string(fegetround());
  std::ostringstream h;
  h << reinterpret_cast<void*>(std::get_new_handler()) << ' ' << reinterpret_cast<void*>(std::get_terminate());
  st["the new and terminate handlers"] = h.str();
  std::string& lim = st["the resource limits"];
  for (int i = 0; i < RLIM_NLIMITS; ++i) {
    struct rlimit r;
    getrlimit(__rlimit_resource_t(i), &r);
    lim += std::to_string(r.rlim_cur) + "/" + std::to_string(r.rlim_max) + " ";
  }
  std::string& tm = st["the timers"];
  for (int w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) {
    struct itimerval t;
    getitimer(__itimer_which_t(w), &t);
    tm += t.it_value.tv_sec || t.it_value.tv_usec ? "set " : "unset ";
  }
  st["whether memory is dumped"] = std::to_string(prctl(PR_GET_DUMPABLE));
  st["the process's name"] = prctl(PR_GET_NAME, buf) == 0 ? buf : "?";
  st["the threads"] = listing("/proc/self/task");
  st["the open files"] = listing("/proc/self/fd");
  std::string& files = st["the files in the working directory"];
  files = listing(".");
  st["OpenSSL's queue of errors"] = std::to_string(ERR_peek_last_error());
  stream_state(st, "std::cin", std::cin);
  stream_state(st, "std::cout", std::cout);
  stream_state(st, "std::cerr", std::cerr);
  stream_state(st, "std::clog", std::clog);
  return st;
}

// Standard input, output and error are files of their own while this lives.
struct Redirected {
  int saved[3], fd[3];
  std::string path[3];
  explicit Redirected(const std::string& dir) {
    flush();
    for (int i = 0; i < 3; ++i) {
      path[i] = dir + "/std" + std::to_string(i);
      bridge::write_file(path[i], i == 0 ? "password\nanother line\n" : "");
      saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 50);
      fd[i] = open(path[i].c_str(), O_RDWR | (i ? O_APPEND : 0));
      if (fd[i] != i) { dup2(fd[i], i); close(fd[i]); }
    }
  }
  static void flush() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); }
  off_t consumed() { return lseek(0, 0, SEEK_CUR); }
  ~Redirected() {
    flush();
    for (int i = 0; i < 3; ++i) { if (saved[i] >= 0) { dup2(saved[i], i); close(saved[i]); } else close(i); }
  }
};

void on_signal(int) {}

struct Surroundings {
  char cwd[4096];
  mode_t mask;
  struct sigaction pipe;
  sigset_t sig;
  int round;
  std::locale loc;
  std::string what;
  Surroundings(Case& c, const std::string& dir) {
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    mkdir((dir + "/cwd").c_str(), 0700);
    if (chdir((dir + "/cwd").c_str()) != 0) pbt::discard();
    static const mode_t masks[] = {0, 022, 077, 027, 0177};
    mask = umask(masks[c.t.below(5)]);
    struct sigaction a = {};
    a.sa_handler = c.t.chance(1, 3) ? SIG_DFL : c.t.chance(1, 2) ? SIG_IGN : on_signal;
    sigaction(SIGPIPE, &a, &pipe);
    sigset_t s;
    sigemptyset(&s);
    if (c.t.chance(1, 2)) sigaddset(&s, SIGUSR1);
    sigprocmask(SIG_BLOCK, &s, &sig);
    round = fegetround();
    if (c.t.chance(1, 4)) loc = std::locale::global(std::locale(std::locale::classic(), new Punct));
    static const char* const zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45"};
    const char* z = zones[c.t.below(3)];
    pbt::set_tz(z);
    what = std::string("TZ=") + z;
  }
  ~Surroundings() {
    std::locale::global(loc);
    fesetround(round);
    sigprocmask(SIG_SETMASK, &sig, nullptr);
    sigaction(SIGPIPE, &pipe, nullptr);
    umask(mask);
    if (cwd[0] && chdir(cwd) != 0) abort();
  }
};
}  // namespace

static void operations(Case& c) {
  begin(c);
  Surroundings around(c, c.dir);
  keepass::KdbFile kf;
  keepass::KdbxFile xf;
  Key shared("shared");
  std::string p = c.dir + "/f", q = c.dir + "/g", k = c.dir + "/k", trace;
  size_t n = 1 + c.t.below(4);
  for (size_t i = 0; i < n; ++i) {
    bool kdb = c.t.chance(1, 2);
    int kind = int(c.t.below(7));
    Way way = kind == 0 ? Way(c.t.below(kWays)) : kGood;
    Job j = make_job(c, kdb, way, c.t.chance(1, 12) ? 30000 : 0);
    Key key = way == kWrongKey ? Key("not it") : make_key(c, j.cr);
    std::string what = kdb ? "KDB " : "KDBX ";
    std::string text = gen::text(c.t, gen::Text::kAny, 100);
    std::function<Outcome()> f;
    auto save = [&, kdb](const std::string& to) { return kdb ? export_kdb(to, *j.lib, key, &kf) : export_kdbx(to, *j.lib, key, &xf); };
    FaultPlan plan;
    bool faulty = false;
    switch (kind) {
      case 0: case 1: {
        std::string from = p;
        if (kind == 1) {
          what += "import of ";
          switch (c.t.below(4)) {
            case 0: from = c.dir + "/none"; what += "a missing file"; break;
            case 1: from = c.dir; what += "a directory"; break;
            case 2: j.file = c.t.bytes(c.t.below(300)); what += "random bytes"; break;
            default: faulty = true; plan.read_fail_at = int64_t(c.t.below(j.file.size() + 1)); what += "a file that cannot be read"; break;
          }
        } else what += std::string("import, ") + kWayNames[way];
        bridge::write_file(p, j.file);
        f = [&, kdb, from] { Outcome o; if (kdb) { Imported im = import_kdb(from, key, &kf); o = im; } else { Imported im = import_kdbx(from, key, &xf); o = im; } return o; };
        break;
      }
      case 2: case 3: {
        what += "export";
        std::string to = q;
        switch (kind == 2 ? 0 : 1 + c.t.below(4)) {
          case 0: break;
          case 1: to = c.dir + "/none/f"; what += " to nowhere"; break;
          case 2: to = c.dir; what += " to a directory"; break;
          case 3: j.lib->root()->set_name(std::string("a\0b", 3)); if (kdb) { auto g = std::make_shared<keepass::Group>(); g->set_name(std::string("a\0b", 3)); j.lib->root()->AddGroup(g); } what += " that is refused"; break;
          default: faulty = true; if (c.t.chance(1, 3)) plan.close_fails = true; else plan.write_fail_at = int64_t(c.t.below(j.file.size() + 1)); what += " with write errors"; break;
        }
        f = [&, to] { return save(to); };
        break;
      }
      case 4: what = "JSON and equality"; f = [&] { return guarded([&] { std::string s = j.lib->root()->ToJson(); (void)(*j.lib->root() == *j.lib->root()); touch(*j.lib); }); }; break;
      case 5: {
        what = "keys";
        bool bad = c.t.chance(1, 3);
        bridge::write_file(k, bad ? text : gen::keyfile_text(c.t, std::string(32, 'k'), c.t.chance(1, 2)));
        std::string at = c.t.chance(1, 5) ? c.dir + "/none" : k;
        f = [&, at] { return guarded([&] { shared.SetPassword(text); shared.SetKeyFile(at); std::array<uint8_t, 32> s = {{1}}; (void)shared.Transform(s, 7, Key::SubKeyResolution::kHashSubKeys); }); };
        break;
      }
      default:
        what = "objects";
        f = [&] { return guarded([&] {
          keepass::Database d;
          auto g = std::make_shared<keepass::Group>();
          d.set_root(g);
          auto e = std::make_shared<keepass::Entry>();
          g->AddEntry(e);
          e->set_title(keepass::protect<std::string>(text, true));
          (void)keepass::random_array<16>();
          (void)g->ToJson();
        }); };
        break;
    }
    trace += (i ? ", " : "") + what;
    Outcome o;
    unsigned seed = unsigned(c.t.below(1u << 31));
    std::string out, err, r_want, r_got;
    off_t in = 0;
    State before, after;
    std::set_new_handler(nullptr);
    ERR_clear_error();
    {
      Redirected r(c.dir);
      srand(seed);
      srand48(long(seed));
      // The formatting of the program's own streams.
      std::cout << std::hex;
      std::cout.precision(3);
      std::cin.exceptions(std::ios::goodbit);
      before = state();
      if (faulty) arm(plan);
      o = f();
      if (faulty) disarm();
      after = state();
      for (int x = 0; x < 3; ++x) r_got += std::to_string(rand()) + " " + std::to_string(lrand48()) + " ";
      Redirected::flush();
      in = r.consumed();
      std::cout << std::dec;
      std::cout.precision(6);
    }
    out = bridge::read_file(c.dir + "/std1");
    err = bridge::read_file(c.dir + "/std2");
    srand(seed);
    srand48(long(seed));
    for (int x = 0; x < 3; ++x) r_want += std::to_string(rand()) + " " + std::to_string(lrand48()) + " ";
    c.eval();
    PBT_REQUIRE(out.empty() && err.empty(), "output", what << ": wrote to standard " << (out.empty() ? "error" : "output") << ": " << (out + err).substr(0, 200));
    PBT_REQUIRE(in == 0, "input", what << ": read standard input");
    PBT_REQUIRE(r_want == r_got, "rand", what << ": disturbed the sequence of rand() or lrand48()");
    for (const auto& kv : before) {
      const std::string& now = after[kv.first];
      PBT_REQUIRE(now == kv.second, kv.first, what << " (" << o.str() << "): changed " << kv.first << " from " << kv.second.substr(0, 300) << " to " << now.substr(0, 300));
    }
    c.label(what + (o.ok() ? "" : " fails"));
    c.nontrivial(pbt::hash_str(what + around.what + j.file));
  }
  c.describe(around.what + ": " + trace);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C32";
  k.rule = "an operation with the process's state observed before and after; distinct by operation, surroundings and file";
  k.assumptions = {"the state is what the check lists: standard streams, environment, time zone, locales, signals, limits, timers, random sequences, umask, directories, threads, open files, handlers and OpenSSL's queue of errors"};
  k.subs = {{"operations", 12000, 200000, operations}};
  return pbt::run_check(k, argc, argv);
}
