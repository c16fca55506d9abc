#include "vh.hh"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh
{
namespace fs = std::filesystem;
using clk = std::chrono::steady_clock;

std::string hexs(const std::vector<uint8_t> &v, size_t max)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < v.size() && i < max; ++i) {
        r += d[v[i] >> 4];
        r += d[v[i] & 15];
    }
    if (v.size() > max)
        r += "...(" + std::to_string(v.size()) + " bytes)";
    return r;
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += (char)c;
    }
    return o + "\"";
}

struct Shm
{
    int64_t index;
    int64_t evals;
    int64_t status; // 0 running, 1 failed, 2 finished
    int64_t discards;
    char key[256];
    char msg[8192];
    char desc[4096];
};

static std::string g_property;
static std::vector<Sub> g_subs;
static std::string g_tmp;
static bool g_asan = false;
static bool g_thorough = false;
static bool g_verbose = false;
static std::set<std::string> g_known;

static Shm *new_shm()
{
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    memset(p, 0, sizeof(Shm));
    return (Shm *)p;
}
static void put(char *dst, size_t n, const std::string &s)
{
    size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}

static void child_setup()
{
    if (!g_verbose) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if (!getenv("VH_STDERR"))
            dup2(dn, 2);
        close(dn);
    }
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (!g_asan) {
        rl.rlim_cur = rl.rlim_max = 8ull << 30;
        setrlimit(RLIMIT_AS, &rl);
    }
}
static void arm(int secs)
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &t, nullptr);
    // wall-clock backstop for blocked (not computing) cases
    alarm(secs * 4 + 60);
}

static uint64_t case_seed(uint64_t seed, const Sub &s, int64_t idx)
{
    return mix64(mix64(seed * 0x9E3779B97F4A7C15ull + 12345) ^ fnvs(s.name) ^ mix64((uint64_t)idx * 2 + 1));
}

static void fresh_scratch(const std::string &p)
{
    std::error_code ec;
    if (fs::exists(p, ec) && !fs::is_empty(p, ec)) {
        for (auto &e : fs::directory_iterator(p, ec)) {
            std::error_code ec2;
            fs::remove_all(e.path(), ec2);
        }
    }
    fs::create_directories(p, ec);
}

// runs one case in this process; returns 0 ok, 1 failed, 2 discarded
static int run_here(const Sub &sub, Case &c, Failure &out)
{
    try {
        sub.fn(c);
        return 0;
    } catch (const Failure &f) {
        out = f;
        return 1;
    } catch (const Discard &) {
        return 2;
    } catch (const std::exception &e) {
        out.key = "unexpected-exception";
        out.msg = std::string("unexpected exception: ") + e.what();
        return 1;
    } catch (...) {
        out.key = "unexpected-exception";
        out.msg = "unexpected exception (unknown type)";
        return 1;
    }
}

struct EvalResult
{
    int status = 0; // 0 ok, 1 failed
    std::string key, msg, desc;
    std::vector<uint64_t> rec;
};

static std::string death(int st, int limit)
{
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF)
            return cat("did not terminate within ", limit, " s of CPU time");
        if (sg == SIGALRM)
            return "blocked (wall-clock backstop)";
        return cat("process died with signal ", sg, " (", strsignal(sg), ")");
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0)
        return cat("process exited with status ", WEXITSTATUS(st), " inside the case");
    return "process ended inside the case";
}
static std::string death_key(int st)
{
    if (WIFSIGNALED(st))
        return WTERMSIG(st) == SIGPROF ? "no-termination" : cat("crash-signal-", WTERMSIG(st));
    return "crash-exit";
}

// evaluate a choice sequence in a forked child
static EvalResult eval_isolated(const Sub &sub, const std::vector<uint64_t> &choices, int size, bool verbose = false)
{
    static Shm *shm = new_shm();
    memset(shm, 0, sizeof(Shm));
    std::string recfile = g_tmp + "/rec.bin";
    unlink(recfile.c_str());
    std::string scratch = g_tmp + "/s_eval";
    fresh_scratch(scratch);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        if (!verbose)
            child_setup();
        arm(sub.cpu_limit);
        Case c;
        c.s.replaying = true;
        c.s.input = choices;
        c.s.size = size;
        c.scratch = scratch;
        c.thorough = g_thorough;
        c.live = shm->desc;
        Failure f;
        int r = run_here(sub, c, f);
        shm->status = r == 1 ? 1 : 2;
        put(shm->key, sizeof shm->key, f.key);
        put(shm->msg, sizeof shm->msg, f.msg);
        put(shm->desc, sizeof shm->desc, c.desc);
        std::ofstream o(recfile, std::ios::binary);
        o.write((const char *)c.s.rec.data(), c.s.rec.size() * 8);
        o.close();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    kill(-pid, SIGKILL);
    EvalResult r;
    r.rec = choices;
    if (shm->status == 0) {
        r.status = (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) || (sub.exit_ok && WIFEXITED(st)) ? 0 : 1;
        r.key = death_key(st);
        r.msg = death(st, sub.cpu_limit);
    } else if (shm->status == 1) {
        r.status = 1;
        r.key = shm->key;
        r.msg = shm->msg;
    }
    r.desc = shm->desc;
    if (shm->status != 0) {
        std::ifstream in(recfile, std::ios::binary | std::ios::ate);
        if (in) {
            size_t n = in.tellg();
            r.rec.resize(n / 8);
            in.seekg(0);
            in.read((char *)r.rec.data(), r.rec.size() * 8);
        }
    }
    return r;
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

static EvalResult shrink(const Sub &sub, EvalResult best, int size, double budget_s)
{
    auto t0 = clk::now();
    int evals = 0;
    auto over = [&]() { return std::chrono::duration<double>(clk::now() - t0).count() > budget_s || evals > 3000; };
    auto attempt = [&](std::vector<uint64_t> cand) {
        if (!simpler(cand, best.rec))
            return false;
        ++evals;
        EvalResult r = eval_isolated(sub, cand, size);
        if (r.status != 1 || g_known.count(r.key))
            return false;
        // keep to the same kind of failure so the minimal case explains the original one
        if (r.key != best.key)
            return false;
        if (r.rec.size() > cand.size())
            r.rec = cand;
        if (!simpler(r.rec, best.rec))
            return false;
        best = r;
        return true;
    };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        // delete blocks
        for (size_t k = std::max<size_t>(1, best.rec.size() / 2); k >= 1 && !over(); k /= 2) {
            for (size_t i = best.rec.size(); i-- > 0 && !over();) {
                if (i + k > best.rec.size())
                    continue;
                std::vector<uint64_t> c = best.rec;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) {
                    progress = true;
                    if (i > best.rec.size())
                        i = best.rec.size();
                }
                if (k > 4 && i >= k / 2)
                    i -= k / 2;
            }
            if (k == 1)
                break;
        }
        // zero blocks
        for (size_t k : {size_t(16), size_t(4), size_t(1)}) {
            for (size_t i = 0; i + k <= best.rec.size() && !over(); i += k) {
                std::vector<uint64_t> c = best.rec;
                bool any = false;
                for (size_t j = i; j < i + k; ++j) {
                    any |= c[j] != 0;
                    c[j] = 0;
                }
                if (any && attempt(c))
                    progress = true;
            }
        }
        // binary search single values down
        for (size_t i = 0; i < best.rec.size() && !over(); ++i) {
            uint64_t lo = 0, hi = best.rec[i];
            int guard = 0;
            while (lo < hi && guard++ < 24 && !over()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c = best.rec;
                if (i >= c.size())
                    break;
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                    if (i >= best.rec.size())
                        break;
                    hi = best.rec[i];
                } else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

static void write_replay(const std::string &path, const Sub &sub, int size, const EvalResult &r)
{
    std::ofstream o(path);
    o << "property " << g_property << "\nsub " << sub.name << "\nsize " << size << "\nkey " << r.key << "\nchoices";
    for (auto v : r.rec)
        o << " " << v;
    o << "\n# " << r.key << ": ";
    for (char ch : r.msg)
        o << (ch == '\n' ? std::string("\n# ") : std::string(1, ch));
    o << "\n# case: ";
    for (char ch : r.desc)
        o << (ch == '\n' ? std::string("\n# ") : std::string(1, ch));
    o << "\n";
}

static int do_replay(const std::string &path)
{
    std::ifstream in(path);
    std::string line, subname;
    int size = 50;
    std::vector<uint64_t> choices;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "sub")
            is >> subname;
        else if (k == "size")
            is >> size;
        else if (k == "choices") {
            uint64_t v;
            while (is >> v)
                choices.push_back(v);
        }
    }
    for (auto &s : g_subs) {
        if (subname == s.name) {
            EvalResult r = eval_isolated(s, choices, size, g_verbose);
            if (r.status == 1) {
                printf("REPLAY FAILED property=%s sub=%s key=%s\n%s\ncase: %s\n", g_property.c_str(), s.name,
                    r.key.c_str(), r.msg.c_str(), r.desc.c_str());
                return 1;
            }
            printf("REPLAY PASSED property=%s sub=%s\n", g_property.c_str(), s.name);
            return 0;
        }
    }
    fprintf(stderr, "no sub-check '%s'\n", subname.c_str());
    return 2;
}

struct SubStats
{
    int64_t evals = 0, discards = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, int64_t> labels;
    std::vector<std::pair<int64_t, std::string>> samples;
    int64_t known = 0;
    std::map<std::string, std::string> known_msgs;
    int64_t unreproduced = 0;
    double secs = 0;
    bool cut = false;
};

int main_impl(int argc, char **argv, const char *property, const char *rule, const std::vector<Sub> &subs,
    const std::vector<std::string> &assumptions)
{
    g_property = property;
    g_subs = subs;
#if defined(__SANITIZE_ADDRESS__)
    g_asan = true;
#endif
    uint64_t seed = 1;
    std::string out, only, replay_dir = ".";
    int jobs = 8;
    double budget = 240, shrink_budget = 45;
    double scale = 1.0;
    std::string replay;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed")
            seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier")
            g_thorough = val() == "thorough";
        else if (a == "--out")
            out = val();
        else if (a == "--sub")
            only = val();
        else if (a == "--jobs")
            jobs = atoi(val().c_str());
        else if (a == "--budget")
            budget = atof(val().c_str());
        else if (a == "--shrink")
            shrink_budget = atof(val().c_str());
        else if (a == "--scale")
            scale = atof(val().c_str());
        else if (a == "--replay")
            replay = val();
        else if (a == "--replay-dir")
            replay_dir = val();
        else if (a == "--known") {
            std::ifstream in(val());
            std::string l;
            while (std::getline(in, l))
                if (!l.empty())
                    g_known.insert(l);
        } else if (a == "-v")
            g_verbose = true;
    }
    char tmpl[] = "/tmp/vh_XXXXXX";
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 3;
    }
    g_tmp = tmpl;
    struct Cleanup
    {
        ~Cleanup()
        {
            std::error_code ec;
            if (g_tmp.rfind("/tmp/vh_", 0) == 0)
                fs::remove_all(g_tmp, ec);
        }
    } cleanup;

    if (!replay.empty())
        return do_replay(replay);

    auto tstart = clk::now();
    std::map<std::string, SubStats> stats;
    struct Viol
    {
        std::string sub, path;
        EvalResult r;
    };
    std::vector<Viol> viols;

    double total_weight = 0;
    for (auto &s : subs)
        total_weight += (only.empty() || only == s.name) ? 1 : 0;
    int done_subs = 0;

    for (auto &sub : subs) {
        if (!only.empty() && only != sub.name)
            continue;
        auto ts = clk::now();
        SubStats &S = stats[sub.name];
        int64_t n = std::max<int64_t>(1, (int64_t)((g_thorough ? sub.thorough : sub.quick) * scale));
        int J = (int)std::min<int64_t>(jobs, n);
        double elapsed = std::chrono::duration<double>(ts - tstart).count();
        double my_budget = std::max(2.0, (budget - elapsed) / std::max(1.0, total_weight - done_subs));
        ++done_subs;
        auto deadline = ts + std::chrono::duration_cast<clk::duration>(std::chrono::duration<double>(my_budget));

        std::vector<Shm *> shm(J);
        std::vector<pid_t> pids(J, 0);
        std::vector<int64_t> nexti(J);
        std::vector<int> gen(J, 0);
        for (int w = 0; w < J; ++w) {
            shm[w] = new_shm();
            nexti[w] = w;
        }
        auto spawn = [&](int w) {
            shm[w]->status = 0;
            shm[w]->index = -1;
            int64_t start = nexti[w];
            std::string rf = g_tmp + "/w" + std::to_string(w) + "_" + std::to_string(gen[w]++) + ".txt";
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                child_setup();
                std::ofstream o(rf);
                std::string scratch = g_tmp + "/s" + std::to_string(w);
                fresh_scratch(scratch);
                int nsamp = 0;
                for (int64_t i = start; i < n; i += J) {
                    if (clk::now() > deadline)
                        break;
                    shm[w]->index = i;
                    Case c;
                    c.s.state = case_seed(seed, sub, i);
                    c.s.size = (int)std::min<int64_t>(100, 5 + (i * 97 / std::max<int64_t>(1, n)) + (i % 7) * 5);
                    c.scratch = scratch;
                    c.thorough = g_thorough;
                    arm(sub.cpu_limit);
                    Failure f;
                    int r = run_here(sub, c, f);
                    fresh_scratch(scratch);
                    shm[w]->evals++;
                    if (r == 2) {
                        shm[w]->discards++;
                        continue;
                    }
                    for (auto &l : c.labels)
                        o << "L " << l << "\n";
                    if (c.nontrivial) {
                        uint64_t h = c.sig ? c.sig : fnv(c.s.rec.data(), c.s.rec.size() * 8);
                        o << "H " << h << "\n";
                        if (nsamp < 3 && !c.desc.empty()) {
                            std::string d = c.desc;
                            std::replace(d.begin(), d.end(), '\n', ' ');
                            o << "S " << i << " " << d << "\n";
                            ++nsamp;
                        }
                    }
                    if (r == 1) {
                        if (g_known.count(f.key)) {
                            std::string m = f.msg;
                            std::replace(m.begin(), m.end(), '\n', ' ');
                            o << "K " << f.key << " " << m << "\n";
                            continue;
                        }
                        put(shm[w]->key, sizeof shm[w]->key, f.key);
                        put(shm[w]->msg, sizeof shm[w]->msg, f.msg);
                        put(shm[w]->desc, sizeof shm[w]->desc, c.desc);
                        o.close();
                        shm[w]->status = 1;
                        _exit(0);
                    }
                    if (i % 64 == 0)
                        o.flush();
                }
                o.close();
                shm[w]->status = 2;
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < J; ++w)
            spawn(w);
        int64_t fail_index = -1;
        EvalResult first;
        int live = J;
        int crashes_known = 0;
        while (live > 0) {
            int st = 0;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0) {
                if (errno == EINTR)
                    continue;
                break;
            }
            int w = -1;
            for (int k = 0; k < J; ++k)
                if (pids[k] == p)
                    w = k;
            if (w < 0)
                continue;
            kill(-p, SIGKILL); // anything the case left running
            pids[w] = 0;
            if (shm[w]->status == 2) {
                --live;
                S.cut = S.cut || (clk::now() > deadline);
                continue;
            }
            if (sub.exit_ok && shm[w]->status == 0 && WIFEXITED(st) && shm[w]->index >= 0) {
                shm[w]->evals++;
                S.labels["rejected by exit"]++;
                nexti[w] = shm[w]->index + J;
                if (fail_index >= 0 || nexti[w] >= n || clk::now() > deadline)
                    --live;
                else
                    spawn(w);
                continue;
            }
            bool backstop = shm[w]->status == 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
            bool known = false;
            EvalResult r;
            r.status = 1;
            if (shm[w]->status == 1) {
                r.key = shm[w]->key;
                r.msg = shm[w]->msg;
                r.desc = shm[w]->desc;
            } else {
                r.key = death_key(st);
                r.msg = death(st, sub.cpu_limit);
            }
            if (g_known.count(r.key)) {
                known = true;
                S.known++;
                S.known_msgs.emplace(r.key, r.msg);
            }
            if (fail_index >= 0 && !known) {
                --live;
                continue;
            }
            int64_t idx = shm[w]->index;
            if (backstop || known || idx < 0) {
                if (backstop)
                    S.unreproduced++;
                nexti[w] = (idx < 0 ? nexti[w] : idx + J);
                if (idx < 0 || ++crashes_known > 200 || nexti[w] >= n) {
                    --live;
                    continue;
                }
                spawn(w);
                continue;
            }
            // reproduce from the recorded choices
            Case gc;
            // regenerate the choice sequence by re-running in an isolated child
            {
                std::string recfile = g_tmp + "/gen.bin";
                unlink(recfile.c_str());
                std::string scratch = g_tmp + "/s_gen";
                fresh_scratch(scratch);
                // crash-safe recording: write choices as they are drawn is too slow, so
                // re-run with a replaying source fed by a long prefix of the same stream
                Src s;
                s.state = case_seed(seed, sub, idx);
                s.size = (int)std::min<int64_t>(100, 5 + (idx * 97 / std::max<int64_t>(1, n)) + (idx % 7) * 5);
                gc.s = s;
            }
            static Shm *rshm = new_shm();
            memset(rshm, 0, sizeof(Shm));
            size_t cap = 1u << 22;
            uint64_t *buf = (uint64_t *)mmap(
                nullptr, cap * 8 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            pid_t g = fork();
            if (g == 0) {
                setpgid(0, 0);
                child_setup();
                arm(sub.cpu_limit);
                struct RecordingCase : Case
                {
                };
                Case c;
                c.s = gc.s;
                c.scratch = g_tmp + "/s_gen";
                c.thorough = g_thorough;
                // mirror draws into shared memory from a signal-safe place: use a custom
                // vector growth by reserving and copying at exit or in the crash handler
                static Case *cp;
                static uint64_t *bp;
                static size_t bcap;
                cp = &c;
                bp = buf;
                bcap = cap;
                c.s.rec.reserve(1 << 16);
                auto dump = [](int sg) {
                    size_t k = std::min(cp->s.rec.size(), bcap);
                    memcpy(bp + 1, cp->s.rec.data(), k * 8);
                    bp[0] = k;
                    if (sg) {
                        signal(sg, SIG_DFL);
                        raise(sg);
                        _exit(99);
                    }
                };
                static auto handler = +dump;
                static char altstack[1 << 16];
                stack_t ss;
                ss.ss_sp = altstack;
                ss.ss_size = sizeof altstack;
                ss.ss_flags = 0;
                sigaltstack(&ss, nullptr);
                for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) {
                    struct sigaction sa;
                    memset(&sa, 0, sizeof sa);
                    sa.sa_handler = handler;
                    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
                    sigaction(sg, &sa, nullptr);
                }
                atexit([]() { handler(0); });
                Failure f;
                int rr = run_here(sub, c, f);
                handler(0);
                rshm->status = rr == 1 ? 1 : 2;
                _exit(0);
            }
            int gst;
            while (waitpid(g, &gst, 0) < 0 && errno == EINTR)
                ;
            r.rec.assign(buf + 1, buf + 1 + buf[0]);
            munmap(buf, cap * 8 + 64);

            int size = gc.s.size;
            int tries = sub.schedule ? 20 : 3, okn = 0;
            EvalResult rep = r;
            for (int t = 0; t < tries; ++t) {
                EvalResult e = eval_isolated(sub, r.rec, size);
                if (e.status == 1 && !g_known.count(e.key)) {
                    ++okn;
                    rep = e;
                    if (sub.schedule)
                        break;
                } else if (!sub.schedule)
                    break;
            }
            if ((sub.schedule && okn >= 1) || okn == 3) {
                fail_index = idx;
                first = rep;
                // stop the others
                for (int k = 0; k < J; ++k)
                    if (pids[k] > 0)
                        kill(-pids[k], SIGKILL), kill(pids[k], SIGKILL);
                --live;
                if (!sub.schedule)
                    first = shrink(sub, first, size, shrink_budget);
                std::error_code ec;
                fs::create_directories(replay_dir, ec);
                std::string path = replay_dir + "/" + g_property + "_" + sub.name + "_" +
                                   std::to_string(seed) + ".replay";
                write_replay(path, sub, size, first);
                // the minimal case must fail three times more
                int again = 0;
                for (int t = 0; t < (sub.schedule ? 20 : 3); ++t)
                    again += eval_isolated(sub, first.rec, size).status == 1;
                if (again == 3 || (sub.schedule && again >= 1))
                    viols.push_back({sub.name, path, first});
                else {
                    // fall back to the unshrunk case, which did fail three times
                    write_replay(path, sub, size, rep);
                    viols.push_back({sub.name, path, rep});
                }
            } else {
                S.unreproduced++;
                fprintf(stderr, "note: %s/%s case %lld failed once (%s: %s) and did not reproduce; not reported\n",
                    property, sub.name, (long long)idx, r.key.c_str(), r.msg.c_str());
                nexti[w] = idx + J;
                if (nexti[w] >= n || S.unreproduced > 20) {
                    --live;
                    continue;
                }
                spawn(w);
            }
        }
        for (int w = 0; w < J; ++w) {
            S.evals += shm[w]->evals;
            S.discards += shm[w]->discards;
            munmap(shm[w], sizeof(Shm));
            for (int gi = 0; gi < gen[w]; ++gi) {
                std::string rf = g_tmp + "/w" + std::to_string(w) + "_" + std::to_string(gi) + ".txt";
                std::ifstream in(rf);
                std::string l;
                while (std::getline(in, l)) {
                    if (l.size() < 2)
                        continue;
                    if (l[0] == 'L')
                        S.labels[l.substr(2)]++;
                    else if (l[0] == 'H')
                        S.distinct.insert(strtoull(l.c_str() + 2, nullptr, 10));
                    else if (l[0] == 'S') {
                        char *e;
                        int64_t idx = strtoll(l.c_str() + 2, &e, 10);
                        S.samples.push_back({idx, std::string(e + 1)});
                    } else if (l[0] == 'K') {
                        auto sp = l.find(' ', 2);
                        S.known++;
                        S.known_msgs.emplace(l.substr(2, sp - 2), sp == std::string::npos ? "" : l.substr(sp + 1));
                    }
                }
                in.close();
                unlink(rf.c_str());
            }
        }
        S.secs = std::chrono::duration<double>(clk::now() - ts).count();
    }

    int64_t evals = 0, distinct = 0;
    std::string subsj, samplesj, knownj;
    int ns = 0;
    for (auto &[name, S] : stats) {
        evals += S.evals - S.discards;
        distinct += S.distinct.size();
        std::string lj;
        for (auto &[l, c] : S.labels)
            lj += (lj.empty() ? "" : ", ") + jstr(l) + ": " + std::to_string(c);
        subsj += (subsj.empty() ? "" : ",\n  ") + jstr(name) + ": {\"evaluations\": " +
                 std::to_string(S.evals - S.discards) + ", \"discarded\": " + std::to_string(S.discards) +
                 ", \"distinct_nontrivial\": " + std::to_string(S.distinct.size()) + ", \"known\": " +
                 std::to_string(S.known) + ", \"unreproduced\": " + std::to_string(S.unreproduced) +
                 ", \"stopped_by_time\": " + (S.cut ? "true" : "false") + ", \"seconds\": " +
                 std::to_string(S.secs) + ", \"labels\": {" + lj + "}}";
        std::sort(S.samples.begin(), S.samples.end());
        // one early, one late sample per sub-check
        std::vector<size_t> take;
        if (!S.samples.empty()) {
            take.push_back(0);
            if (S.samples.size() > 1)
                take.push_back(S.samples.size() - 1);
        }
        for (size_t k : take) {
            if (ns++ >= 40)
                break;
            samplesj += (samplesj.empty() ? "" : ",\n  ") +
                        jstr(name + " #" + std::to_string(S.samples[k].first) + ": " + S.samples[k].second);
        }
        for (auto &[k, m] : S.known_msgs)
            knownj += (knownj.empty() ? "" : ",\n  ") + ("{\"key\": " + jstr(k) + ", \"sub\": " + jstr(name) +
                                                            ", \"msg\": " + jstr(m) + "}");
    }
    std::string asj, vj;
    for (auto &a : assumptions)
        asj += (asj.empty() ? "" : ", ") + jstr(a);
    for (auto &v : viols)
        vj += (vj.empty() ? "" : ",\n  ") +
              ("{\"sub\": " + jstr(v.sub) + ", \"replay\": " + jstr(v.path) + ", \"key\": " + jstr(v.r.key) +
                  ", \"msg\": " + jstr(v.r.msg) + ", \"case\": " + jstr(v.r.desc) + "}");
    std::string j = "{\"property\": " + jstr(property) + ",\n \"evaluations\": " + std::to_string(evals) +
                    ",\n \"distinct_nontrivial\": " + std::to_string(distinct) + ",\n \"rule\": " + jstr(rule) +
                    ",\n \"samples\": [" + samplesj + "],\n \"subchecks\": {" + subsj + "},\n \"known\": [" + knownj +
                    "],\n \"assumptions\": [" + asj + "],\n \"violations\": [" + vj + "]}\n";
    if (!out.empty()) {
        std::ofstream o(out);
        o << j;
    } else
        fputs(j.c_str(), stdout);
    return viols.empty() ? 0 : 1;
}
} // namespace vh
