/*
 * Explorer: runs an enumerated, bounded case space over forked workers.
 *
 * - cases are numbered 0..n-1 and each case is a deterministic function of
 *   its number, so a number is a complete replay recipe;
 * - every case is executed (or the run says it was not exhaustive);
 * - a crash or a hang of a worker is attributed to the case it was running,
 *   replayed alone before it is reported, and the exploration goes on;
 * - counters and violations live in memory shared with the parent.
 */
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#endif
#ifdef MC_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif

namespace mc {

static inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static inline std::string fmt(const char *f, ...)
    __attribute__((format(printf, 1, 2)));
static inline std::string fmt(const char *f, ...)
{
    char buf[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    return buf;
}

static inline uint64_t fnv(const void *p, size_t n,
                           uint64_t h = 0xcbf29ce484222325ull)
{
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) {
        h ^= b[i];
        h *= 0x100000001b3ull;
    }
    h ^= h >> 32;
    return h;
}
static inline uint64_t fnv(const std::string &s,
                           uint64_t h = 0xcbf29ce484222325ull)
{
    return fnv(s.data(), s.size(), h);
}

static const int MAXW = 64;
static const int MAXV = 48;
static const int MAXC = 64;
static const int VTEXT = 6000;
static const size_t HBITS = 1u << 22;

struct Viol {
    uint64_t idx;
    int kind; /* 0 check, 1 crash, 2 hang */
    char text[VTEXT];
};

struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> cases;
    std::atomic<int> nviol;
    std::atomic<int> stop;
    std::atomic<uint64_t> counters[MAXC];
    std::atomic<uint64_t> cur[MAXW]; /* idx + 1, 0: idle */
    std::atomic<uint64_t> beat[MAXW];
    std::atomic<uint64_t> started[MAXW];
    Viol v[MAXV];
    std::atomic<uint8_t> bits[HBITS / 8];
};

struct Options {
    std::string tier = "quick";
    std::string out;
    int jobs = 8;
    int64_t only = -1;
    double hang_s = 60;
    double budget_s = 0; /* stop claiming new cases after this (0: none) */
    int max_viol = 6;
    std::map<std::string, std::string> kv;
    bool thorough() const { return tier == "thorough"; }
    std::string get(const std::string &k, const std::string &d = "") const
    {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
};

struct Explorer {
    Options opt;
    Shared *sh;
    std::vector<std::string> cnames;
    int worker = -1;
    std::vector<std::string> samples;
    std::map<std::string, std::string> notes; /* extra JSON values */
    double t0;
    uint64_t ncases = 0;
    std::string harness;
    bool capped = false;
    uint64_t curidx = 0;

    Explorer(int argc, char **argv, const char *name) : harness(name)
    {
        t0 = now();
        if (const char *t = getenv("VERIF_TIER"))
            opt.tier = t;
        if (const char *j = getenv("VERIF_JOBS"))
            opt.jobs = atoi(j);
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto nextarg = [&]() -> std::string {
                if (i + 1 >= argc) {
                    fprintf(stderr, "missing argument for %s\n", a.c_str());
                    exit(2);
                }
                return argv[++i];
            };
            if (a == "--tier")
                opt.tier = nextarg();
            else if (a == "--out")
                opt.out = nextarg();
            else if (a == "--jobs")
                opt.jobs = atoi(nextarg().c_str());
            else if (a == "--case")
                opt.only = atoll(nextarg().c_str());
            else if (a == "--budget")
                opt.budget_s = atof(nextarg().c_str());
            else if (a == "--hang")
                opt.hang_s = atof(nextarg().c_str());
            else if (a.rfind("--", 0) == 0)
                opt.kv[a.substr(2)] = nextarg();
            else {
                fprintf(stderr, "unknown argument %s\n", a.c_str());
                exit(2);
            }
        }
        if (opt.jobs > MAXW)
            opt.jobs = MAXW;
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (sh == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
    }

    int counter(const char *name)
    {
        for (size_t i = 0; i < cnames.size(); i++)
            if (cnames[i] == name)
                return (int)i;
        if (worker >= 0 || cnames.size() >= (size_t)MAXC) {
            fprintf(stderr, "counter %s registered too late\n", name);
            abort();
        }
        cnames.push_back(name);
        return (int)cnames.size() - 1;
    }
    void add(int c, uint64_t n = 1) { sh->counters[c] += n; }
    /* count a distinct outcome (hash) */
    void outcome(uint64_t h)
    {
        h ^= h >> 29;
        h *= 0x9E3779B97F4A7C15ull;
        size_t b = (h >> 20) % HBITS;
        uint8_t m = (uint8_t)(1u << (b & 7));
        if (!(sh->bits[b / 8].load(std::memory_order_relaxed) & m))
            sh->bits[b / 8].fetch_or(m);
    }
    uint64_t distinct()
    {
        uint64_t n = 0;
        for (size_t i = 0; i < HBITS / 8; i++)
            n += (uint64_t)__builtin_popcount(sh->bits[i].load());
        return n;
    }
    void beat()
    {
        if (worker >= 0)
            sh->beat[worker]++;
    }
    void fail(const char *f, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[VTEXT];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof(buf), f, ap);
        va_end(ap);
        record(curidx, 0, buf);
    }
    void record(uint64_t idx, int kind, const char *text)
    {
        if (opt.only >= 0 && worker < 0)
            fprintf(stderr, "FAIL case %" PRIu64 ": %s\n", idx, text);
        int n = sh->nviol++;
        if (n < MAXV) {
            sh->v[n].idx = idx;
            sh->v[n].kind = kind;
            snprintf(sh->v[n].text, VTEXT, "%s", text);
        }
        if (n + 1 >= opt.max_viol)
            sh->stop = 1;
    }

    void sample(const std::string &s)
    {
        if (samples.size() < 12)
            samples.push_back(s);
    }

    static std::string slurp_tail(const std::string &path, size_t max)
    {
        FILE *f = fopen(path.c_str(), "r");
        if (!f)
            return "";
        std::string s;
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof(b), f)) > 0) {
            s.append(b, n);
            if (s.size() > 200000)
                break;
        }
        fclose(f);
        size_t p = s.find("ERROR: AddressSanitizer");
        if (p == std::string::npos)
            p = s.find("Assertion");
        if (p != std::string::npos && p > 200)
            s = s.substr(p - 200);
        else if (p == std::string::npos && s.size() > max)
            s = s.substr(s.size() - max);
        if (s.size() > max)
            s.resize(max);
        return s;
    }

    /* run one case alone; 0 ok, 1 crash, 2 hang */
    int solo(uint64_t idx, const std::function<void(uint64_t)> &f,
             double limit, std::string &detail, int w)
    {
        std::string err = errfile(w);
        pid_t pid = fork();
        if (pid == 0) {
            worker = w;
            redirect(err);
            curidx = idx;
            for (auto &wi : worker_init)
                wi(w);
            f(idx);
            _exit(0);
        }
        double start = now();
        int st;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid)
                break;
            if (now() - start > limit) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                detail = fmt("no progress in %.0f s", limit);
                return 2;
            }
            usleep(2000);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return 0;
        detail = status_text(st) + "\n" + slurp_tail(err, 4000);
        return 1;
    }
    static std::string status_text(int st)
    {
        if (WIFSIGNALED(st))
            return fmt("killed by signal %d (%s)", WTERMSIG(st),
                       strsignal(WTERMSIG(st)));
        return fmt("exit status %d", WEXITSTATUS(st));
    }
    std::string tmpdir;
    std::string errfile(int w) { return tmpdir + fmt("/w%d.err", w); }
    static void redirect(const std::string &path)
    {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
    }

    std::vector<std::function<void(int)>> worker_init;

    void run(uint64_t n, const std::function<void(uint64_t)> &f)
    {
        ncases = n;
        if (opt.only >= 0) {
            curidx = (uint64_t)opt.only;
            for (auto &wi : worker_init)
                wi(0);
            f((uint64_t)opt.only);
            sh->cases = 1;
            return;
        }
        char tmpl[] = "/tmp/verif-mc-XXXXXX";
        if (!mkdtemp(tmpl)) {
            perror("mkdtemp");
            exit(2);
        }
        tmpdir = tmpl;
        int jobs = opt.jobs;
        std::vector<pid_t> pids((size_t)jobs, -1);
        std::vector<uint64_t> lastcur((size_t)jobs, 0), lastbeat((size_t)jobs, 0);
        std::vector<double> lastt((size_t)jobs, now());
        std::vector<bool> done((size_t)jobs, false);
        auto spawn = [&](int w) {
            fflush(stdout);
            fflush(stderr);
            sh->cur[w] = 0;
            pid_t pid = fork();
            if (pid == 0) {
                worker = w;
                redirect(errfile(w));
                for (auto &wi : worker_init)
                    wi(w);
                for (;;) {
                    if (sh->stop)
                        break;
                    if (opt.budget_s > 0 && now() - t0 > opt.budget_s) {
                        break;
                    }
                    uint64_t i = sh->next++;
                    if (i >= ncases)
                        break;
                    curidx = i;
                    sh->cur[w] = i + 1;
                    f(i);
                    sh->cases++;
                    sh->cur[w] = 0;
                }
                _exit(0);
            }
            pids[(size_t)w] = pid;
            lastt[(size_t)w] = now();
        };
        for (int w = 0; w < jobs; w++)
            spawn(w);
        int alive = jobs;
        int respawns = 0;
        double stopped = 0;
        while (alive > 0) {
            bool any = false;
            if (sh->stop && stopped == 0)
                stopped = now();
            /* enough is known: do not wait for those which do not end */
            bool give_up = stopped != 0 && now() - stopped > 10 && sh->nviol > 0;
            for (int w = 0; w < jobs; w++) {
                size_t wz = (size_t)w;
                if (done[wz])
                    continue;
                int st;
                pid_t r = waitpid(pids[wz], &st, WNOHANG);
                bool hang = false;
                if (r == 0) {
                    uint64_t c = sh->cur[w], b = sh->beat[w];
                    if (c != lastcur[wz] || b != lastbeat[wz] || c == 0) {
                        lastcur[wz] = c;
                        lastbeat[wz] = b;
                        lastt[wz] = now();
                    }
                    if (give_up) {
                        kill(pids[wz], SIGKILL);
                        waitpid(pids[wz], &st, 0);
                        done[wz] = true;
                        alive--;
                        continue;
                    }
                    if (now() - lastt[wz] > opt.hang_s) {
                        kill(pids[wz], SIGKILL);
                        waitpid(pids[wz], &st, 0);
                        hang = true;
                    }
                    if (!hang)
                        continue;
                }
                any = true;
                if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    done[wz] = true;
                    alive--;
                    continue;
                }
                uint64_t c = sh->cur[w];
                std::string first = hang ? "hang" : status_text(st);
                std::string log = slurp_tail(errfile(w), 3500);
                if (c == 0) {
                    /* died outside a case: harness error */
                    fprintf(stderr, "worker died outside a case: %s\n%s\n",
                            first.c_str(), log.c_str());
                    cleanup();
                    exit(2);
                }
                uint64_t idx = c - 1;
                if (hang && sh->stop && sh->nviol > 0) {
                    done[wz] = true;
                    alive--;
                    continue;
                }
                std::string detail;
                int before = sh->nviol;
                int k = solo(idx, f, opt.hang_s * 2, detail, w);
                if (k == 1) {
                    record(idx, 1, ("crash: " + detail).c_str());
                } else if (k == 2) {
                    record(idx, 2, ("hang: " + detail).c_str());
                    sh->stop = 1; /* more of them would take too long */
                } else if (sh->nviol > before) {
                    /* the replay reported an ordinary violation */
                } else if (!hang && log.find("ERROR: AddressSanitizer") !=
                                        std::string::npos) {
                    record(idx, 1,
                           ("crash (not reproduced alone): " + first + "\n" +
                            log)
                               .c_str());
                } else if (!hang && WIFSIGNALED(st) &&
                           WTERMSIG(st) != SIGKILL) {
                    record(idx, 1,
                           ("crash (not reproduced alone): " + first + "\n" +
                            log)
                               .c_str());
                } else {
                    fprintf(stderr,
                            "note: case %" PRIu64 " %s once, fine alone\n",
                            idx, first.c_str());
                }
                sh->cases++;
                if (++respawns > 200 || sh->stop) {
                    done[wz] = true;
                    alive--;
                } else {
                    spawn(w);
                }
            }
            if (!any)
                usleep(3000);
        }
        cleanup();
        if (sh->cases < ncases && sh->nviol == 0)
            capped = true;
    }
    void cleanup()
    {
        if (tmpdir.empty())
            return;
        for (int w = 0; w < opt.jobs; w++)
            unlink(errfile(w).c_str());
        rmdir(tmpdir.c_str());
        tmpdir.clear();
    }

    static std::string js(const std::string &s)
    {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += (char)c;
            } else if (c < 0x20 || c >= 0x7f) {
                o += fmt("\\u%04x", c);
            } else
                o += (char)c;
        }
        return o + "\"";
    }

    int finish()
    {
        std::string o = "{";
        o += "\"harness\":" + js(harness);
        o += ",\"tier\":" + js(opt.tier);
        o += fmt(",\"cases_total\":%" PRIu64 ",\"cases\":%" PRIu64, ncases,
                 sh->cases.load());
        o += fmt(",\"exhaustive\":%s", capped || sh->cases < ncases ? "false" : "true");
        o += fmt(",\"distinct\":%" PRIu64, distinct());
        o += fmt(",\"wall_s\":%.3f", now() - t0);
        o += ",\"counters\":{";
        for (size_t i = 0; i < cnames.size(); i++)
            o += (i ? "," : "") + js(cnames[i]) +
                 fmt(":%" PRIu64, sh->counters[i].load());
        o += "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++)
            o += (i ? "," : "") + js(samples[i]);
        o += "],\"notes\":{";
        bool first = true;
        for (auto &kv : notes) {
            o += (first ? "" : ",") + js(kv.first) + ":" + kv.second;
            first = false;
        }
        o += "},\"violations\":[";
        int nv = sh->nviol;
        if (nv > MAXV)
            nv = MAXV;
        for (int i = 0; i < nv; i++)
            o += (i ? "," : "") +
                 fmt("{\"case\":%" PRIu64 ",\"kind\":%d,\"text\":",
                     sh->v[i].idx, sh->v[i].kind) +
                 js(sh->v[i].text) + "}";
        o += "]}";
        if (!opt.out.empty()) {
            FILE *f = fopen(opt.out.c_str(), "w");
            if (!f) {
                perror(opt.out.c_str());
                return 2;
            }
            fprintf(f, "%s\n", o.c_str());
            fclose(f);
        } else {
            printf("%s\n", o.c_str());
        }
        return nv > 0 ? 1 : 0;
    }
};

/* live heap bytes, for leak checks around one case (0 without ASan) */
static inline size_t heap_live()
{
#ifdef MC_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

} // namespace mc
#endif
