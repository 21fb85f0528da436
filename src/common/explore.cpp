#include <explore.h>

#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

namespace vx {

namespace {

double wallNow()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

enum { QCAP = 8192, MAXSCEN = 4096, MAXVIOL = 64, MAXOUT = 512, HBITS = 22, MAXW = 64 };

struct Viol {
    char prop[8];
    char key[160];
    char msg[1200];
    Task task;
    uint64_t count;
};
struct Shared {
    pthread_mutex_t       mu;
    int                   qhead, qcount, active;
    std::atomic<int>      stop;       // 1: deadline, 2: violation, 3: internal error
    std::atomic<uint64_t> execs, transitions, states, maxPoints, tableFull;
    std::atomic<uint64_t> scenExecs[MAXSCEN];
    std::atomic<uint64_t> devExecs[8];
    int                   nviol;
    Viol                  viol[MAXVIOL];
    int                   nout;
    struct {
        char     name[88];
        uint64_t count;
        Task     task;
    } out[MAXOUT];
    Task                  current[MAXW];
    std::atomic<int>      inRun[MAXW];
    std::atomic<double>   runStart[MAXW];
    char                  error[400];
    Task                  queue[QCAP];
    std::atomic<uint64_t> table[1u << HBITS];
};
Shared                  *g_sh;
std::set<std::string>    g_known;
std::string              g_prop;
int                      g_worker = -1;
std::map<std::string, std::pair<uint64_t, Task>> g_localOut;
uint64_t                 g_localTrans;

void lock()
{
    int rc = pthread_mutex_lock(&g_sh->mu);
    if (rc == EOWNERDEAD)
        pthread_mutex_consistent(&g_sh->mu);
}
void unlock() { pthread_mutex_unlock(&g_sh->mu); }

void addState(uint64_t fp)
{
    if (fp == 0)
        fp = 1;
    uint64_t i = fp >> (64 - HBITS);
    for (int k = 0; k < 64; ++k) {
        uint64_t cur = g_sh->table[i].load(std::memory_order_relaxed);
        if (cur == fp)
            return;
        if (cur == 0) {
            uint64_t z = 0;
            if (g_sh->table[i].compare_exchange_strong(z, fp)) {
                g_sh->states.fetch_add(1, std::memory_order_relaxed);
                return;
            }
            if (z == fp)
                return;
        }
        i = (i + 1) & ((1u << HBITS) - 1);
    }
    g_sh->tableFull.fetch_add(1, std::memory_order_relaxed);
}

void flushLocal()
{
    g_sh->transitions.fetch_add(g_localTrans);
    g_localTrans = 0;
    lock();
    for (auto &o : g_localOut) {
        int i = 0;
        for (; i < g_sh->nout; ++i)
            if (o.first == g_sh->out[i].name)
                break;
        if (i == g_sh->nout) {
            if (i >= MAXOUT)
                continue;
            snprintf(g_sh->out[i].name, sizeof g_sh->out[i].name, "%s", o.first.c_str());
            g_sh->out[i].count = 0;
            g_sh->out[i].task  = o.second.second;
            g_sh->nout++;
        }
        g_sh->out[i].count += o.second.first;
    }
    unlock();
    g_localOut.clear();
}

void recordViolation(const char *prop, const std::string &key, const std::string &msg, const Task &task)
{
    if (g_prop != prop)
        return;  // another property's check reports it
    lock();
    int i = 0;
    for (; i < g_sh->nviol; ++i)
        if (key == g_sh->viol[i].key)
            break;
    if (i == g_sh->nviol && i < MAXVIOL) {
        Viol &v = g_sh->viol[i];
        snprintf(v.prop, sizeof v.prop, "%s", prop);
        snprintf(v.key, sizeof v.key, "%s", key.c_str());
        snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
        v.task  = task;
        v.count = 0;
        g_sh->nviol++;
    }
    if (i < MAXVIOL) {
        g_sh->viol[i].count++;
        if (task.n < g_sh->viol[i].task.n)
            g_sh->viol[i].task = task;
    }
    bool known = g_known.count(std::string(prop) + " " + key) != 0;
    unlock();
    if (!known)
        g_sh->stop.store(2);
}

std::string taskStr(const std::vector<Scenario> &sc, const Task &t)
{
    std::ostringstream o;
    o << sc[t.scen].name << " [";
    for (int i = 0; i < t.n; ++i)
        o << (i ? " " : "") << t.pos[i] << ":" << t.alt[i];
    o << "]";
    return o.str();
}

void armCpuTimer(int seconds)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

void runOne(const std::vector<Scenario> &sc, const Task &t, Chooser &c, bool verbose)
{
    const Scenario &s = sc[t.scen];
    c.d_maxSteps      = s.maxSteps;
    c.begin(t, s.budget, verbose);
    try {
        s.run(c);
    }
    catch (EndExecution &) {
    }
    for (int i = 0; i < t.n; ++i)
        if (c.diverged)
            break;
}

void worker(int id, const std::vector<Scenario> &sc, double deadline)
{
    g_worker = id;
    std::vector<Task> local;
    Chooser           c;
    uint64_t          cnt    = 0;
    bool              active = true;  // counted in sh->active by the parent
    for (;;) {
        if (g_sh->stop.load())
            break;
        if (wallNow() > deadline) {
            int z = 0;
            g_sh->stop.compare_exchange_strong(z, 1);
            break;
        }
        Task t;
        if (local.empty()) {
            lock();
            if (g_sh->qcount == 0) {
                if (active) {
                    active = false;
                    g_sh->active--;
                }
                bool done = g_sh->active <= 0;
                unlock();
                if (done)
                    break;
                usleep(300);
                continue;
            }
            t            = g_sh->queue[g_sh->qhead];
            g_sh->qhead  = (g_sh->qhead + 1) % QCAP;
            g_sh->qcount--;
            if (!active) {
                active = true;
                g_sh->active++;
            }
            unlock();
        }
        else {
            t = local.back();
            local.pop_back();
        }
        g_sh->current[id] = t;
        g_sh->runStart[id].store(wallNow());
        g_sh->inRun[id].store(1);
        armCpuTimer(30);
        for (int tries = 0; tries < 8; ++tries) {
            // only harnesses on real sockets can fail to reproduce a prefix
            runOne(sc, t, c, false);
            if (!c.diverged)
                break;
        }
        g_sh->inRun[id].store(0);
        if (c.diverged) {
            lock();
            snprintf(g_sh->error, sizeof g_sh->error, "non-deterministic replay in %s", taskStr(sc, t).c_str());
            unlock();
            g_sh->stop.store(3);
            break;
        }
        g_sh->execs.fetch_add(1);
        g_sh->scenExecs[t.scen].fetch_add(1);
        g_sh->devExecs[std::min(t.n, 7)].fetch_add(1);
        uint64_t mp = g_sh->maxPoints.load();
        if (c.branch.size() > mp)
            g_sh->maxPoints.store(c.branch.size());
        if (t.n < MAXDEV) {
            for (auto it = c.branch.rbegin(); it != c.branch.rend(); ++it) {
                for (int a = it->n - 1; a >= 1; --a) {
                    Task ch      = t;
                    ch.pos[ch.n] = it->pos;
                    ch.alt[ch.n] = a;
                    ch.n++;
                    local.push_back(ch);
                }
            }
        }
        if (local.size() > 8 && g_sh->qcount < 256) {
            lock();
            size_t give = std::min<size_t>(local.size() / 2, 256);
            size_t k    = 0;
            while (k < give && g_sh->qcount < QCAP) {
                g_sh->queue[(g_sh->qhead + g_sh->qcount) % QCAP] = local[k];
                g_sh->qcount++;
                ++k;
            }
            unlock();
            local.erase(local.begin(), local.begin() + k);
        }
        if (++cnt % 256 == 0)
            flushLocal();
    }
    flushLocal();
}

bool parseTask(const std::string &file, std::string *scen, Task *t, std::string *prop, std::string *tier)
{
    std::ifstream f(file);
    std::string   line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string        k;
        is >> k;
        if (k == "scenario:") {
            std::getline(is, *scen);
            *scen = scen->substr(1);
        }
        else if (k == "property:")
            is >> *prop;
        else if (k == "tier:")
            is >> *tier;
        else if (k == "choices:") {
            std::string c;
            while (is >> c) {
                size_t p      = c.find(':');
                t->pos[t->n]  = std::stoul(c.substr(0, p));
                t->alt[t->n]  = std::stoul(c.substr(p + 1));
                t->n++;
            }
        }
    }
    return !scen->empty();
}

}

bool watching(const std::string &props)
{
    return g_prop.empty() || props.find(g_prop) != std::string::npos;
}
const std::string &watched() { return g_prop; }

void Chooser::begin(const Task &t, const Budget &b, bool verbose)
{
    task = t;
    budget = b;
    branch.clear();
    trace.clear();
    d_verbose = verbose;
    diverged  = false;
    d_steps   = 0;
    d_pos     = 0;
    d_next    = 0;
    d_used    = 0;
    d_fp      = 1469598103934665603ull;
    memset(d_usedPer, 0, sizeof d_usedPer);
}

int Chooser::choose(Kind k, int n, const char *label)
{
    if (n <= 1)
        return 0;
    uint32_t pos = d_pos++;
    int      alt = 0;
    if (d_next < task.n) {
        if (task.pos[d_next] == pos) {
            alt = task.alt[d_next++];
            if (alt >= n) {
                diverged = true;
                throw EndExecution();
            }
        }
    }
    else {
        bool ok = k == FREE || (d_used < budget.total && d_usedPer[k] < budget.per[k]);
        if (ok && !(task.n && pos <= task.pos[task.n - 1]))
            branch.push_back({pos, (uint16_t)n, 0, (uint8_t)k});
    }
    if (alt && k != FREE) {
        d_used++;
        d_usedPer[k]++;
    }
    if (d_verbose && n > 1) {
        std::ostringstream o;
        o << "    choice " << pos << " " << label << " = " << alt << " of " << n << "\n";
        if (alt)
            trace += o.str();
    }
    return alt;
}

void Chooser::step(uint64_t fp)
{
    ++d_steps;
    ++g_localTrans;
    if (g_sh)
        addState(fp);
}

void Chooser::log(const std::string &line)
{
    if (d_verbose)
        trace += line + "\n";
}

void Chooser::violate(const char *prop, const std::string &key, const std::string &msg)
{
    if (g_sh)
        recordViolation(prop, key, msg, task);
    if (d_verbose)
        trace += std::string("*** VIOLATION ") + prop + " " + key + ": " + msg + "\n";
    throw EndExecution();
}

void Chooser::outcome(const std::string &name)
{
    auto &o = g_localOut[name];
    if (o.first++ == 0)
        o.second = task;
}

std::string hex(const std::string &s, size_t max)
{
    static const char *d = "0123456789abcdef";
    std::string        r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        r += d[(unsigned char)s[i] >> 4];
        r += d[s[i] & 15];
    }
    if (s.size() > max)
        r += "...(" + std::to_string(s.size()) + ")";
    return r;
}

std::string jsonEscape(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r;
}

int harnessMain(int argc, char **argv, const ScenarioFactory &factory)
{
    std::string tier = "quick", out = ".", replay, known;
    int         jobs = 8;
    double      dl   = 100;
    bool        list = false;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto        v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") g_prop = v();
        else if (a == "--tier") tier = v();
        else if (a == "--out") out = v();
        else if (a == "--jobs") jobs = std::stoi(v());
        else if (a == "--deadline") dl = std::stod(v());
        else if (a == "--known") known = v();
        else if (a == "--replay") replay = v();
        else if (a == "--list") list = true;
        else if (a == "--only") only = v();
        else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    double start = wallNow();

    if (!replay.empty()) {
        std::string scen, prop = g_prop;
        Task        t;
        memset(&t, 0, sizeof t);
        if (!parseTask(replay, &scen, &t, &prop, &tier))
            return 2;
        g_prop   = prop;
        auto all = factory(prop, tier);
        for (size_t i = 0; i < all.size(); ++i) {
            if (all[i].name == scen) {
                t.scen = i;
                Chooser c;
                armCpuTimer(60);
                alarm(60);
                runOne(all, t, c, true);
                std::cout << c.trace;
                return c.trace.find("*** VIOLATION " + prop) != std::string::npos ? 1 : 0;
            }
        }
        fprintf(stderr, "no such scenario: %s\n", scen.c_str());
        return 2;
    }

    auto sc = factory(g_prop, tier);
    if (!only.empty()) {
        std::vector<Scenario> f;
        for (auto &s : sc)
            if (s.name.find(only) != std::string::npos)
                f.push_back(s);
        sc = f;
    }
    if (list) {
        for (auto &s : sc)
            std::cout << s.name << "\n";
        return 0;
    }
    if (sc.empty() || sc.size() > MAXSCEN) {
        fprintf(stderr, "no scenarios (or too many) for %s: %zu\n", g_prop.c_str(), sc.size());
        return 2;
    }
    if (!known.empty()) {
        std::ifstream f(known);
        std::string   line;
        while (std::getline(f, line))
            if (!line.empty())
                g_known.insert(line);
    }
    jobs = std::max(1, std::min<int>(jobs, MAXW));
    g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_sh == MAP_FAILED)
        return 2;
    pthread_mutexattr_t at;
    pthread_mutexattr_init(&at);
    pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
    pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST);
    pthread_mutex_init(&g_sh->mu, &at);
    if (sc.size() > QCAP)
        return 2;
    for (size_t i = 0; i < sc.size(); ++i) {
        Task t;
        memset(&t, 0, sizeof t);
        t.scen           = i;
        g_sh->queue[i]   = t;
        g_sh->qcount++;
    }
    g_sh->active = jobs;
    for (size_t i = 1; i < out.size(); ++i)
        if (out[i] == '/')
            mkdir(out.substr(0, i).c_str(), 0755);
    mkdir(out.c_str(), 0755);
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < jobs; ++w) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            std::string ef = out + "/worker" + std::to_string(w) + ".err";
            int         fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            dup2(fd, 1);
            // A runaway allocation in the code under test must not take the
            // machine down with it.
            worker(w, sc, start + dl);
            _exit(0);
        }
        pids.push_back(p);
    }
    bool              crashed = false;
    int               left    = jobs;
    std::vector<bool> blocked(jobs);
    while (left > 0) {
        int   st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p < 0)
            break;
        if (p == 0) {
            usleep(2000);
            for (int w = 0; w < jobs; ++w)
                if (g_sh->inRun[w].load() && !blocked[w] && wallNow() - g_sh->runStart[w].load() > 60) {
                    blocked[w] = true;
                    kill(pids[w], SIGKILL);
                }
            continue;
        }
        for (int w = 0; w < jobs; ++w) {
            if (pids[w] != p)
                continue;
            --left;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                crashed = true;
                std::string   err;
                std::ifstream f(out + "/worker" + std::to_string(w) + ".err");
                std::string   l;
                int           n = 0;
                std::string   head;
                while (std::getline(f, l)) {
                    if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("SUMMARY") != std::string::npos ||
                        l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos ||
                        (l.find("#") != std::string::npos && l.find("libamqpprox/") != std::string::npos && n < 4)) {
                        err += l + " | ";
                        ++n;
                    }
                }
                std::ostringstream m;
                std::string        key;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
                    key = "hang";
                    m << "an execution used 30 CPU seconds without ending";
                }
                else if (blocked[w]) {
                    key = "blocked";
                    m << "an execution did not end within 60 seconds";
                }
                else {
                    key = "crash";
                    m << "the process died (" << (WIFSIGNALED(st) ? "signal " : "exit ")
                      << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ") " << err;
                }
                if (g_sh->inRun[w].load())
                    recordViolation(g_prop.c_str(), key, m.str(), g_sh->current[w]);
                else {
                    snprintf(g_sh->error, sizeof g_sh->error, "worker died outside a run: %s", m.str().c_str());
                    g_sh->stop.store(3);
                }
                g_sh->stop.store(2);
            }
        }
    }
    int stop = g_sh->stop.load();
    std::ofstream r(out + "/result.json");
    r << "{\n \"property\": \"" << g_prop << "\", \"tier\": \"" << tier << "\",\n";
    r << " \"executions\": " << g_sh->execs << ", \"transitions\": " << g_sh->transitions << ", \"states\": " << g_sh->states
      << ", \"scenarios\": " << sc.size() << ",\n \"exhaustive\": " << (stop == 0 ? "true" : "false") << ", \"stop\": " << stop
      << ", \"max_branch_points\": " << g_sh->maxPoints << ", \"wall_s\": " << wallNow() - start << ",\n \"error\": \""
      << jsonEscape(g_sh->error) << "\",\n \"executions_by_deviations\": [";
    for (int i = 0; i < 8; ++i)
        r << (i ? "," : "") << g_sh->devExecs[i];
    r << "],\n \"per_scenario\": {";
    for (size_t i = 0; i < sc.size(); ++i)
        r << (i ? ",\n  " : "\n  ") << "\"" << jsonEscape(sc[i].name) << "\": " << g_sh->scenExecs[i];
    r << "},\n \"outcomes\": [";
    for (int i = 0; i < g_sh->nout; ++i)
        r << (i ? ",\n  " : "\n  ") << "{\"outcome\": \"" << jsonEscape(g_sh->out[i].name) << "\", \"executions\": " << g_sh->out[i].count
          << ", \"example\": \"" << jsonEscape(taskStr(sc, g_sh->out[i].task)) << "\"}";
    r << "],\n \"violations\": [";
    for (int i = 0; i < g_sh->nviol; ++i) {
        Viol &v = g_sh->viol[i];
        r << (i ? ",\n  " : "\n  ") << "{\"property\": \"" << v.prop << "\", \"key\": \"" << jsonEscape(v.key) << "\", \"count\": " << v.count
          << ", \"message\": \"" << jsonEscape(v.msg) << "\", \"scenario\": \"" << jsonEscape(sc[v.task.scen].name) << "\", \"choices\": \"";
        for (int k = 0; k < v.task.n; ++k)
            r << (k ? " " : "") << v.task.pos[k] << ":" << v.task.alt[k];
        r << "\"}";
    }
    r << "]\n}\n";
    r.close();
    return stop == 3 ? 2 : 0;
}

}
