#include "explore.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ctime>
#include <sys/stat.h>

extern "C" char const* __asan_default_options()
{
    return "detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16:allocator_may_return_null=0:handle_abort=0:malloc_context_size=8:allow_user_segv_handler=0:print_legend=0:max_malloc_fill_size=400000:max_allocation_size_mb=2048";
}

namespace mc
{

struct Shared
{
    std::atomic<std::uint64_t> beat;
    std::uint64_t executions, transitions, pruned;
    int scenario;
    int nchoices;
    int choices[4096];
    int violation;          // 1: reported by the scenario
    char what[2048];
    int done;
    int truncated;
    std::uint64_t maxDepth;
    std::uint64_t perScenario[128];
    char known[16][256];
    int nknown;
};

static bool g_thorough = false;
static std::set<std::string> g_known;

std::string hex(std::string const& s)
{
    static char const* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}

bool Run::thorough() const { return g_thorough; }

int Run::choose(int n, char const* label)
{
    if (n <= 0) n = 1;
    if (stopped()) return 0;
    int c = 0;
    if (pos < choices.size()) c = choices[pos];
    else choices.push_back(0);
    if (c >= n) c = n - 1;          // only possible with a stale replay file
    if (arity.size() <= pos) { arity.push_back(n); labels.push_back(label); }
    else { arity[pos] = n; labels[pos] = label; }
    if (sh)
    {
        if (pos < 4096) sh->choices[pos] = c;
        sh->nchoices = pos + 1;
        sh->beat++;
    }
    ++pos;
    ++transitions;
    if (splitAt < 0 && workers > 1)
    {
        prod *= n;
        if (prod >= 64ull * workers)
        {
            splitAt = pos;
            std::vector<int> pre(choices.begin(), choices.begin() + pos);
            if (pre != lastPrefix)
            {
                lastPrefix = pre;
                ++prefixIdx;
            }
            mine = prefixIdx % (long)workers == (long)worker;
            if (!mine) aborting = true;
        }
    }
    if (trace && n > 1) lines.push_back(std::string("choice ") + label + " = " + std::to_string(c) + "/" + std::to_string(n));
    return c;
}

void Run::note(std::string const& s) { if (trace) lines.push_back(s); }
void Run::state(std::uint64_t h) { if (states && states->size() < 8000000) states->insert(h); }
void Run::outcome(std::uint64_t h) { if (!stopped() && outcomes && outcomes->size() < 8000000) outcomes->insert(h); }

void Run::fail(std::string const& what)
{
    if (stopped()) return;
    failed = true;
    failure = what;
    if (trace) lines.push_back("VIOLATION: " + what);
}

void Run::failKnown(std::string const& id, std::string const& what)
{
    if (stopped()) return;
    if (g_known.count(id))
    {
        if (sh)
        {
            for (int i = 0; i < sh->nknown; ++i) if (id == sh->known[i]) return;
            if (sh->nknown < 16) std::snprintf(sh->known[sh->nknown++], 256, "%s", id.c_str());
        }
        return;
    }
    fail(what);
}

static void prepare(Run& r)
{
    r.pos = 0;
    r.prod = 1;
    r.splitAt = -1;
    r.aborting = r.failed = false;
    r.failure.clear();
    r.lines.clear();
    r.mine = true;
}

static double nowS()
{
    timespec t;
    syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void realSleepMs(int ms)
{
    timespec t{ms / 1000, (ms % 1000) * 1000000L};
    syscall(35 /*nanosleep*/, &t, nullptr);
}

static void worker(std::vector<Scenario> const& sc, Shared* sh, unsigned me, unsigned n, double deadline, std::string const& statesFile)
{
    std::unordered_set<std::uint64_t> states, outcomes;
    for (std::size_t s = 0; s < sc.size(); ++s)
    {
        sh->scenario = s;
        Run r;
        r.sh = sh;
        r.worker = me;
        r.workers = n;
        r.states = &states;
        r.outcomes = &outcomes;
        long shortIdx = -1;
        for (;;)
        {
            prepare(r);
            sh->nchoices = 0;
            sh->beat++;
            sc[s].fn(r);
            bool count = r.mine && !r.aborting;
            if (r.splitAt < 0)
            {
                // short execution: belongs to one worker only, for counting
                ++shortIdx;
                count = shortIdx % (long)n == (long)me;
            }
            if (r.failed)
            {
                std::snprintf(sh->what, sizeof sh->what, "%s", r.failure.c_str());
                sh->violation = 1;
                _exit(42);
            }
            if (count)
            {
                sh->executions++;
                sh->transitions += r.transitions;
                if (s < 128) sh->perScenario[s]++;
                if (r.pos > sh->maxDepth) sh->maxDepth = r.pos;
            }
            else sh->pruned++;
            r.transitions = 0;
            // backtrack
            std::size_t len = r.aborting && r.splitAt >= 0 ? r.splitAt : r.pos;
            r.choices.resize(len);
            r.arity.resize(len);
            r.labels.resize(len);
            while (!r.choices.empty() && r.choices.back() + 1 >= r.arity.back())
            {
                r.choices.pop_back();
                r.arity.pop_back();
                r.labels.pop_back();
            }
            if (r.choices.empty()) break;
            r.choices.back()++;
            if (nowS() > deadline) { sh->truncated = 1; break; }
        }
        if (sh->truncated) break;
    }
    {
        std::ofstream f(statesFile, std::ios::binary);
        std::uint64_t a = states.size(), b = outcomes.size();
        f.write((char*)&a, 8);
        for (auto v : states) f.write((char*)&v, 8);
        f.write((char*)&b, 8);
        for (auto v : outcomes) f.write((char*)&v, 8);
    }
    sh->done = 1;
    _exit(0);
}

static std::string jsonStr(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::string readFile(std::string const& p, std::size_t max = 20000)
{
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    auto s = ss.str();
    if (s.size() > max) s.resize(max);
    return s;
}

static int replayOne(std::vector<Scenario> const& sc, std::string const& name, std::vector<int> const& ch)
{
    for (auto& s : sc)
        if (s.name == name)
        {
            Run r;
            r.trace = true;
            prepare(r);
            r.choices = ch;
            s.fn(r);
            for (auto& l : r.lines) std::fprintf(stderr, "%s\n", l.c_str());
            return r.failed ? 1 : 0;
        }
    return 2;
}

int main(int argc, char** argv, Provider prov)
{
    std::string prop, tier = "quick", out, dir = ".", replay, known, only;
    unsigned jobs = 8;
    double budget = 600, hang = 120;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v;
        else if (a == "--tier") tier = v;
        else if (a == "--out") out = v;
        else if (a == "--replay-dir") dir = v;
        else if (a == "--replay") replay = v;
        else if (a == "--jobs") jobs = std::stoul(v);
        else if (a == "--budget") budget = std::stod(v);
        else if (a == "--known") known = v;
        else if (a == "--only") only = v;
        else if (a == "--hang") hang = std::stod(v);
    }
    g_thorough = tier == "thorough";
    {
        std::stringstream ss(known);
        std::string k;
        while (std::getline(ss, k, ',')) if (!k.empty()) g_known.insert(k);
    }
    auto sc = prov(prop, g_thorough);
    if (!only.empty())
    {
        std::vector<Scenario> f;
        for (auto& s : sc) if (s.name == only) f.push_back(s);
        sc = f;
    }
    if (sc.empty()) { std::fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }

    // the code under test logs to stdout: keep it off our stdout
    int realOut = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);

    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string line, name;
        std::vector<int> ch;
        while (std::getline(f, line))
        {
            if (line.rfind("scenario: ", 0) == 0) name = line.substr(10);
            if (line.rfind("choices:", 0) == 0)
            {
                std::stringstream ss(line.substr(8));
                int c;
                while (ss >> c) ch.push_back(c);
            }
        }
        // replay runs with the thorough flag it was found with
        return replayOne(sc, name, ch);
    }

    std::vector<Shared*> sh(jobs);
    std::vector<pid_t> pid(jobs);
    std::vector<std::uint64_t> beat(jobs);
    std::vector<double> beatAt(jobs, nowS());
    double const start = nowS();
    std::string base = dir + "/" + prop;
    for (unsigned i = 0; i < jobs; ++i)
    {
        sh[i] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::memset((void*)sh[i], 0, sizeof(Shared));
    }
    for (unsigned i = 0; i < jobs; ++i)
    {
        pid[i] = fork();
        if (pid[i] == 0)
        {
            int e = open((base + ".w" + std::to_string(i) + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 2);
            dup2(open("/dev/null", O_WRONLY), 1);
            setvbuf(stderr, nullptr, _IONBF, 0);
            worker(sc, sh[i], i, jobs, start + budget, base + ".w" + std::to_string(i) + ".states");
        }
    }
    unsigned left = jobs;
    std::vector<int> alive(jobs, 1);
    int bad = -1;
    std::string why;
    while (left && bad < 0)
    {
        for (unsigned i = 0; i < jobs && bad < 0; ++i)
        {
            if (!alive[i]) continue;
            int st;
            pid_t r = waitpid(pid[i], &st, WNOHANG);
            if (r == pid[i])
            {
                alive[i] = 0;
                --left;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { bad = i; why = sh[i]->what; }
                else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[i]->done))
                {
                    bad = i;
                    why = WIFSIGNALED(st) ? "the process was killed by signal " + std::to_string(WTERMSIG(st)) : "the process died (exit " + std::to_string(WEXITSTATUS(st)) + "): memory error or uncaught exception";
                }
                continue;
            }
            std::uint64_t b = sh[i]->beat;
            if (b != beat[i]) { beat[i] = b; beatAt[i] = nowS(); }
            else if (nowS() - beatAt[i] > hang)
            {
                kill(pid[i], SIGKILL);
                waitpid(pid[i], &st, 0);
                alive[i] = 0;
                --left;
                bad = i;
                why = "the execution does not terminate";
            }
        }
        if (bad < 0) realSleepMs(5);
    }
    if (bad >= 0)
        for (unsigned i = 0; i < jobs; ++i)
            if (alive[i]) { kill(pid[i], SIGKILL); int st; waitpid(pid[i], &st, 0); }

    std::uint64_t ex = 0, tr = 0, depth = 0;
    bool trunc = false;
    std::vector<std::uint64_t> per(sc.size());
    std::set<std::string> knownSeen;
    std::unordered_set<std::uint64_t> states, outcomes;
    for (unsigned i = 0; i < jobs; ++i)
    {
        ex += sh[i]->executions;
        tr += sh[i]->transitions;
        depth = std::max(depth, sh[i]->maxDepth);
        trunc |= sh[i]->truncated;
        for (std::size_t s = 0; s < sc.size() && s < 128; ++s) per[s] += sh[i]->perScenario[s];
        for (int k = 0; k < sh[i]->nknown; ++k) knownSeen.insert(sh[i]->known[k]);
        std::string sf = base + ".w" + std::to_string(i) + ".states";
        std::ifstream f(sf, std::ios::binary);
        std::uint64_t a = 0, v;
        if (f.read((char*)&a, 8)) for (; a; --a) { f.read((char*)&v, 8); states.insert(v); }
        if (f.read((char*)&a, 8)) for (; a; --a) { f.read((char*)&v, 8); outcomes.insert(v); }
        unlink(sf.c_str());
    }
    std::string rp, confirmed = "n/a";
    int rc = 0;
    if (bad >= 0)
    {
        rc = 1;
        rp = base + ".replay";
        std::ofstream f(rp);
        f << "property: " << prop << "\ntier: " << tier << "\nscenario: " << sc[sh[bad]->scenario].name << "\nbound: " << sc[sh[bad]->scenario].bound << "\nwhat: " << why << "\nchoices:";
        for (int i = 0; i < sh[bad]->nchoices && i < 4096; ++i) f << " " << sh[bad]->choices[i];
        f << "\n";
        f.close();
        // replay in a child before reporting
        pid_t p = fork();
        if (p == 0)
        {
            int e = open((base + ".replay.log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 2);
            std::vector<int> ch(sh[bad]->choices, sh[bad]->choices + std::min(sh[bad]->nchoices, 4096));
            alarm((unsigned)hang);
            _exit(replayOne(sc, sc[sh[bad]->scenario].name, ch));
        }
        int st = 0;
        waitpid(p, &st, 0);
        bool again = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 2));
        confirmed = again ? "yes" : "no";
        std::ofstream g(rp, std::ios::app);
        g << "confirmed: " << confirmed << "\n--- trace of the replay ---\n" << readFile(base + ".replay.log") << "\n--- log of the finding worker ---\n" << readFile(base + ".w" + std::to_string(bad) + ".log", 12000) << "\n";
        if (!again) rc = 3;
    }
    for (unsigned i = 0; i < jobs; ++i) unlink((base + ".w" + std::to_string(i) + ".log").c_str());
    unlink((base + ".replay.log").c_str());
    std::ofstream o(out);
    o << "{\n \"executions\": " << ex << ",\n \"transitions\": " << tr << ",\n \"states\": " << states.size() << ",\n \"outcomes\": " << outcomes.size()
      << ",\n \"max_depth\": " << depth << ",\n \"truncated\": " << (trunc ? "true" : "false") << ",\n \"violation\": " << (bad >= 0 ? jsonStr(why) : "null")
      << ",\n \"replay\": " << jsonStr(rp) << ",\n \"confirmed\": " << jsonStr(confirmed) << ",\n \"wall_s\": " << nowS() - start << ",\n \"known\": [";
    bool first = true;
    for (auto& k : knownSeen) { o << (first ? "" : ", ") << jsonStr(k); first = false; }
    o << "],\n \"scenarios\": [";
    for (std::size_t s = 0; s < sc.size(); ++s)
        o << (s ? ",\n  " : "\n  ") << "{\"name\": " << jsonStr(sc[s].name) << ", \"bound\": " << jsonStr(sc[s].bound) << ", \"executions\": " << per[s] << "}";
    o << "\n ],\n \"samples\": [";
    // sample executions: replay the first and a late one of each of the first scenarios, with trace, in a child (through a file)
    first = true;
    if (bad < 0)
        for (std::size_t s = 0; s < sc.size() && s < 3; ++s)
        {
            std::string tf = base + ".sample";
            pid_t p = fork();
            if (p == 0)
            {
                Run r;
                r.trace = true;
                prepare(r);
                sc[s].fn(r);
                // second sample: flip the last choices to their last alternatives
                std::vector<int> ch = r.choices;
                for (std::size_t i = ch.size() / 2; i < ch.size() && i < r.arity.size(); ++i) ch[i] = r.arity[i] - 1;
                Run q;
                q.trace = true;
                prepare(q);
                q.choices = ch;
                sc[s].fn(q);
                std::ofstream t(tf);
                int n = 0;
                for (auto& l : q.lines) if (n++ < 40) t << l << "\n";
                t.close();
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            std::stringstream ss(readFile(tf, 6000));
            unlink(tf.c_str());
            o << (first ? "" : ",") << "\n  {\"scenario\": " << jsonStr(sc[s].name) << ", \"trace\": [";
            first = false;
            std::string l;
            bool f2 = true;
            while (std::getline(ss, l)) { o << (f2 ? "" : ", ") << jsonStr(l); f2 = false; }
            o << "]}";
        }
    o << "\n ]\n}\n";
    o.close();
    dprintf(realOut, "%s executions=%llu transitions=%llu states=%zu outcomes=%zu depth=%llu truncated=%d wall=%.1fs%s%s\n", prop.c_str(), (unsigned long long)ex,
        (unsigned long long)tr, states.size(), outcomes.size(), (unsigned long long)depth, trunc, nowS() - start, bad >= 0 ? " VIOLATION: " : "", why.c_str());
    return rc;
}

} // namespace mc
