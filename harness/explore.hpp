// Stateless exhaustive exploration: every nondeterministic decision of an execution goes through Run::choose(); the
// explorer enumerates all decision sequences depth first, in parallel worker processes, re-executing the real code from
// its initial state for each.  A worker that crashes or hangs leaves its decision sequence in shared memory.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <unordered_set>

namespace mc
{

struct Shared;

class Run
{
public:
    // pick one of n alternatives
    int choose(int n, char const* label = "");
    // trace line (only kept in replay mode)
    void note(std::string const&);
    bool tracing() const { return trace; }
    // an abstract state was reached / a transition was taken
    void state(std::uint64_t h);
    void step() { ++transitions; }
    // true when this execution belongs to another worker or has already failed
    bool stopped() const { return aborting || failed; }
    void fail(std::string const& what);
    // like fail(), unless `id` is listed as a known finding
    void failKnown(std::string const& id, std::string const& what);
    void outcome(std::uint64_t h);
    bool thorough() const;
    bool hasFailed() const { return failed; }

    std::vector<int> choices, arity;
    std::vector<std::string> labels;
    std::vector<std::string> lines;
    std::string failure;
    bool aborting = false, failed = false, trace = false;
    std::size_t pos = 0;
    std::uint64_t transitions = 0;
    std::uint64_t prod = 1;
    long splitAt = -1;
    unsigned worker = 0, workers = 1;
    std::vector<int> lastPrefix;
    long prefixIdx = -1;
    bool mine = true;
    Shared* sh = nullptr;
    std::unordered_set<std::uint64_t>* states = nullptr;
    std::unordered_set<std::uint64_t>* outcomes = nullptr;
};

struct Scenario
{
    std::string name;       // short
    std::string bound;      // human readable alphabet and bound
    std::function<void(Run&)> fn;
};

using Provider = std::function<std::vector<Scenario>(std::string const& prop, bool thorough)>;

// main(): --prop C01 --tier quick --out r.json --replay-dir dir [--replay file] [--jobs N] [--known id,id]
int main(int argc, char** argv, Provider);

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
inline std::uint64_t mixs(std::uint64_t h, std::string const& s)
{
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return mix(h, s.size());
}
std::string hex(std::string const&);

} // namespace mc
