// Controlled-scheduler runtime: public interface used by harness bodies.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace mcrt
{
    // Called by a harness body when an observation contradicts the property.
    // Ends the current execution with a failure.
    [[noreturn]] void fail(const std::string& what);

    // Adds to the record of what this execution observed (used to count
    // distinct outcomes and to check that replays are deterministic).
    void observe(const std::string& what);

    struct scenario_t
    {
        std::string name;
        std::function<void()> body;   // runs as thread 0
        int bound_quick;              // deviation bound (preemptions + spurious wakeups)
        int bound_thorough;
    };

    int main(int argc, char** argv, const std::vector<scenario_t>& scenarios);
}
