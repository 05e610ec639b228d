// A model of message passing: MPI functions over ranks that are threads of one
// process, run one at a time. Everything that the MPI standard leaves open is a
// choice, and all choices are explored: which rank goes on, when a message
// becomes visible, which of several messages a wildcard matches, whether a send
// is buffered, when the data of a pending operation move, and whether an
// operation that is being cancelled is still carried out.
#pragma once
#include "vf.hpp"
#include <functional>

namespace mpimodel
{
struct outcome { std::string bad; bool deadlock = false; long unreceived = 0, calls = 0; };
struct totals { long executions = 0, calls = 0; bool capped = false; };

// Runs body(rank) on n ranks under every sequence of choices; after each
// execution calls check(outcome), which may throw. Returns what was explored.
totals explore(int n, const std::function<void(int)>& body, const std::function<void(const outcome&)>& check, long limit=200000);
}
