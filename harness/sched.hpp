// Deterministic execution of OpenMP regions: every thread of a team is a
// fiber, and every access to memory which some thread of the team writes is a
// point at which another fiber may continue.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched
{
enum Mode
{
    OFF,          // teams of one thread
    RANDOM,       // continue with another thread with a probability
    PREEMPT,      // switch at given points only
    PRIORITY,     // highest priority runs, priorities drop at given points
    SEQUENCE,     // given thread numbers, one per point
    ROTATE        // switch at every point
};
struct Plan
{
    Mode mode = OFF;
    int threads = 1;
    uint64_t seed = 1;
    double probability = 0.1;
    std::vector<std::pair<long, int>> points;   // PREEMPT: point, thread; PRIORITY: point, ignored
    std::vector<int> sequence;
    int first = 0;                              // PREEMPT: thread that starts
};
void start(const Plan& plan);
// Number of points passed since start.
long stop();
// Forgets which memory is shared; it is found out again by the first run.
void forget();
// Runs team functions directly on the given number of fibers.
void team(int threads, void (*body)(void*), void* data);
// Runs body on n fibers in any case (one after another if no plan is given).
void items(int n, void (*body)(void*), void* data);
// Within a team: another fiber may continue here; not before the condition.
void step();
void pause(std::function<bool()> until);
// Every access of a fiber which is not to its stack has to be accepted.
extern bool (*allowed)(uintptr_t address, bool write);
int self();
std::string describe(const Plan& plan);
}
