// Stand-in for TBB's parallel loops: the iterations are handed to the harness, which decides how they interleave.
#pragma once
#include <concepts>
#include <functional>
#include <tbb/blocked_range.h>
#include <tbb/partitioner.h>
namespace hsched {
void run_parallel(long n, const std::function<void(long)>& body);
}
namespace tbb {
// (a partitioner or a context given after the body is of no interest here)
template<typename Index, typename Function, typename... Rest>
    requires(std::integral<Index> and not std::integral<Function>)
void parallel_for(Index first, Index last, const Function& f, Rest&&...)
{
    hsched::run_parallel(static_cast<long>(last) - static_cast<long>(first),
                         [&](long i) { f(static_cast<Index>(first + static_cast<Index>(i))); });
}
template<typename Index, typename Function, typename... Rest>
    requires(std::integral<Index>)
void parallel_for(Index first, Index last, Index step, const Function& f, Rest&&...)
{
    long n = 0;
    for (Index i = first; i < last; i += step)
        ++n;
    hsched::run_parallel(n, [&](long i) { f(static_cast<Index>(first + static_cast<Index>(i) * step)); });
}
template<typename Value, typename Body, typename... Rest>
void parallel_for(const blocked_range<Value>& r, const Body& body, Rest&&...)
{
    hsched::run_parallel(static_cast<long>(r.end() - r.begin()), [&](long i) {
        body(blocked_range<Value>(static_cast<Value>(r.begin() + i), static_cast<Value>(r.begin() + i + 1)));
    });
}
} // namespace tbb
