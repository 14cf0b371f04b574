// Shared input/output of the harnesses: whitespace tokens on stdin, one JSON value a line on $HOUT.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace hio {

inline FILE* out()
{
    static FILE* f = [] {
        const char* p = std::getenv("HOUT");
        FILE* r = p ? std::fopen(p, "w") : stdout;
        if (!r)
            std::exit(3);
        return r;
    }();
    return f;
}

inline void emit(const std::string& json)
{
    std::fputs(json.c_str(), out());
    std::fputc('\n', out());
    std::fflush(out());
}

inline long rd()
{
    long v;
    if (!(std::cin >> v))
    {
        std::cerr << "harness: bad input\n";
        std::exit(3);
    }
    return v;
}
inline double rdd()
{
    double v;
    if (!(std::cin >> v))
        std::exit(3);
    return v;
}
inline std::string rds()
{
    std::string s;
    std::cin >> s;
    return s;
}
inline std::vector<long> rdv()
{
    std::vector<long> r(rd());
    for (auto& x: r)
        x = rd();
    return r;
}
inline std::set<long> rdset()
{
    const auto v = rdv();
    return std::set<long>(v.begin(), v.end());
}
inline std::vector<std::vector<long>> rdvv()
{
    std::vector<std::vector<long>> r(rd());
    for (auto& x: r)
        x = rdv();
    return r;
}

template<class C> std::string arr(const C& c)
{
    std::ostringstream o;
    o << "[";
    bool first = true;
    for (const auto& x: c)
    {
        if (!first)
            o << ",";
        first = false;
        o << x;
    }
    o << "]";
    return o.str();
}

} // namespace hio
