// Results of the real code as integers: value * scale, rounded; `off` tells how far the values were from integers (1e-6).
#pragma once
#include "hio.hpp"
#include <cmath>
#include <string>

namespace hscale {
struct Out
{
    std::string s = "{";
    double off = 0;
    long r(const double v, const double scale)
    {
        const double x = v * scale;
        if (not std::isfinite(x) or std::abs(x) > 2.0e9)
            return 2000000001L;
        const double n = std::round(x);
        off = std::max(off, std::abs(x - n) / std::max(1.0, std::abs(n) * 1e-6));
        return static_cast<long>(n);
    }
    void key(const std::string& k) { s += (s.size() > 1 ? ",\"" : "\"") + k + "\":"; }
    void num(const std::string& k, const double v, const double scale) { key(k), s += std::to_string(r(v, scale)); }
    void flag(const std::string& k, const bool b) { key(k), s += b ? "1" : "0"; }
    template<class V> void vec(const std::string& k, const V& v, const double scale)
    {
        key(k);
        s += "[";
        for (int i = 0; i < v.size(); ++i)
            s += (i ? "," : "") + std::to_string(r(v(i), scale));
        s += "]";
    }
    template<class M> void mat(const std::string& k, const M& m, const double scale)
    {
        key(k);
        s += "[";
        for (int i = 0; i < m.rows(); ++i)
        {
            s += i ? ",[" : "[";
            for (int j = 0; j < m.cols(); ++j)
                s += (j ? "," : "") + std::to_string(r(m(i, j), scale));
            s += "]";
        }
        s += "]";
    }
    void done() { hio::emit(s + (s.size() > 1 ? "," : "") + "\"off\":" + std::to_string(std::lround(std::min(off, 1.0) * 1e6)) + "}"); }
};
} // namespace hscale
