// Shared pieces of the file-format checks.
#pragma once
#include "gen.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>

namespace io
{
    using namespace gen;
    using libnurbs::Curve; using libnurbs::Surface;
    inline bool bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
    inline bool bits(const Dv& a, const Dv& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!bits(a[i], b[i])) return false; return true; }
    inline bool bits(const Vec4& a, const Vec4& b) { for (int i = 0; i < 4; ++i) if (!bits(a[i], b[i])) return false; return true; }
    inline bool bits(const Curve& a, const Curve& b)
    {
        if (a.Degree != b.Degree || !bits(a.Knots.Values(), b.Knots.Values()) || a.ControlPoints.size() != b.ControlPoints.size()) return false;
        for (size_t i = 0; i < a.ControlPoints.size(); ++i) if (!bits(a.ControlPoints[i], b.ControlPoints[i])) return false;
        return true;
    }
    inline bool bits(const Surface& a, const Surface& b)
    {
        if (a.DegreeU != b.DegreeU || a.DegreeV != b.DegreeV || !bits(a.KnotsU.Values(), b.KnotsU.Values()) || !bits(a.KnotsV.Values(), b.KnotsV.Values())) return false;
        if (a.ControlPoints.UCount != b.ControlPoints.UCount || a.ControlPoints.VCount != b.ControlPoints.VCount || a.ControlPoints.Values.size() != b.ControlPoints.Values.size()) return false;
        for (size_t i = 0; i < a.ControlPoints.Values.size(); ++i) if (!bits(a.ControlPoints.Values[i], b.ControlPoints.Values[i])) return false;
        return true;
    }
    inline std::string scratch()
    {
        static std::string d;
        if (d.empty())
        {
            const char* e = getenv("VERIF_SCRATCH");
            std::string base = e && *e ? e : "/tmp";
            d = base + "/io-" + std::to_string(getpid());
            std::filesystem::create_directories(d);
        }
        return d;
    }
    inline std::string hex(const std::string& s, size_t cap = 400)
    {
        std::string r; char b[4];
        for (unsigned char ch : s.substr(0, cap)) { if (ch >= 32 && ch < 127) r += ch; else { snprintf(b, 4, "%02x", ch); r += std::string("\\") + b; } }
        return r;
    }
    // independent encoder of the binary form
    template <class T> void put(std::string& s, T v) { char b[sizeof(T)]; std::memcpy(b, &v, sizeof v); s.append(b, sizeof v); }
    inline void put_knots(std::string& s, const Dv& k) { put<int32_t>(s, (int32_t)k.size()); for (double d : k) put(s, d); }
    inline std::string encode(const Curve& c)
    {
        std::string s = "LIBNURBS BIN CURVE\n";
        put<int32_t>(s, c.Degree); put_knots(s, c.Knots.Values()); put<int32_t>(s, (int32_t)c.ControlPoints.size());
        for (auto& p : c.ControlPoints) for (int i = 0; i < 4; ++i) put(s, p[i]);
        return s;
    }
    inline std::string encode(const Surface& c)
    {
        std::string s = "LIBNURBS BIN SURFACE\n";
        put<int32_t>(s, c.DegreeU); put<int32_t>(s, c.DegreeV); put_knots(s, c.KnotsU.Values()); put_knots(s, c.KnotsV.Values());
        put<int32_t>(s, c.ControlPoints.UCount); put<int32_t>(s, c.ControlPoints.VCount);
        for (auto& p : c.ControlPoints.Values) for (int i = 0; i < 4; ++i) put(s, p[i]);
        return s;
    }
    inline std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
    inline std::string point(const Vec4& p) { return num(p[0]) + " " + num(p[1]) + " " + num(p[2]) + " " + num(p[3]); }
    inline std::string list(const Dv& k) { std::string s; for (size_t i = 0; i < k.size(); ++i) s += (i ? ", " : "") + num(k[i]); return s; }

    inline const Dv& nasty()
    {
        static const Dv v{0.1, -0.0, 1.0 / 3, 1e-300, -1e300, 1e-17, 123456789.12345679, std::nextafter(1.0, 2.0), -3.3e-8, 5e-324 * 0 + 2.2250738585072014e-308, 1.7976931348623157e308, 4503599627370497.5, -1};
        return v;
    }
}
