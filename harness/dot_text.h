// Included before the DOT exporter and importer: a number that depends on symbolic inputs is
// written as a unique sequence of digits, which is read back as that number (with the range checks
// of the conversion used). Everything else (format, regular expressions, files) is real.
#pragma once
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <regex>
#include <stdexcept>
#include <string>
#include "vp.h"
namespace vpt {
    // value as the 128-bit number it is: negative or not, and 64 bits
    struct Num {
        bool sign;
        uint64_t v;
    };
    std::string token(bool sign, uint64_t v);
    bool find(const std::string& s, Num& n);
    void write(FILE* f, const std::string& s);
    template <typename T> std::string str(const char* conv, T v)
    {
        char b[512];
        if constexpr (std::is_integral_v<T>) {
            std::string c = conv;
            bool l = c.find('l') != std::string::npos || c.find('j') != std::string::npos || c.find('z') != std::string::npos;
            char k = c.back();
            if (vp_is_symbolic((uint64_t)v) && (k == 'd' || k == 'i' || k == 'u') && c.find_first_of("0123456789.h") == std::string::npos) {
                if (k == 'u') return token(false, l ? (uint64_t)v : (uint64_t)(uint32_t)v);
                return token(true, l ? (uint64_t)v : (uint64_t)(int64_t)(int32_t)v);
            }
        }
        if constexpr (std::is_convertible_v<T, const char*>) {
            if (!strcmp(conv, "%s")) return v;
        }
        int n = snprintf(b, sizeof b, conv, v);
        return std::string(b, n);
    }
    inline void format(std::string& out, const char*& f)
    {
        while (*f) {
            if (*f == '%') {
                if (f[1] != '%') return;
                f++;
            }
            out += *f++;
        }
    }
    inline void add(std::string& out, const char*& f) { format(out, f); }
    template <typename T, typename... R> void add(std::string& out, const char*& f, T v, R... r)
    {
        format(out, f);
        std::string c;
        if (*f) {
            c += *f++;
            while (*f && !strchr("diuoxXfFeEgGaAcspn", *f)) c += *f++;
            if (*f) c += *f++;
        }
        out += str(c.c_str(), v);
        add(out, f, r...);
    }
    template <typename... R> int print(FILE* file, const char* f, R... r)
    {
        std::string s;
        add(s, f, r...);
        write(file, s);
        return (int)s.size();
    }
    template <typename T> T number(const std::string& s, size_t* pos, int base, T (*real)(const std::string&, size_t*, int))
    {
        Num n;
        if (base == 10 && !pos && find(s, n)) {
            bool neg = n.sign && (int64_t)n.v < 0;
            bool fits = std::is_signed_v<T> ? (neg ? (int64_t)n.v >= (int64_t)std::numeric_limits<T>::min() : n.v <= (uint64_t)std::numeric_limits<T>::max())
                                            : neg || n.v <= (uint64_t)std::numeric_limits<T>::max();
            if (!fits) throw std::out_of_range("vp number");
            return (T)n.v;
        }
        return real(s, pos, base);
    }
} // namespace vpt
namespace std {
    template <typename T> string vp_to_string(T v)
    {
        if constexpr (std::is_integral_v<T>)
            if (vp_is_symbolic((uint64_t)v)) return vpt::token(std::is_signed_v<T>, std::is_signed_v<T> ? (uint64_t)(int64_t)v : (uint64_t)v);
        return to_string(v);
    }
    inline int vp_stoi(const string& s, size_t* p = nullptr, int b = 10) { return vpt::number<int>(s, p, b, [](const string& s, size_t* p, int b) { return stoi(s, p, b); }); }
    inline long vp_stol(const string& s, size_t* p = nullptr, int b = 10) { return vpt::number<long>(s, p, b, [](const string& s, size_t* p, int b) { return stol(s, p, b); }); }
    inline long long vp_stoll(const string& s, size_t* p = nullptr, int b = 10) { return vpt::number<long long>(s, p, b, [](const string& s, size_t* p, int b) { return stoll(s, p, b); }); }
    inline unsigned long vp_stoul(const string& s, size_t* p = nullptr, int b = 10) { return vpt::number<unsigned long>(s, p, b, [](const string& s, size_t* p, int b) { return stoul(s, p, b); }); }
    inline unsigned long long vp_stoull(const string& s, size_t* p = nullptr, int b = 10) { return vpt::number<unsigned long long>(s, p, b, [](const string& s, size_t* p, int b) { return stoull(s, p, b); }); }
} // namespace std
#define fprintf vpt::print
#define to_string vp_to_string
#define stoi vp_stoi
#define stol vp_stol
#define stoll vp_stoll
#define stoul vp_stoul
#define stoull vp_stoull
