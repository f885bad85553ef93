// Stand-in for tree-gen's CBOR support: enough of a writer and reader for the serialisers of this repository.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tree::cbor {

inline void put_head(std::string& o, int major, uint64_t v) {
    auto m = static_cast<char>(major << 5);
    if (v < 24) { o += static_cast<char>(m | static_cast<char>(v)); return; }
    int n = v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ull ? 4 : 8;
    o += static_cast<char>(m | static_cast<char>(n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27));
    for (int i = n - 1; i >= 0; --i) o += static_cast<char>(v >> (8 * i));
}
inline void put_int(std::string& o, int64_t v) { if (v >= 0) put_head(o, 0, static_cast<uint64_t>(v)); else put_head(o, 1, static_cast<uint64_t>(~v)); }
inline void put_bytes(std::string& o, int major, const std::string& s) { put_head(o, major, s.size()); o += s; }
inline void put_float(std::string& o, double d) { uint64_t b; std::memcpy(&b, &d, 8); o += static_cast<char>(0xFB); for (int i = 7; i >= 0; --i) o += static_cast<char>(b >> (8 * i)); }

class ArrayWriter {
    std::string* out_;
public:
    explicit ArrayWriter(std::string& o) : out_(&o) { o += static_cast<char>(0x9F); }
    void append_int(int64_t v) { put_int(*out_, v); }
    void append_float(double v) { put_float(*out_, v); }
    void append_bool(bool v) { *out_ += static_cast<char>(v ? 0xF5 : 0xF4); }
    void append_string(const std::string& v) { put_bytes(*out_, 3, v); }
    void append_binary(const std::string& v) { put_bytes(*out_, 2, v); }
    class MapWriter append_map();
    std::string& raw() { return *out_; }
    void close() { *out_ += static_cast<char>(0xFF); }
};
class MapWriter {
    std::string* out_;
    void key(const std::string& k) { put_bytes(*out_, 3, k); }
public:
    explicit MapWriter(std::string& o) : out_(&o) { o += static_cast<char>(0xBF); }
    void append_null(const std::string& k) { key(k); *out_ += static_cast<char>(0xF6); }
    void append_int(const std::string& k, int64_t v) { key(k); put_int(*out_, v); }
    void append_float(const std::string& k, double v) { key(k); put_float(*out_, v); }
    void append_bool(const std::string& k, bool v) { key(k); *out_ += static_cast<char>(v ? 0xF5 : 0xF4); }
    void append_string(const std::string& k, const std::string& v) { key(k); put_bytes(*out_, 3, v); }
    void append_binary(const std::string& k, const std::string& v) { key(k); put_bytes(*out_, 2, v); }
    ArrayWriter append_array(const std::string& k) { key(k); return ArrayWriter(*out_); }
    MapWriter append_map(const std::string& k) { key(k); return MapWriter(*out_); }
    void close() { *out_ += static_cast<char>(0xFF); }
};
inline MapWriter ArrayWriter::append_map() { return MapWriter(*out_); }

class ArrayReader;
class MapReader;
class Reader {
public:
    int major = 7; int64_t i = 0; double d = 0; bool b = false; std::string s;
    std::vector<Reader> arr; std::map<std::string, Reader> map;
    static Reader parse(const std::string& t) { size_t p = 0; return parse(t, p); }
    static uint8_t at(const std::string& t, size_t p) { if (p >= t.size()) throw std::runtime_error("invalid CBOR: truncated"); return static_cast<uint8_t>(t[p]); }
    static Reader parse(const std::string& t, size_t& p) {
        Reader r; uint8_t h = at(t, p++); r.major = h >> 5; int low = h & 31; uint64_t v = static_cast<uint64_t>(low);
        bool indef = low == 31;
        if (r.major == 7) {
            if (h == 0xF4 || h == 0xF5) { r.b = h == 0xF5; return r; }
            if (h == 0xF6) return r;
            if (h == 0xFB) { uint64_t b = 0; for (int k = 0; k < 8; ++k) b = b << 8 | at(t, p++); std::memcpy(&r.d, &b, 8); return r; }
            throw std::runtime_error("invalid CBOR: unsupported value");
        }
        if (!indef && low >= 24) { int n = 1 << (low - 24); v = 0; for (int k = 0; k < n; ++k) v = v << 8 | at(t, p++); }
        if (r.major == 0) r.i = static_cast<int64_t>(v);
        else if (r.major == 1) r.i = ~static_cast<int64_t>(v);
        else if (r.major == 2 || r.major == 3) { if (v > t.size() - p) throw std::runtime_error("invalid CBOR: truncated"); r.s = t.substr(p, v); p += v; }
        else if (r.major == 4) { while (at(t, p) != 0xFF) r.arr.push_back(parse(t, p)); ++p; }
        else if (r.major == 5) { while (at(t, p) != 0xFF) { auto k = parse(t, p); r.map[k.s] = parse(t, p); } ++p; }
        return r;
    }
    bool is_null() const { return major == 7; }
    int64_t as_int() const { return i; }
    double as_float() const { return d; }
    bool as_bool() const { return b; }
    const std::string& as_string() const { return s; }
    const std::string& as_binary() const { return s; }
    ArrayReader as_array() const;
    MapReader as_map() const;
};
class ArrayReader : public std::vector<Reader> { public: explicit ArrayReader(const std::vector<Reader>& a) : std::vector<Reader>(a) {} };
class MapReader {
    std::map<std::string, Reader> m_;
public:
    explicit MapReader(const std::map<std::string, Reader>& m) : m_(m) {}
    size_t count(const std::string& k) const { return m_.count(k); }
    const Reader& at(const std::string& k) const { return m_.at(k); }
};
inline ArrayReader Reader::as_array() const { return ArrayReader(arr); }
inline MapReader Reader::as_map() const { return MapReader(map); }

}  // namespace tree::cbor
