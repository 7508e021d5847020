// V01-V03: exhaustive enumeration of operation sequences, conversions and comparisons of Variant against a reference model.
// var <seq|conv|cmp> <depth or size> <shard> <shards>      prints one JSON line
#include <hsmcpp/variant.hpp>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
using namespace hsmcpp;
typedef Variant::Type T;

struct CA { int x; std::string s; bool operator==(const CA& o) const { return x == o.x && s == o.s; } bool operator>(const CA& o) const { return x > o.x; } };
struct CB { std::string s; bool operator==(const CB& o) const { return s == o.s; } bool operator>(const CB& o) const { return s > o.s; } };
static const char* LONG = "a string which does not fit into the small buffer of std::string";

static std::string gWhere;
static unsigned long long gStates, gTrans, gRuns;
static std::vector<std::string> gSample;
static std::string esc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += char(c); return r; }
static void report(const std::string& viol) {
    printf("{\"states\":%llu,\"transitions\":%llu,\"runs\":%llu,\"sample\":\"%s\",\"violation\":%s%s%s}\n", gStates, gTrans, gRuns, gSample.empty() ? "" : esc(gSample[0]).c_str(), viol.empty() ? "null" : "\"", esc(viol).c_str(), viol.empty() ? "" : "\"");
    fflush(stdout);
}
[[noreturn]] static void fail(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); report(gWhere + ": " + b); _Exit(1); }
extern "C" void __asan_on_error() { printf("{\"asan\":1,\"states\":%llu,\"transitions\":%llu,\"runs\":%llu,\"sample\":\"\",\"violation\":\"%s: invalid memory access (see the output of the sanitizer)\"}\n", gStates, gTrans, gRuns, esc(gWhere).c_str()); fflush(stdout); }

// ------------------------------------------------------------------------------------------------ reference values
struct V {
    T t = T::UNKNOWN; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s; std::vector<V> k; int custom = 0;
    bool operator==(const V& o) const { return t == o.t && i == o.i && u == o.u && (d == o.d || (d != d && o.d != o.d)) && s == o.s && k == o.k && custom == o.custom; }
    bool isSigned() const { return t >= T::BYTE_1 && t <= T::BYTE_8; }
    bool isUnsigned() const { return t >= T::UBYTE_1 && t <= T::UBYTE_8; }
    bool isInt() const { return isSigned() || isUnsigned(); }
    bool isNum() const { return isInt() || t == T::DOUBLE; }
};
static V I(T t, int64_t x) { V v; v.t = t; v.i = x; return v; }
static V U(T t, uint64_t x) { V v; v.t = t; v.u = x; return v; }
static V Dd(double x) { V v; v.t = T::DOUBLE; v.d = x; return v; }
static V Bb(bool x) { V v; v.t = T::BOOL; v.i = x; return v; }
static V S(const std::string& s) { V v; v.t = T::STRING; v.s = s; return v; }
static V BA(const std::string& s) { V v; v.t = T::BYTEARRAY; v.s = s; return v; }
static V Seq(T t, std::vector<V> k) { V v; v.t = t; v.k = k; return v; }
static V C1(int x) { V v; v.t = T::CUSTOM; v.custom = 1; v.i = x; v.s = LONG; return v; }
static V C2(const std::string& s) { V v; v.t = T::CUSTOM; v.custom = 2; v.s = s; return v; }
static V C3(int x) { V v; v.t = T::CUSTOM; v.custom = 3; v.i = x; return v; }
static V i32(int x) { return I(T::BYTE_4, x); }

static std::string show(const V& v) {
    char b[64];
    switch (v.t) {
        case T::UNKNOWN: return "empty";
        case T::DOUBLE: snprintf(b, sizeof b, "double(%.17g)", v.d); return b;
        case T::BOOL: return v.i ? "true" : "false";
        case T::STRING: return "\"" + (v.s.size() > 20 ? v.s.substr(0, 8) + ".." : v.s) + "\"";
        case T::BYTEARRAY: return "bytes\"" + v.s + "\"";
        case T::CUSTOM: return "custom" + std::to_string(v.custom) + "(" + (v.custom == 2 ? v.s : std::to_string(v.i)) + ")";
        case T::VECTOR: case T::LIST: case T::MAP: case T::PAIR: {
            std::string r = v.t == T::VECTOR ? "vector[" : v.t == T::LIST ? "list[" : v.t == T::MAP ? "map[" : "pair[";
            for (size_t n = 0; n < v.k.size(); ++n) r += (n ? "," : "") + show(v.k[n]); return r + "]";
        }
        default: if (v.isSigned()) return "int" + std::to_string(8 << (int(v.t) - int(T::BYTE_1))) + "(" + std::to_string(v.i) + ")"; return "uint" + std::to_string(8 << (int(v.t) - int(T::UBYTE_1))) + "(" + std::to_string(v.u) + ")";
    }
}

enum Ord { LT, EQ, GT, INCOMP, UNSPEC };
static Ord flip(Ord o) { return o == LT ? GT : o == GT ? LT : o; }
template <class X> static Ord ord3(const X& a, const X& b) { return a < b ? LT : b < a ? GT : EQ; }
static Ord cmp(const V& a, const V& b) {
    if (a.isNum() && b.isNum()) {
        if (a.t == T::DOUBLE || b.t == T::DOUBLE) {
            auto val = [](const V& v) -> long double { return v.t == T::DOUBLE ? (long double)v.d : v.isSigned() ? (long double)v.i : (long double)v.u; };
            long double x = val(a), y = val(b);
            if (x != x || y != y) return UNSPEC;                               // NaN
            if (x == y) return EQ;
            if (std::isinf(x) || std::isinf(y)) return x < y ? LT : GT;
            if (fabsl(x - y) < 1e-7L) return UNSPEC;                           // compared with a precision
            if (a.t != b.t && (fabsl(x) > 9007199254740992.0L || fabsl(y) > 9007199254740992.0L) && fabsl(x - y) < 4096) return UNSPEC;   // not representable as double
            return x < y ? LT : GT;
        }
        if (a.isSigned() && b.isSigned()) return ord3(a.i, b.i);
        if (a.isUnsigned() && b.isUnsigned()) return ord3(a.u, b.u);
        if (a.isSigned()) return a.i < 0 ? LT : ord3(uint64_t(a.i), b.u);
        return b.i < 0 ? GT : ord3(a.u, uint64_t(b.i));
    }
    if (a.t != b.t) return INCOMP;
    switch (a.t) {
        case T::UNKNOWN: return EQ;
        case T::BOOL: return ord3(a.i, b.i);
        case T::STRING: return ord3(a.s, b.s);
        case T::BYTEARRAY: return ord3(a.s, b.s);
        case T::CUSTOM: return a.custom != b.custom ? INCOMP : a.custom == 2 ? ord3(a.s, b.s) : ord3(a.i, b.i);
        default: {
            size_t n = std::min(a.k.size(), b.k.size());
            for (size_t x = 0; x < n; ++x) { Ord o = cmp(a.k[x], b.k[x]); if (o == INCOMP) return a.k.size() == b.k.size() || true ? UNSPEC : INCOMP; if (o != EQ) return o; }
            return ord3(a.k.size(), b.k.size());
        }
    }
}
// equal even where the order is not specified?
static int eq(const V& a, const V& b) {
    Ord o = cmp(a, b);
    if (o == EQ) return 1;
    if (o == LT || o == GT || o == INCOMP) return 0;
    if (a.t == b.t && a.t >= T::LIST && a.t <= T::PAIR) {
        if (a.k.size() != b.k.size()) return 0;
        int r = 1; for (size_t x = 0; x < a.k.size(); ++x) { int e = eq(a.k[x], b.k[x]); if (e == 0) return 0; if (e < 0) r = -1; } return r;
    }
    return -1;
}
static void mapPut(V& m, const V& key, const V& val, bool overwrite) {
    size_t n = 0;
    for (; n < m.k.size(); n += 2) {
        Ord o = cmp(m.k[n], key);
        if (o == INCOMP) o = m.k[n].t < key.t ? LT : GT;
        if (o == EQ) { if (overwrite) m.k[n + 1] = val; return; }
        if (o == GT) break;
    }
    m.k.insert(m.k.begin() + long(n), {key, val});
}

// way 0: constructor, 1: make(), 2: assignment to a variant which holds something else
static ByteArray_t bytes(const std::string& s) { return ByteArray_t(s.begin(), s.end()); }
template <class X> static Variant put(const X& x, int way) {
    if (way == 0) return Variant(x);
    if (way == 1) return Variant::make(x);
    Variant v(std::string("something else")); v = x; return v;
}
static Variant build(const V& v, int way) {
    switch (v.t) {
        case T::UNKNOWN: if (way == 2) { Variant x(7); x.clear(); return x; } return Variant();
        case T::BYTE_1: return put(int8_t(v.i), way);   case T::BYTE_2: return put(int16_t(v.i), way);
        case T::BYTE_4: return put(int32_t(v.i), way);  case T::BYTE_8: return put(int64_t(v.i), way);
        case T::UBYTE_1: return put(uint8_t(v.u), way); case T::UBYTE_2: return put(uint16_t(v.u), way);
        case T::UBYTE_4: return put(uint32_t(v.u), way); case T::UBYTE_8: return put(uint64_t(v.u), way);
        case T::DOUBLE: return put(v.d, way); case T::BOOL: return put(bool(v.i), way);
        case T::STRING: { if (v.s.size() != strlen(v.s.c_str())) return put(v.s, way); if (way == 1) return Variant::make(v.s.c_str()); if (way == 2) { Variant x(3); x = v.s.c_str(); return x; } return put(v.s, way); }
        case T::BYTEARRAY: if (way == 1) return Variant::make(v.s.data(), v.s.size()); return put(bytes(v.s), way);
        case T::VECTOR: { VariantVector_t x; for (auto& e : v.k) x.push_back(build(e, way)); return put(x, way); }
        case T::LIST: { VariantList_t x; for (auto& e : v.k) x.push_back(build(e, way)); return put(x, way); }
        case T::MAP: { VariantMap_t x; for (size_t n = 0; n < v.k.size(); n += 2) x.emplace(build(v.k[n], way), build(v.k[n + 1], way)); return put(x, way); }
        case T::PAIR: { VariantPair_t x(build(v.k[0], way), build(v.k[1], way)); return put(x, way); }
        case T::CUSTOM: if (v.custom == 1) return put(CA{int(v.i), v.s}, way); if (v.custom == 2) return put(CB{v.s}, way); return Variant::makeCustom(int(v.i));
    }
    return Variant();
}

static void checkSame(const Variant& r, const V& v, const char* what) {
    if (r.getType() != v.t) fail("%s has type %d instead of %d (%s)", what, int(r.getType()), int(v.t), show(v).c_str());
    if (bool(r) != (v.t != T::UNKNOWN) || r.isEmpty() != (v.t == T::UNKNOWN)) fail("%s: isEmpty()/bool is wrong for %s", what, show(v).c_str());
    bool ok = true;
    switch (v.t) {
        case T::UNKNOWN: ok = r.toString().empty() && r.toInt64() == 0 && !r.getVector() && !r.getList() && !r.getMap() && !r.getPair() && !r.getByteArray(); break;
        case T::DOUBLE: ok = r.toDouble() == v.d || (v.d != v.d && r.toDouble() != r.toDouble()); break;
        case T::BOOL: ok = r.toBool() == bool(v.i); break;
        case T::STRING: ok = r.toString() == v.s; break;
        case T::BYTEARRAY: ok = r.getByteArray() && *r.getByteArray() == bytes(v.s); break;
        case T::VECTOR: { auto p = r.getVector(); ok = p && p->size() == v.k.size(); if (ok) for (size_t n = 0; n < v.k.size(); ++n) checkSame((*p)[n], v.k[n], "element of a vector"); break; }
        case T::LIST: { auto p = r.getList(); ok = p && p->size() == v.k.size(); if (ok) { size_t n = 0; for (auto& e : *p) checkSame(e, v.k[n++], "element of a list"); } break; }
        case T::MAP: { auto p = r.getMap(); ok = p && p->size() * 2 == v.k.size(); if (ok) { size_t n = 0; for (auto& e : *p) { checkSame(e.first, v.k[n], "key of a map"); checkSame(e.second, v.k[n + 1], "value of a map"); n += 2; } } break; }
        case T::PAIR: { auto p = r.getPair(); ok = bool(p); if (ok) { checkSame(p->first, v.k[0], "first of a pair"); checkSame(p->second, v.k[1], "second of a pair"); } break; }
        case T::CUSTOM: if (v.custom == 1) { auto p = r.getCustomType<CA>(); ok = p && p->x == v.i && p->s == v.s; } else if (v.custom == 2) { auto p = r.getCustomType<CB>(); ok = p && p->s == v.s; } else { auto p = r.getCustomType<int>(); ok = p && *p == int(v.i); } break;
        default: ok = v.isSigned() ? r.toInt64() == v.i : r.toUInt64() == v.u;
    }
    if (!ok) fail("%s has not the value %s", what, show(v).c_str());
}

// ------------------------------------------------------------------------------------------------ V01
namespace seq {
static std::vector<V> pool() {
    return {V(), i32(5), S(LONG), BA("bytes"), Seq(T::VECTOR, {i32(1), S(LONG)}), Seq(T::LIST, {S("l"), Seq(T::VECTOR, {i32(2)})}), Seq(T::MAP, {i32(1), S(LONG)}), Seq(T::PAIR, {i32(3), Seq(T::MAP, {S("k"), i32(4)})}), C1(6), C2("c")};
}
static std::vector<V> POOL;
constexpr int NV = 3;
enum K { SET, SETMAKE, COPY, MOVE, CCOPY, CMOVE, CLEAR, MUT, PUSH, ELEM, MOVEELEM, SWAP, OWN, READ };
struct Op { K k; int i, j; };
static std::vector<Op> OPS;
static const char* kn[] = {"set", "set to a new variant", "copy", "move", "construct as copy", "construct by moving", "clear", "change the content of", "insert", "assign element of", "move element of", "swap", "assign own content", "keep and read pointer"};
static std::string show(const Op& o) { std::string r = kn[o.k]; if (o.k <= SETMAKE) return "v" + std::to_string(o.i) + " = " + ::show(POOL[size_t(o.j)]); r += " v" + std::to_string(o.i); if (o.j >= 0) r += " <- v" + std::to_string(o.j); return r; }
struct St { std::unique_ptr<Variant> v[NV]; V m[NV]; };

static V* melem(V& m) { if (m.k.empty()) return nullptr; if (m.t == T::MAP) return &m.k[1]; if (m.t == T::PAIR) return &m.k[1]; return &m.k[0]; }
static Variant* relem(Variant& v) {                       // the pointers to the containers are dropped before the element is used
    if (v.isVector() && !v.getVector()->empty()) return &v.getVector()->front();
    if (v.isList() && !v.getList()->empty()) return &v.getList()->front();
    if (v.isMap() && !v.getMap()->empty()) return &v.getMap()->begin()->second;
    if (v.isPair()) return &v.getPair()->second;
    return nullptr;
}
static size_t weight(const V& v) { size_t n = 1; for (auto& k : v.k) n += weight(k); return n; }
static void assignValue(Variant& x, const V& v) {
    switch (v.t) {
        case T::UNKNOWN: x = Variant(); break; case T::BYTE_4: x = int32_t(v.i); break; case T::STRING: x = v.s; break; case T::BYTEARRAY: x = bytes(v.s); break;
        case T::VECTOR: x = *build(v, 0).getVector(); break; case T::LIST: x = *build(v, 0).getList(); break; case T::MAP: x = *build(v, 0).getMap(); break; case T::PAIR: x = *build(v, 0).getPair(); break;
        case T::CUSTOM: if (v.custom == 1) x = CA{int(v.i), v.s}; else x = CB{v.s}; break; default: break;
    }
}
// false: the operation does nothing here
static bool apply(St& s, const Op& o) {
    Variant& a = *s.v[o.i]; V& ma = s.m[o.i];
    switch (o.k) {
        case SET: assignValue(a, POOL[size_t(o.j)]); ma = POOL[size_t(o.j)]; return true;
        case SETMAKE: { a = build(POOL[size_t(o.j)], 1); ma = POOL[size_t(o.j)]; return true; }
        case COPY: a = *s.v[o.j]; ma = V(s.m[o.j]); return true;
        case MOVE: { a = std::move(*s.v[o.j]); if (o.i != o.j) { ma = s.m[o.j]; s.m[o.j] = V(); } return true; }
        case CCOPY: { std::unique_ptr<Variant> n(new Variant(*s.v[o.j])); s.v[o.i] = std::move(n); ma = V(s.m[o.j]); return true; }
        case CMOVE: { std::unique_ptr<Variant> n(new Variant(std::move(*s.v[o.j]))); s.v[o.i] = std::move(n); ma = s.m[o.j]; s.m[o.j] = V(); return true; }
        case CLEAR: a.clear(); ma = V(); return true;
        case MUT:
            switch (ma.t) {
                case T::VECTOR: a.getVector()->push_back(Variant(9)); ma.k.push_back(i32(9)); return true;
                case T::LIST: a.getList()->push_front(Variant(9)); ma.k.insert(ma.k.begin(), i32(9)); return true;
                case T::MAP: (*a.getMap())[Variant(9)] = Variant("nine"); mapPut(ma, i32(9), S("nine"), true); return true;
                case T::PAIR: a.getPair()->first = std::string("changed"); ma.k[0] = S("changed"); return true;
                case T::BYTEARRAY: a.getByteArray()->push_back('!'); ma.s += '!'; return true;
                case T::CUSTOM: if (ma.custom == 1) { a.getCustomType<CA>()->x++; ma.i++; } else { a.getCustomType<CB>()->s += "!"; ma.s += "!"; } return true;
                default: return false;
            }
        case PUSH: {
            V mb = s.m[o.j]; if (weight(mb) > 12) return false; const Variant& b = *s.v[o.j];
            switch (ma.t) {
                case T::VECTOR: a.getVector()->push_back(b); ma.k.push_back(mb); return true;
                case T::LIST: a.getList()->push_back(b); ma.k.push_back(mb); return true;
                case T::MAP: a.getMap()->insert(std::make_pair(Variant("z"), b)); mapPut(ma, S("z"), mb, false); return true;
                case T::PAIR: a.getPair()->second = b; ma.k[1] = mb; return true;
                default: return false;
            }
        }
        case ELEM: { V* e = melem(s.m[o.j]); Variant* r = relem(*s.v[o.j]); if (!e) return false; a = *r; V c(*e); ma = c; return true; }
        case MOVEELEM: { V* e = melem(s.m[o.j]); Variant* r = relem(*s.v[o.j]); if (!e) return false; a = std::move(*r); V c(*e); if (o.i == o.j) ma = c; else { *e = V(); ma = c; } return true; }
        case SWAP: std::swap(a, *s.v[o.j]); std::swap(ma, s.m[o.j]); return true;
        case OWN:
            switch (ma.t) {
                case T::VECTOR: { const VariantVector_t& r = *a.getVector(); a = r; return true; }
                case T::LIST: { const VariantList_t& r = *a.getList(); a = r; return true; }
                case T::MAP: { const VariantMap_t& r = *a.getMap(); a = r; return true; }
                case T::PAIR: { const VariantPair_t& r = *a.getPair(); a = r; return true; }
                case T::BYTEARRAY: { const ByteArray_t& r = *a.getByteArray(); a = r; return true; }
                case T::CUSTOM: if (ma.custom == 1) { const CA& r = *a.getCustomType<CA>(); a = r; } else { const CB& r = *a.getCustomType<CB>(); a = r; } return true;
                default: return false;
            }
        case READ: { Variant c(a); auto k = c.getVector(); c = Variant(1); if (k && k->size() != ma.k.size()) fail("content changed although only another variant was assigned to"); return k != nullptr; }
    }
    return false;
}
static bool once(int init, const std::vector<int>& path) {
    St s; int nP = int(POOL.size());
    for (int n = 0; n < NV; ++n) s.v[n].reset(new Variant());
    gWhere = "";
    for (int n = 0; n < 2; ++n) { int x = n ? init / nP : init % nP; assignValue(*s.v[n], POOL[size_t(x)]); s.m[n] = POOL[size_t(x)]; gWhere += (n ? ", v1 = " : "v0 = ") + ::show(POOL[size_t(x)]); }
    for (size_t n = 0; n < path.size(); ++n) {
        const Op& o = OPS[size_t(path[n])]; gWhere += "; " + show(o); ++gTrans;
        if (!apply(s, o)) return false;
        if (n + 1 == path.size()) for (int x = 0; x < NV; ++x) { char nm[] = "v0"; nm[1] = char('0' + x); checkSame(*s.v[x], s.m[x], nm); }
    }
    return true;
}
static void rec(int init, std::vector<int>& path, int depth) {
    for (size_t o = 0; o < OPS.size(); ++o) {
        path.push_back(int(o)); ++gRuns;
        if (once(init, path)) { ++gStates; if (gSample.empty() && depth == 1 && gRuns > 5000) gSample.push_back(gWhere); if (depth > 1) rec(init, path, depth - 1); }
        path.pop_back();
    }
}
static void run(int depth, int shard, int shards) {
    POOL = pool();
    for (int i = 0; i < NV; ++i) {
        if (i < 2) for (size_t p = 0; p < POOL.size(); ++p) { OPS.push_back({SET, i, int(p)}); if (p % 4 == 1) OPS.push_back({SETMAKE, i, int(p)}); }
        for (int j = 0; j < NV; ++j) { OPS.push_back({COPY, i, j}); OPS.push_back({MOVE, i, j}); if (i != j) { OPS.push_back({CCOPY, i, j}); OPS.push_back({CMOVE, i, j}); } OPS.push_back({PUSH, i, j}); OPS.push_back({ELEM, i, j}); OPS.push_back({MOVEELEM, i, j}); if (i < j) OPS.push_back({SWAP, i, j}); }
        OPS.push_back({CLEAR, i, -1}); OPS.push_back({MUT, i, -1}); OPS.push_back({OWN, i, -1}); OPS.push_back({READ, i, -1});
    }
    int n = int(POOL.size() * POOL.size());
    for (int init = shard; init < n; init += shards) { std::vector<int> p; rec(init, p, depth); }
}
}  // namespace seq

// ------------------------------------------------------------------------------------------------ values for V02, V03
static std::vector<V> scalars() {
    std::vector<V> r = {V()};
    for (int64_t x : {0, 1, 2, 7, -1, -2, 100, 127, -128}) r.push_back(I(T::BYTE_1, x));
    for (int64_t x : {0, 1, -1, 7, 255, 256, 32767, -32768, -129}) r.push_back(I(T::BYTE_2, x));
    for (int64_t x : {0, 1, -1, 7, 65535, 65536, 2147483647, -2147483647 - 1, -128}) r.push_back(I(T::BYTE_4, x));
    for (int64_t x : {int64_t(0), int64_t(1), int64_t(-1), int64_t(7), int64_t(4294967295), int64_t(4294967296), INT64_MAX, INT64_MIN, int64_t(9007199254740993)}) r.push_back(I(T::BYTE_8, x));
    for (uint64_t x : {0, 1, 7, 127, 128, 255}) r.push_back(U(T::UBYTE_1, x));
    for (uint64_t x : {0, 1, 7, 255, 32768, 65535}) r.push_back(U(T::UBYTE_2, x));
    for (uint64_t x : {0ul, 1ul, 7ul, 65535ul, 2147483648ul, 4294967295ul}) r.push_back(U(T::UBYTE_4, x));
    for (uint64_t x : {uint64_t(0), uint64_t(1), uint64_t(7), uint64_t(4294967296), uint64_t(INT64_MAX), uint64_t(INT64_MAX) + 1, UINT64_MAX}) r.push_back(U(T::UBYTE_8, x));
    for (double x : {0.0, -0.0, 1.0, -1.0, 7.0, 0.5, -0.5, 1.0 + 1e-9, 1.5, -1.5, 255.0, 4294967296.0, 1e15, -1e15, 9007199254740992.0, 1e300, -1e300, 1e-300, HUGE_VAL, -HUGE_VAL, std::nan("")}) r.push_back(Dd(x));
    r.push_back(Bb(false)); r.push_back(Bb(true));
    for (const char* x : {"", "0", "1", "7", "-1", "-7", "0.5", "1.5", "abc", "b", "abd", "true", "false", "7abc", "9223372036854775807", "9223372036854775808", "18446744073709551615", "99999999999999999999", "-9223372036854775808", "1e3", LONG}) r.push_back(S(x));
    r.push_back(S(std::string("nul\0byte", 8)));
    for (const char* x : {"", "0", "a", "abc", "abd", "7"}) r.push_back(BA(x));
    r.push_back(BA(std::string("\0\xff\x80", 3)));
    r.push_back(C1(1)); r.push_back(C1(2)); r.push_back(C2("x")); r.push_back(C2("y")); r.push_back(C3(1)); r.push_back(C3(2));
    return r;
}
static std::vector<V> containers(int maxLen, const std::vector<V>& el) {
    std::vector<V> r; std::vector<std::vector<V>> cur = {{}};
    for (int len = 0; len <= maxLen; ++len) {
        for (auto& c : cur) {
            r.push_back(Seq(T::VECTOR, c)); r.push_back(Seq(T::LIST, c)); if (len == 2) r.push_back(Seq(T::PAIR, c));
            bool sorted = true; for (size_t n = 1; n < c.size(); ++n) { Ord o = cmp(c[n - 1], c[n]); sorted &= o == LT || (o == INCOMP && c[n - 1].t < c[n].t); }
            if (sorted) { for (int kind = 0; kind < 2; ++kind) { V m = Seq(T::MAP, {}); size_t n = 0; for (auto& k : c) { m.k.push_back(k); m.k.push_back(kind ? i32(int(n++)) : el[0]); } if (kind == 0 || len) r.push_back(m); } }
        }
        std::vector<std::vector<V>> nx; for (auto& c : cur) for (auto& e : el) { auto d = c; d.push_back(e); nx.push_back(d); } cur = nx;
    }
    return r;
}
static std::vector<V> all(int size) {
    std::vector<V> r = scalars();
    std::vector<V> el = {i32(1), i32(-2), U(T::UBYTE_1, 1), S("a"), S("b"), Bb(true)};
    if (size > 1) { el.push_back(Dd(1.5)); el.push_back(Seq(T::VECTOR, {i32(1)})); el.push_back(BA("a")); el.push_back(V()); }
    for (auto& c : containers(size > 2 ? 3 : 2, el)) r.push_back(c);
    r.push_back(Seq(T::VECTOR, {Seq(T::MAP, {S("k"), Seq(T::LIST, {i32(1), S("x")})}), Seq(T::PAIR, {Dd(0.5), Seq(T::VECTOR, {})})}));
    r.push_back(Seq(T::MAP, {Seq(T::PAIR, {i32(1), i32(2)}), Seq(T::VECTOR, {i32(1), i32(2)})}));
    r.push_back(Seq(T::PAIR, {Seq(T::PAIR, {i32(1), S("x")}), Seq(T::MAP, {i32(1), i32(2), i32(3), i32(4)})}));
    return r;
}

// ------------------------------------------------------------------------------------------------ V02
static bool number(const std::string& s, size_t& len) { size_t n = 0; if (n < s.size() && s[n] == '-') ++n; size_t a = n; while (n < s.size() && isdigit(s[n])) ++n; len = n; return n > a; }
struct Cv { bool i = true, u = true, d = true, b = true, str = true, by = true; int64_t ri = 0; uint64_t ru = 0; double rd = 0; bool rb = false; std::string rs; std::string rby; };
static Cv conv(const V& v) {
    Cv c;
    if (v.isSigned() || v.t == T::BOOL) { c.ri = v.i; c.ru = uint64_t(v.i); c.rd = double(v.i); c.rb = v.i != 0; if (v.t == T::BOOL) { c.rs = v.i ? "true" : "false"; c.rby = std::string(1, char(v.i)); } else { c.rs = std::to_string(v.i); int n = 1 << (int(v.t) - int(T::BYTE_1)); c.rby.assign((const char*)&v.i, size_t(n)); } }
    else if (v.isUnsigned()) { c.ri = int64_t(v.u); c.ru = v.u; c.rd = double(v.u); c.rb = v.u != 0; c.rs = std::to_string(v.u); int n = 1 << (int(v.t) - int(T::UBYTE_1)); c.rby.assign((const char*)&v.u, size_t(n)); }
    else switch (v.t) {
        case T::DOUBLE: c.rd = v.d; c.rs = std::to_string(v.d); c.rb = v.d != 0.0; c.rby.assign((const char*)&v.d, 8);
            c.i = v.d > -9.2e18 && v.d < 9.2e18; c.u = v.d > -1 && v.d < 1.8e19; if (c.i) c.ri = int64_t(v.d); if (c.u) c.ru = uint64_t(v.d); c.str = c.str && v.d == v.d; break;
        case T::STRING: {
            c.rs = v.s; c.rby = v.s; size_t n; bool num = number(v.s, n);
            if (num) {
                std::string digits = v.s.substr(v.s[0] == '-'); size_t dl = n - (v.s[0] == '-');
                bool big = dl > 19 || (dl == 19 && digits.substr(0, 19) > (v.s[0] == '-' ? "9223372036854775808" : "9223372036854775807"));
                bool ubig = dl > 20 || (dl == 20 && digits.substr(0, 20) > "18446744073709551615");
                c.ri = big ? 0 : strtoll(v.s.c_str(), nullptr, 10); c.ru = ubig ? 0 : strtoull(v.s.c_str(), nullptr, 10); c.u = v.s[0] != '-';
                c.rd = strtod(v.s.c_str(), nullptr); c.rb = c.rd != 0;
            }
            if (v.s == "true") c.rb = true;
            break;
        }
        case T::BYTEARRAY: c.rs = v.s; c.rby = v.s; break;
        case T::VECTOR: case T::LIST: { bool any = false; for (auto& e : v.k) { Cv x = conv(e); c.by &= x.by; c.str &= x.str; c.rby += x.rby; if (any) c.rs += ", "; if (!any && x.rs.empty()) c.str = false; c.rs += x.rs; any = true; } break; }
        case T::MAP: for (size_t n = 0; n < v.k.size(); n += 2) { if (n) c.rs += ", "; Cv a = conv(v.k[n]), b = conv(v.k[n + 1]); c.str &= a.str && b.str; c.rs += a.rs + "=[" + b.rs + "]"; } c.by = false; break;
        case T::PAIR: { Cv a = conv(v.k[0]), b = conv(v.k[1]); c.str = a.str && b.str; c.by = a.by && b.by; c.rs = "(" + a.rs + ", " + b.rs + ")"; c.rby = a.rby + b.rby; break; }
        default: break;
    }
    return c;
}
static void checkConv(const Variant& r, const V& v) {
    Cv c = conv(v); ++gTrans;
    int64_t i = r.toInt64(); if (c.i && i != c.ri) fail("toInt64() is %lld instead of %lld", (long long)i, (long long)c.ri);
    uint64_t u = r.toUInt64(); if (c.u && u != c.ru) fail("toUInt64() is %llu instead of %llu", (unsigned long long)u, (unsigned long long)c.ru);
    double d = r.toDouble(); if (c.d && !(d == c.rd || (d != d && c.rd != c.rd))) fail("toDouble() is %g instead of %g", d, c.rd);
    bool b = r.toBool(); if (c.b && b != c.rb) fail("toBool() is %d instead of %d", b, c.rb);
    std::string s = r.toString(); if (c.str && s != c.rs) fail("toString() is \"%s\" instead of \"%s\"", s.c_str(), c.rs.c_str());
    ByteArray_t y = r.toByteArray(); if (c.by && std::string(y.begin(), y.end()) != c.rby) fail("toByteArray() is wrong (%d instead of %d bytes)", int(y.size()), int(c.rby.size()));
    T t = v.t;
#define IS(f, e) if (r.f() != (e)) fail(#f "() is %d", r.f())
    IS(isEmpty, t == T::UNKNOWN); IS(isNumeric, v.isNum()); IS(isSignedNumeric, v.isSigned() || t == T::DOUBLE); IS(isUnsignedNumeric, v.isUnsigned()); IS(isBool, t == T::BOOL); IS(isString, t == T::STRING); IS(isByteArray, t == T::BYTEARRAY);
    IS(isVector, t == T::VECTOR); IS(isList, t == T::LIST); IS(isMap, t == T::MAP); IS(isPair, t == T::PAIR); IS(isCustomType, t == T::CUSTOM);
    if (bool(r.getVector()) != (t == T::VECTOR) || bool(r.getList()) != (t == T::LIST) || bool(r.getMap()) != (t == T::MAP) || bool(r.getPair()) != (t == T::PAIR) || bool(r.getByteArray()) != (t == T::BYTEARRAY) || bool(r.getCustomType<CA>()) != (t == T::CUSTOM)) fail("a get...() function returns a pointer for the wrong type (or none)");
    auto str = [](const Variant& x) { return x.toString(); };
    auto vec = r.toVector<std::string>(str); auto lst = r.toList<std::string>(str); auto mp = r.toMap<std::string, std::string>(str, str); auto pr = r.toPair<std::string, std::string>(str, str);
    if (vec.size() != (t == T::VECTOR ? v.k.size() : 0) || lst.size() != (t == T::LIST ? v.k.size() : 0)) fail("toVector()/toList() has the wrong size");
    for (size_t n = 0; n < vec.size(); ++n) { Cv x = conv(v.k[n]); if (x.str && vec[n] != x.rs) fail("toVector(): element %d is \"%s\"", int(n), vec[n].c_str()); }
    size_t n = 0; for (auto& e : lst) { Cv x = conv(v.k[n++]); if (x.str && e != x.rs) fail("toList(): element %d is \"%s\"", int(n - 1), e.c_str()); }
    if (t == T::MAP) { std::map<std::string, std::string> w; bool ok = true; for (size_t k = 0; k < v.k.size(); k += 2) { Cv x = conv(v.k[k]), z = conv(v.k[k + 1]); ok &= x.str && z.str; w.insert({x.rs, z.rs}); } if (ok && w != mp) fail("toMap() is wrong"); } else if (!mp.empty()) fail("toMap() is not empty");
    if (t == T::PAIR) { Cv x = conv(v.k[0]), z = conv(v.k[1]); if ((x.str && pr.first != x.rs) || (z.str && pr.second != z.rs)) fail("toPair() is wrong"); } else if (!pr.first.empty() || !pr.second.empty()) fail("toPair() is not empty");
}
static void convAll(const V& v) {
    ++gStates;
    for (int way = 0; way < 3; ++way) {
        gWhere = show(v) + (way == 0 ? " (constructed)" : way == 1 ? " (make)" : " (assigned)"); ++gRuns;
        try {
            Variant r = build(v, way); checkSame(r, v, "variant"); checkConv(r, v); checkSame(r, v, "variant after conversions");
            Variant c(r); checkConv(c, v); Variant m(std::move(c)); checkConv(m, v); checkConv(c, V()); Variant w(1); w = m; checkConv(w, v);
            VariantVector_t box(1, r); Variant o(box); checkConv((*o.getVector())[0], v);
        } catch (...) { fail("an exception was thrown"); }
        if (gSample.empty() && gStates == 40) gSample.push_back(gWhere + " -> \"" + build(v, way).toString() + "\"");
    }
}
// values which are built from C++ containers and through the special constructors
static void convSpecial() {
    auto is = [](const Variant& r, const V& v, const char* w) { gWhere = w; ++gRuns; checkSame(r, v, "variant"); checkConv(r, v); };
    is(Variant(std::vector<int>{1, 2}), Seq(T::VECTOR, {i32(1), i32(2)}), "std::vector<int>"); is(Variant::make(std::vector<std::string>{"a"}), Seq(T::VECTOR, {S("a")}), "std::vector<string>");
    is(Variant(std::list<int>{1, 2}), Seq(T::LIST, {i32(1), i32(2)}), "std::list<int>"); is(Variant::make(std::list<bool>{true}), Seq(T::LIST, {Bb(true)}), "std::list<bool>");
    is(Variant(std::map<int, std::string>{{2, "b"}, {1, "a"}}), Seq(T::MAP, {i32(1), S("a"), i32(2), S("b")}), "std::map"); is(Variant::make(std::map<std::string, double>{{"x", 0.5}}), Seq(T::MAP, {S("x"), Dd(0.5)}), "make(std::map)");
    is(Variant(std::string("k"), 5), Seq(T::PAIR, {S("k"), i32(5)}), "pair of two values"); is(Variant::make(std::string("k"), 5), Seq(T::PAIR, {S("k"), i32(5)}), "make(first, second)");
    is(Variant("bin\0ary", size_t(7)), BA(std::string("bin\0ary", 7)), "binary data"); is(Variant::make("bin\0ary", size_t(7)), BA(std::string("bin\0ary", 7)), "make(binary data)"); is(Variant("text"), S("text"), "const char*");
    is(Variant::make(Variant(5)), i32(5), "make(Variant)"); is(Variant(CA{4, LONG}), C1(4), "custom type");
    Variant cs = Variant::makeCustom(std::string("s")); gWhere = "makeCustom(std::string)"; if (!cs.isCustomType() || *cs.getCustomType<std::string>() != "s" || !cs.toString().empty()) fail("wrong");
}

// ------------------------------------------------------------------------------------------------ V03
static void pairCheck(const V& a, const V& b, const Variant& x, const Variant& y) {
    ++gTrans;
    bool e = x == y, e2 = y == x, ne = x != y, gt = x > y, lt = x < y, ge = x >= y, le = x <= y, gt2 = y > x, lt2 = y < x;
    auto bad = [&](const char* w) { gWhere = show(a) + " and " + show(b); fail("%s (== %d != %d > %d < %d >= %d <= %d, the other way round: == %d > %d < %d)", w, e, ne, gt, lt, ge, le, e2, gt2, lt2); };
    if (e != e2) bad("== is not symmetric");
    if (ne == e) bad("!= is not the negation of ==");
    if (int(e) + int(gt) + int(lt) > 1) bad("more than one of ==, < and > holds");
    if (lt && lt2) bad("each is less than the other");
    if (gt && gt2) bad("each is greater than the other");
    if (ge != (gt || e)) bad(">= is not '> or =='");
    if (le != (lt || e)) bad("<= is not '< or =='");
    int q = eq(a, b); Ord o = cmp(a, b);
    if (q >= 0 && e != bool(q)) bad(q ? "equal values are reported as different" : "different values are reported as equal");
    if (o == LT && !(lt && gt2)) bad("the first is less, but this is not reported");
    if (o == GT && !(gt && lt2)) bad("the first is greater, but this is not reported");
    if (o == EQ && (lt || gt)) bad("equal values are ordered");
    if (o == INCOMP && (gt || gt2)) bad("values of incompatible types are reported as greater");
}
static void cmpAll(int size, int shard, int shards) {
    std::vector<V> vs = all(size); std::vector<Variant> r[3];
    for (int w = 0; w < 3; ++w) for (auto& v : vs) r[w].push_back(build(v, w));
    size_t n = vs.size();
    for (size_t i = size_t(shard); i < n; i += size_t(shards)) {
        gWhere = show(vs[i]); ++gStates;
        Variant self(r[0][i]); if (!(self == self) || self != self || self < self || self > self) fail("not equal to itself");
        for (size_t j = 0; j < n; ++j) { ++gRuns; pairCheck(vs[i], vs[j], r[0][i], r[(i + j) % 3][j]); }
        if (gSample.empty() && i > 30) gSample.push_back(show(vs[i]) + " against " + std::to_string(n) + " other values");
    }
    // small integers completely
    for (int t = 0; t < 4; ++t) for (int a = shard; a < 256; a += shards) for (int b = 0; b < 256; ++b) {
        V x = t & 1 ? U(T::UBYTE_1, uint64_t(a)) : I(T::BYTE_1, int8_t(a)), y = t & 2 ? U(T::UBYTE_1, uint64_t(b)) : I(T::BYTE_1, int8_t(b)); ++gRuns; pairCheck(x, y, build(x, 0), build(y, 0));
    }
    // transitivity (values which are compared with a precision left out)
    std::vector<size_t> idx; for (size_t i = 0; i < n; ++i) { bool ok = true; for (size_t j = 0; j < n && ok; ++j) ok = i == j || vs[i].t == T::VECTOR || vs[i].t == T::LIST || vs[i].t == T::MAP || vs[i].t == T::PAIR || cmp(vs[i], vs[j]) != UNSPEC; if (ok && !(vs[i].t == T::DOUBLE && vs[i].d != vs[i].d)) { if (vs[i].k.size() <= 2 || i % 7 == 0) idx.push_back(i); } }
    size_t m = idx.size(); std::vector<std::vector<char>> L(m, std::vector<char>(m)), Q = L;
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) { L[i][j] = r[0][idx[i]] < r[0][idx[j]]; Q[i][j] = r[0][idx[i]] == r[0][idx[j]]; }
    for (size_t i = size_t(shard); i < m; i += size_t(shards)) for (size_t j = 0; j < m; ++j) { if (L[i][j] || Q[i][j]) for (size_t k = 0; k < m; ++k) { ++gTrans;
        if (L[i][j] && L[j][k] && !L[i][k]) { gWhere = show(vs[idx[i]]) + " < " + show(vs[idx[j]]) + " < " + show(vs[idx[k]]); fail("< is not transitive"); }
        if (Q[i][j] && Q[j][k] && !Q[i][k]) { gWhere = show(vs[idx[i]]) + " == " + show(vs[idx[j]]) + " == " + show(vs[idx[k]]); fail("== is not transitive"); } } }
    // keys of a map: every key which was inserted is found with its value
    std::vector<V> keys = {V(), i32(1), i32(-2), U(T::UBYTE_2, 7), Dd(1.5), Bb(true), Bb(false), S("a"), S("b"), BA("a"), Seq(T::VECTOR, {i32(1)}), Seq(T::LIST, {i32(1)}), Seq(T::MAP, {}), Seq(T::PAIR, {i32(1), S("x")})};
    int nk = int(keys.size()); std::vector<Variant> kv; for (auto& k : keys) kv.push_back(build(k, 0));
    int depth = size > 1 ? 5 : 4, total = 1; for (int i = 0; i < depth; ++i) total *= nk;
    for (int c = shard; c < total; c += shards) {
        VariantMap_t mp; int x = c; std::vector<int> in; bool dup = false;
        for (int i = 0; i < depth; ++i) { int k = x % nk; x /= nk; if (std::find(in.begin(), in.end(), k) != in.end()) dup = true; in.push_back(k); }
        if (dup) continue; ++gRuns;
        for (int k : in) mp[kv[size_t(k)]] = Variant(k);
        bool ok = mp.size() == in.size(); for (int k : in) { auto it = mp.find(kv[size_t(k)]); ok = ok && it != mp.end() && it->second.toInt64() == k; }
        if (!ok) { gWhere = "map with the keys"; for (int k : in) gWhere += " " + show(keys[size_t(k)]); fail("a key is not found with its value"); }
    }
}

int main(int argc, char** argv) {
    std::string m = argc > 1 ? argv[1] : ""; int n = argc > 2 ? atoi(argv[2]) : 1, shard = argc > 3 ? atoi(argv[3]) : 0, shards = argc > 4 ? atoi(argv[4]) : 1;
    if (m == "seq") seq::run(n, shard, shards);
    else if (m == "conv") {
        std::vector<V> vs = all(n); for (size_t i = size_t(shard); i < vs.size(); i += size_t(shards)) convAll(vs[i]);
        for (int a = shard; a < 65536; a += shards) { convAll(I(T::BYTE_2, int16_t(a))); convAll(U(T::UBYTE_2, uint64_t(a))); if (a < 256) { convAll(I(T::BYTE_1, int8_t(a))); convAll(U(T::UBYTE_1, uint64_t(a))); } if (n < 2) a += 16 * shards; }
        convSpecial();
    } else if (m == "cmp") cmpAll(n, shard, shards);
    else return 2;
    report(""); return 0;
}
