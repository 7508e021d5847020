// Bounded description of a state machine ("program") shared by the reference model and the real-code driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <algorithm>
#include <set>
#include <map>
#include <deque>
#include <functional>
#include <tuple>
#include <sstream>

constexpr int NONE = -1000;   // same value as INVALID_*_ID in the library
constexpr int HBASE = 50;     // history pseudo states get ids HBASE+k
constexpr int SELFDEF = -2;   // final state without an event of its own

struct EntryDef { int parent, child, ev = NONE, cond = -1; bool exp = true; };
struct TransDef { int from, to, ev; bool self = false, internal = false; int cond = -1; bool exp = true; };
struct HistDef  { int parent; bool deep; int def = NONE; bool cb = false; };
struct ActDef   { int state; bool onEntry; int kind; std::vector<int> args; };  // kind: 0 start,1 stop,2 restart,3 transition
enum CbKind : uint8_t { K_EXIT, K_TRANS, K_ENTER, K_CHANGED, K_HCB, K_FAILED, K_TSTART, K_TSTOP, K_TRESTART, K_BAD };
struct EmitDef { uint8_t kind = 255; int id = 0; int ev = 0; int mask = 0; bool clear = false; };

namespace hsmcpp { class HierarchicalStateMachine; }
struct Drv;
// a machine which is not registered by the driver but by a generated class: how to create it and the ids it uses
struct GenInfo {
    std::function<hsmcpp::HierarchicalStateMachine*(Drv*)> make;
    std::vector<int> states, hist, timers; std::map<int, int> events;
};
struct RegCall { int parent, child; bool entry, accept; };   // a registration call and the expected answer

struct Mach {
    std::string name;
    int n = 0;
    std::vector<int> parent;            // -1: top level
    std::vector<int> fin;               // NONE: not final, SELFDEF: final without event, else event id
    int initial = 0;
    std::vector<EntryDef> entries;
    std::vector<TransDef> trans;
    std::vector<HistDef> hist;
    std::vector<ActDef> acts;
    std::vector<EmitDef> emits;
    bool rev = false;                   // register everything in reverse order
    std::vector<int> stepEvents;        // events used in steps
    std::vector<int> focusEvents;       // events explored with condition masks and vetoes
    int nConds = 0;
    std::vector<RegCall> regCalls;      // if set: the hierarchy is built by exactly these calls
    bool lateStates = false;            // registerState() after the hierarchy calls
    bool style = false;                 // register through the handler-object/member-pointer overloads
    std::set<std::pair<uint8_t, int>> muted;            // single callbacks which are not registered
    std::map<std::pair<uint8_t, int>, int> canon;       // callbacks shared by several states or transitions: the id they report
    const GenInfo* gen = nullptr;
    int silent = 0;                     // kinds of callbacks (1 << CbKind) which are not registered at all

    bool isSub(int anc, int s) const {  // s proper descendant of anc
        for (int p = parent[s]; p >= 0; p = parent[p]) if (p == anc) return true;
        return false;
    }
    bool related(int a, int b) const { return a == b || isSub(a, b) || isSub(b, a); }
    bool composite(int s) const { for (int p : parent) if (p == s) return true; return false; }
    int depth(int s) const { int d = 0; for (int p = parent[s]; p >= 0; p = parent[p]) ++d; return d; }
    std::string describe() const {
        std::ostringstream o;
        auto sn = [&](int s) { std::string r; if (s >= HBASE) return std::string("H") + std::to_string(s - HBASE); r = char('A' + s); return r; };
        o << name << " | states:";
        for (int i = 0; i < n; ++i) {
            o << " " << sn(i);
            if (parent[i] >= 0) o << "<" << sn(parent[i]);
            if (fin[i] != NONE) o << "(final" << (fin[i] == SELFDEF ? std::string() : " ev" + std::to_string(fin[i])) << ")";
        }
        o << " | initial " << sn(initial) << (rev ? " | reverse registration" : "") << (style ? " | member-pointer registration" : "") << (silent ? " | without callbacks of kinds " + std::to_string(silent) : std::string());
        o << " | entries:";
        for (auto& e : entries) {
            o << " " << sn(e.parent) << "=>" << sn(e.child);
            if (e.ev != NONE) o << "[ev" << e.ev << "]";
            if (e.cond >= 0) o << "[c" << e.cond << "==" << e.exp << "]";
        }
        for (size_t i = 0; i < hist.size(); ++i) {
            o << " | H" << i << (hist[i].deep ? " deep" : " shallow") << " of " << sn(hist[i].parent);
            if (hist[i].def != NONE) o << " default " << sn(hist[i].def);
        }
        o << " | trans:";
        for (size_t i = 0; i < trans.size(); ++i) {
            auto& t = trans[i];
            o << " t" << i << ":" << sn(t.from) << (t.internal ? "~" : "-") << ">" << sn(t.to) << "@" << t.ev;
            if (t.cond >= 0) o << "[c" << t.cond << "==" << t.exp << "]";
        }
        for (auto& a : acts) {
            o << " | action " << sn(a.state) << (a.onEntry ? " entry " : " exit ");
            const char* k[] = {"START", "STOP", "RESTART", "TRANSITION"};
            o << k[a.kind];
            for (int x : a.args) o << " " << x;
        }
        for (auto& c : regCalls) o << " | call " << (c.entry ? "registerSubstateEntryPoint(" : "registerSubstate(") << sn(c.parent) << "," << sn(c.child) << ")" << (c.accept ? "" : " to be refused");
        for (auto& e : emits) o << " | emit at k" << int(e.kind) << "/" << e.id << " ev" << e.ev << (e.clear ? " clear" : "");
        return o.str();
    }
};

struct Ev { int ev; int mask; };
using Veto = std::pair<uint8_t, int>;  // (K_EXIT|K_ENTER, state)
struct Step {
    std::vector<Ev> burst;       // sent before anything is processed; size 1 => synchronous
    std::vector<Veto> vetoes;
    bool sync = true;
    int query = NONE;            // isTransitionPossible(query) asked before processing (after queueing the burst)
    int qmask = 0;
    std::string str() const {
        std::ostringstream o;
        o << (sync ? "sync" : "async");
        for (auto& e : burst) o << " ev" << e.ev << "(mask=" << e.mask << ")";
        if (query != NONE) o << " query ev" << query << "(mask=" << qmask << ")";
        for (auto& v : vetoes) o << " veto " << (v.first == K_EXIT ? "exit " : "enter ") << char('A' + v.second);
        return o.str();
    }
};

struct Rec {
    uint8_t k; int a; int b; int c = 0;   // b: args tag (-1 none)
    bool operator==(const Rec& o) const { return k == o.k && a == o.a && b == o.b && c == o.c; }
    bool operator<(const Rec& o) const { return std::tie(k, a, b, c) < std::tie(o.k, o.a, o.b, o.c); }
};
using Trace = std::vector<Rec>;

inline std::string recStr(const Rec& r) {
    std::ostringstream o;
    auto sn = [&](int s) { return std::string(1, char('A' + s)); };
    switch (r.k) {
        case K_EXIT: o << "exit(" << sn(r.a) << ")"; break;
        case K_TRANS: o << "trans(t" << r.a << ")"; break;
        case K_ENTER: o << "enter(" << sn(r.a) << ")"; break;
        case K_CHANGED: o << "changed(" << sn(r.a) << ")"; break;
        case K_HCB: o << "histcb(H" << r.a << ")"; break;
        case K_FAILED: o << "failed(ev" << r.a << ",active=0x" << std::hex << r.c << std::dec << ")"; break;
        case K_TSTART: o << "startTimer(s" << r.a << "," << r.c << ")"; break;
        case K_TSTOP: o << "stopTimer(" << r.c << ")"; break;
        case K_TRESTART: o << "restartTimer(" << r.c << ")"; break;
        default: o << "BAD(" << r.a << "," << r.c << ")";
    }
    if (r.b >= 0) o << "#" << r.b;
    return o.str();
}
inline std::string traceStr(const Trace& t) { std::string s; for (auto& r : t) s += recStr(r) + " "; return s; }
inline std::string setStr(uint32_t m) { std::string s = "{"; for (int i = 0; i < 26; ++i) if (m >> i & 1) s += char('A' + i); return s + "}"; }

struct Outcome {
    Trace trace;
    uint32_t active = 0;
    bool result = false;      // of a synchronous step
    bool query = false;
    int ahead = -1;           // what a query behind pending events has to answer, -1: not said
};
