// L01: the debug log of every run, parsed and compared with what the callbacks saw.
#pragma once
#include <cstring>
#include <fstream>
#include <unistd.h>

struct LogEntry {
    std::string action, from, to, event, status; std::vector<std::string> active, args;
    bool operator==(const LogEntry& o) const { return action == o.action && from == o.from && to == o.to && event == o.event && status == o.status && active == o.active && args == o.args; }
    std::string str() const {
        std::string s = action + (status.empty() ? "" : " " + status) + " <" + from + "> -> <" + to + "> " + event + " active{";
        for (auto& a : active) s += a; s += "} args(";
        for (auto& a : args) s += a + " "; return s + ")";
    }
};
// strict: exactly the layout of the documented fields, nothing else. error empty = fine
inline std::vector<LogEntry> parseLog(const std::string& text, size_t from, bool first, std::string& error) {
    std::vector<LogEntry> out;
    std::vector<std::string> lines; std::string cur;
    for (size_t i = from; i < text.size(); ++i) { if (text[i] == '\n') { lines.push_back(cur); cur.clear(); } else cur += text[i]; }
    if (!cur.empty()) lines.push_back(cur);
    std::vector<std::string>* list = nullptr; int stage = 0;
    if (first) { if (lines.empty() || lines[0] != "---") { error = "log does not start with ---"; return out; } lines.erase(lines.begin()); }
    auto unq = [&](const std::string& v) -> std::string {
        if (v.size() >= 2 && v.front() == '"' && v.back() == '"') return v.substr(1, v.size() - 2);
        return v;
    };
    for (auto& l : lines) {
        if (l.find_first_not_of(' ') == std::string::npos) continue;
        if (l == "-") { if (stage != 0) { error = "incomplete entry"; return out; } out.emplace_back(); stage = 1; list = nullptr; continue; }
        if (out.empty()) { error = "line outside of an entry: " + l; return out; }
        LogEntry& e = out.back();
        if (l.compare(0, 6, "    - ") == 0) { if (!list) { error = "list item without list: " + l; return out; } list->push_back(unq(l.substr(6))); continue; }
        size_t c = l.find(':');
        if (l.compare(0, 2, "  ") != 0 || l[2] == ' ' || c == std::string::npos) { error = "not a field: " + l; return out; }
        std::string k = l.substr(2, c - 2), v = l.substr(c + 1);
        while (!v.empty() && v[0] == ' ') v.erase(0, 1);
        v = unq(v);
        list = nullptr;
        if (k == "timestamp") {
            static const char* pat = "dddd-dd-dd dd:dd:dd.ddd";
            bool ok = v.size() == strlen(pat);
            for (size_t i = 0; ok && i < v.size(); ++i) ok = pat[i] == 'd' ? isdigit(static_cast<unsigned char>(v[i])) != 0 : v[i] == pat[i];
            if (!ok) { error = "bad timestamp " + v; return out; }
        } else if (k == "active_states") list = &e.active;
        else if (k == "action") e.action = v; else if (k == "from_state") e.from = v; else if (k == "target_state") e.to = v; else if (k == "event") e.event = v;
        else if (k == "status") e.status = v; else if (k == "args") { list = &e.args; stage = 0; }
        else { error = "unknown field " + k; return out; }
    }
    if (stage != 0) error = "incomplete entry at the end";
    return out;
}

struct LogRun { Outcome o; std::vector<std::vector<int>> act; std::vector<LogEntry> log; std::vector<int> end; std::vector<Veto> vetoes; };

inline std::string sname(int s) { return s >= HBASE ? "H" + std::to_string(s - HBASE) : s >= 0 ? std::string(1, char('A' + s)) : std::string(); }
inline std::vector<std::string> snames(const std::vector<int>& v) { std::vector<std::string> r; for (int s : v) r.push_back(sname(s)); return r; }

// compares what was logged during one step with its callbacks; empty = fine
inline std::string compareLog(const Mach& m, const LogRun& r, int mask, bool startup) {
    const Trace& t = r.o.trace; const auto& L = r.log;
    for (auto& q : t) if (q.k == K_BAD) return "";        // endless run, cut off
    size_t p = 0;
    int lastEv = NONE, lastTag = -1; std::string direct; bool history = false, undone = false;
    auto args = [&](int tag) { std::vector<std::string> a; if (tag < 0) return a; if (tag >= 800) { for (auto& x : m.acts) if (x.kind == 3 && x.args.size() >= 3 && x.args[2] == tag) a = {std::to_string(x.args[1]), std::to_string(tag)}; return a; } a = {std::to_string(mask), std::to_string(tag), "s" + std::to_string(tag)}; return a; };
    auto skipIdle = [&]() -> std::string {
        while (p < L.size() && L[p].action == "idle") {
            if (!L[p].from.empty() || !L[p].to.empty() || !L[p].event.empty() || !L[p].status.empty() || !L[p].args.empty()) return "idle with details: " + L[p].str();
            ++p;
        }
        return "";
    };
    std::string err;
    auto expect = [&](const LogEntry& e) {
        if (!(err = skipIdle()).empty()) return false;
        if (p >= L.size()) { err = "log lacks " + e.str(); return false; }
        if (!(L[p] == e)) { err = "logged " + L[p].str() + ", happened " + e.str(); return false; }
        ++p; return true;
    };
    // history led to a state which is active already: a step without any callbacks
    auto skipReached = [&](int tag, const LogEntry* own = nullptr) {
        while (history && !(own && p < L.size() && L[p] == *own) && p < L.size() && L[p].action == "transition" && L[p].from.size() > 1 && L[p].from[0] == 'H' && std::find(L[p].active.begin(), L[p].active.end(), L[p].to) != L[p].active.end() && L[p].args == args(tag) && L[p].status.empty()) ++p;
    };
    auto evName = [&](int ev) { return "ev" + std::to_string(ev); };
    for (size_t i = 0; i < t.size(); ++i) {
        const Rec& q = t[i];
        const auto act = snames(r.act[i]);
        auto actions = [&](int s, bool entry) {        // actions of this state follow
            for (auto& a : m.acts) if (a.state == s && a.onEntry == entry) return true;
            return false;
        };
        bool veto = false;
        const bool starting = startup && lastEv == NONE;
        for (auto& v : r.vetoes) if (v.first == q.k && v.second == q.a) veto = true;
        if (q.k == K_TRANS) {
            const TransDef& d = m.trans[q.a];
            lastEv = d.ev; lastTag = q.b; direct = sname(d.to); if (d.to >= HBASE) history = true;
            if (!expect({"transition", sname(d.from), sname(d.to), evName(d.ev), "", act, args(q.b)})) return err;
        } else if (q.k == K_HCB) {
            direct = sname(m.hist[q.a].def >= 0 ? m.hist[q.a].def : m.hist[q.a].parent);   // no default: the parent itself
            if (!(err = skipIdle()).empty()) return err;
            const LogEntry own{"transition", sname(HBASE + q.a), direct, evName(lastEv), "", act, args(q.b)};
            skipReached(q.b, &own);
            if (!expect(own)) return err;
        } else if (q.k == K_EXIT) {
            if (veto) undone = true;
            if (!expect({"callback_exit", sname(q.a), "", "", veto ? "failed" : "", act, {}})) return err;
            if (!veto && actions(q.a, false) && !expect({"onexit_actions", "", sname(q.a), "", "", act, {}})) return err;
        } else if (q.k == K_ENTER) {
            const std::string s = sname(q.a);
            if (direct != s && !starting && !(undone && p < L.size() && L[p].action == "callback_enter")) {
                // entered by something else than a transition with a callback: that step is in the log as well
                LogEntry e{"transition_entrypoint", sname(m.parent[q.a]), s, evName(lastEv), "", act, args(q.b)};
                if (!(err = skipIdle()).empty()) return err;
                skipReached(q.b);
                bool ok = p < L.size() && L[p] == e;
                if (!ok && history) for (size_t h = 0; h < m.hist.size() && !ok; ++h) {
                    LogEntry f = e; f.action = "transition"; f.from = sname(HBASE + int(h));
                    if ((m.hist[h].parent == q.a || m.isSub(m.hist[h].parent, q.a)) && p < L.size() && L[p] == f) ok = true;
                }
                if (!ok) return "entry of " + s + " is not logged as a step of its own: " + (p < L.size() ? L[p].str() : "end of log") + ", happened " + e.str();
                ++p;
            } else if (starting && q.a != m.initial) {
                if (!(err = skipIdle()).empty()) return err;
                LogEntry e{"transition_entrypoint", sname(m.parent[q.a]), s, "", "", act, args(q.b)};
                if (p >= L.size() || L[p].action != "transition_entrypoint" || L[p].from != e.from || L[p].to != e.to || L[p].active != e.active) return "entry of " + s + " at start-up is not logged as a step of its own: " + (p < L.size() ? L[p].str() : "end of log");
                ++p;
            }
            direct.clear();
            if (veto) undone = true;
            if (!expect({"callback_enter", "", s, "", veto ? "failed" : "", act, args(q.b)})) return err;
            if (!veto && actions(q.a, true) && !expect({"onenter_actions", "", s, "", "", act, {}})) return err;
        } else if (q.k == K_CHANGED) {
            if (!expect({"callback_state", "", sname(q.a), "", "", act, args(q.b)})) return err;
        }
    }
    if (!(err = skipIdle()).empty()) return err;
    skipReached(lastTag);
    if (!(err = skipIdle()).empty()) return err;
    if (p < L.size()) return "logged although it did not happen: " + L[p].str();
    if (!L.empty() && L.back().action == "idle" && L.back().active != snames(r.end) && !startup) return "idle with wrong active states: " + L.back().str();
    if (!startup && lastEv != NONE && r.vetoes.empty()) { if (L.empty() || L.back().action != "idle") return "handled event does not end with idle"; }
    return "";
}

struct LogRunner {
    std::string file;
    std::vector<LogRun> run(const Mach& m, const std::vector<Step>& path, bool logged, std::string& err, std::vector<std::string>* raw = nullptr) {
        std::vector<LogRun> res;
        ::unlink(file.c_str());
        Drv d(m);
        if (logged && !d.hsm->enableHsmDebugging(file)) { err = "enableHsmDebugging() returned false"; return res; }
        size_t off = 0;
        auto fetch = [&](LogRun& r) {
            for (int x : d.hsm->getActiveStates()) r.end.push_back(x);
            if (!logged) return;
            std::ifstream f(file, std::ios::binary); std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            std::string e; r.log = parseLog(t, off, off == 0, e); off = t.size();
            if (!e.empty() && err.empty()) err = "log cannot be parsed: " + e;
        };
        for (size_t i = 0; i <= path.size(); ++i) {
            res.emplace_back(); LogRun& r = res.back();
            d.actAt = &r.act;
            if (i == 0) d.startup(r.o); else { r.vetoes = path[i - 1].vetoes; d.step(path[i - 1], 10 + 10 * int(i - 1), r.o); }
            fetch(r);
        }
        d.actAt = nullptr;
        if (logged) d.hsm->disableHsmDebugging();
        (void)raw;
        return res;
    }
};

inline void runLog(const std::string& fam, int tier, int part, int parts, long only, const std::string& dir, Stats& st, Violation& v, std::vector<std::string>& samples, Progress pr) {
    Family f = makeFamily(fam, tier);
    size_t stride = std::max<size_t>(1, f.jobs.size() / (tier ? 2400 : 480));
    LogRunner R; R.file = dir + "/" + fam + "_" + std::to_string(part) + ".hsmlog";
    for (size_t i = 0, k = 0; i < f.jobs.size() && !v.set; i += stride, ++k) {
        if (only >= 0 ? long(i) != only : int(k % parts) != part) continue;
        Mach m = f.jobs[i].m; m.emits.clear();
        const int silent = m.silent; m.silent = 0;
        ++st.machines;
        std::vector<Step> al;
        int masks = 1 << m.nConds;
        for (int e : m.stepEvents) for (int q = 0; q < (std::find(m.focusEvents.begin(), m.focusEvents.end(), e) != m.focusEvents.end() ? masks : 1); ++q) { Step s; s.burst = {{e, q}}; al.push_back(s); }
        int depth = tier ? (al.size() > 14 ? 2 : 3) : (al.size() > 30 ? 1 : 2);
        std::set<std::pair<std::vector<int>, std::vector<int>>> seen;
        std::function<void(std::vector<Step>&)> rec = [&](std::vector<Step>& path) {
            if (v.set) return;
            std::string text; for (auto& s : path) text += s.str() + " ; ";
            pr("job " + std::to_string(i) + " " + m.describe() + " :: " + text);
            std::string err;
            auto a = R.run(m, path, true, err), b = R.run(m, path, false, err);
            ++st.execs; st.transitions += 1; 
            const LogRun& x = a.empty() ? LogRun() : a.back();
            if (err.empty()) for (size_t n = 0; n < a.size(); ++n) if (a[n].o.trace != b[n].o.trace || a[n].end != b[n].end || a[n].o.result != b[n].o.result) err = "the log changes behaviour: [" + traceStr(a[n].o.trace) + "] instead of [" + traceStr(b[n].o.trace) + "]";
            if (err.empty()) err = compareLog(m, x, path.empty() ? 0 : path.back().burst[0].mask, path.empty());
            st.records += long(x.log.size());
            // without some kinds of callbacks: the same log without them
            if (err.empty() && silent && (path.empty() || path.back().vetoes.empty())) {
                Mach ms = m; ms.silent = silent & ~(1 << K_HCB);
                auto c = R.run(ms, path, true, err);
                auto drop = [&](std::vector<LogEntry> l) { l.erase(std::remove_if(l.begin(), l.end(), [&](const LogEntry& e) {
                    return (e.action == "callback_enter" && (silent >> K_ENTER & 1)) || (e.action == "callback_exit" && (silent >> K_EXIT & 1)) || (e.action == "callback_state" && (silent >> K_CHANGED & 1)); }), l.end()); return l; };
                if (err.empty() && !(drop(x.log) == c.back().log)) err = "callbacks which do not exist change the rest of the log";
                ++st.execs;
            }
            if (samples.size() < 2 && x.log.size() > 6 && path.size() >= 2) { std::string s = m.name + " :: " + text + " => "; for (auto& e : x.log) s += e.str() + " | "; samples.push_back(s); }
            if (!err.empty()) { v.set = true; v.mach = m.describe(); for (auto& s : path) v.path.push_back(s.str()); v.what = err; std::string l; for (auto& e : x.log) l += e.str() + " | "; v.what += "  LOG: " + l + "  CALLBACKS: " + traceStr(x.o.trace); return; }
            if (!path.empty() && !path.back().vetoes.empty()) { ++st.vetoSteps; return; }
            for (auto& q : x.o.trace) if (q.k == K_BAD) return;        // endless
            // every veto
            std::set<Veto> tried;
            if (!path.empty()) for (auto& q : x.o.trace) if ((q.k == K_EXIT || q.k == K_ENTER) && tried.insert({q.k, q.a}).second && !v.set) { Step keep = path.back(); path.back().vetoes = {{q.k, q.a}}; rec(path); path.back() = keep; }
            if (!seen.insert({x.end, path.empty() ? std::vector<int>{-1} : std::vector<int>{int(path.size()) , m.hist.empty() ? 0 : int(x.o.trace.size())}}).second) return;
            ++st.states;
            if (int(path.size()) < depth) for (auto& s : al) { path.push_back(s); rec(path); path.pop_back(); if (v.set) return; }
        };
        std::vector<Step> path; rec(path);
    }
    ::unlink(R.file.c_str());
}
