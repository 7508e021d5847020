#pragma once
#include "../engine/explore.hpp"
struct Entry { int id; Mach m; std::function<std::string(HierarchicalStateMachine*)> names; std::vector<std::pair<int, int>> timers; };
std::vector<Entry>& registry();
struct Reg {
    template <class C> Reg(int id, const Mach& m, std::string (C::*names)() const, std::vector<std::pair<int, int>> timers) {
        registry().push_back({id, m, [names](HierarchicalStateMachine* h) { return (static_cast<C*>(h)->*names)(); }, timers});
    }
};
template <class C> std::string namesOf(const C* c) { return c->names(); }
