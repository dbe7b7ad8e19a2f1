#pragma once
#include "common.h"
#include <set>
// element that records its construction state
struct Tr
{
    static inline std::set<Tr const*> alive; static inline long made = 0, gone = 0;
    long v; long* heap; bool moved = false;
    void born() { made++; check(alive.insert(this).second, "constructed over a live object"); heap = new long(v); }
    void use() const { check(alive.count(this), "use of an object that is not alive"); check(*heap == v, "object was copied bitwise"); }
    Tr() : v(0) { born(); }
    explicit Tr(long x) : v(x) { born(); }
    Tr(Tr const& r) : v(r.v) { r.use(); moved = r.moved; born(); }
    Tr(Tr&& r) : v(r.v) { r.use(); moved = r.moved; r.moved = true; r.setv(-1); born(); }
    void setv(long x) { v = x; *heap = x; }
    Tr& operator=(Tr const& r) { use(); r.use(); setv(r.v); moved = r.moved; return *this; }
    Tr& operator=(Tr&& r) { use(); r.use(); long x = r.v; bool m = r.moved; if (this != &r) { r.setv(-1); r.moved = true; } setv(x); moved = m; return *this; }
    ~Tr() { check(alive.erase(this) == 1, "destroyed an object that is not alive"); gone++; delete heap; }
    bool operator==(Tr const& r) const { use(); r.use(); return v == r.v; }
    bool operator!=(Tr const& r) const { return !(*this == r); }
};
inline void allGone(char const* where) { check(Tr::alive.empty(), std::string(where) + ": objects were never destroyed"); check(Tr::made == Tr::gone, std::string(where) + ": constructions and destructions differ"); }
