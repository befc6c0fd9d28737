// Shared by the scenarios.
#pragma once
#include "../sim/rt.hpp"
#include <cstring>
#include <exception>
#include <ostream>
#include <set>
#include <stdexcept>
#include <system_error>

using sim::i64;
using sim::Op;
using sim::Plan;
using sim::Rng;
using sim::u32;
using sim::u64;

constexpr i64 US = 1'000, MS = 1'000'000, SEC = 1'000'000'000;

struct LogNull {
    static std::ostream& out()
    {
        static std::ostream o(nullptr);
        return o;
    }
    static std::ostream& trace() { return out(); }
    static std::ostream& debug() { return out(); }
    static std::ostream& warning() { return out(); }
    static std::ostream& error() { return out(); }
    static std::ostream& critical() { return out(); }
};

// A message whose copy is visible to the scheduler word by word and that owns memory:
// torn, stale, duplicated, leaked or doubly released values all show.
struct Msg {
    u64  prod = 0, seq = 0, check = 0;
    u64* box  = nullptr;
    static inline i64 live = 0;

    static u64 sum(u64 p, u64 s) { return (p * 0x9E3779B97F4A7C15ULL) ^ (s * 0xC2B2AE3D27D4EB4FULL) ^ 0x5bd1e995; }
    Msg() { ++live; }
    Msg(u64 p, u64 s) : prod(p), seq(s), check(sum(p, s)), box(new u64[2]{p, s}) { ++live; }
    Msg(Msg const& o) : prod(o.prod), seq(o.seq), check(o.check), box(o.box ? new u64[2]{o.box[0], o.box[1]} : nullptr) { ++live; }
    Msg(Msg&& o) noexcept : prod(o.prod), seq(o.seq), check(o.check), box(o.box)
    {
        o.box = nullptr;
        ++live;
    }
    Msg& operator=(Msg const& o)
    {
        if (this != &o) {
            u64* nb = o.box ? new u64[2]{o.box[0], o.box[1]} : nullptr;
            u64* ob = box;
            prod    = o.prod;
            seq     = o.seq;
            check   = o.check;
            box     = nb;
            delete[] ob;
        }
        return *this;
    }
    Msg& operator=(Msg&& o) noexcept
    {
        if (this != &o) {
            u64* ob = box;
            prod    = o.prod;
            seq     = o.seq;
            check   = o.check;
            box     = o.box;
            o.box   = nullptr;
            delete[] ob;
        }
        return *this;
    }
    ~Msg()
    {
        delete[] box;
        box = nullptr;
        --live;
    }
    bool intact() const { return check == sum(prod, seq) && box && box[0] == prod && box[1] == seq; }
};

// An object of a class derived from T that goes away through a pointer to a base: users derive from most of
// these classes and rely on that.
template <class T>
struct Derived : T {
    using T::T;
    ~Derived()
    {
        sim::Harness h;
        gone(this);
    }
    static inline T* alive[512];
    static bool      gone(T* p)
    {
        for (auto& a : alive)
            if (a == p) {
                a = nullptr;
                return true;
            }
        return false;
    }
};
template <class T, class... A>
T* make_derived(A&&... a)
{
    T* p = sim::make<Derived<T>>(std::forward<A>(a)...);
    for (auto& x : Derived<T>::alive)
        if (!x) {
            x = p;
            break;
        }
    return p;
}
template <class Base, class T>
void destroy_as(T* p)
{
    sim::tear_down([p] {
        sim::Sut u;
        static_cast<Base*>(p)->~Base();
    });
    if (Derived<T>::gone(p)) sim::fail("half-destroyed", "destroying an object through its base class left part of it alive");
    sim::arena_free(p);
}
