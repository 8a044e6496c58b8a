// C16 (call variants), C17 (history), C18 (copies), C19 (sizes) over all steppers.
#include "zoo_list.hpp"
template <class A> struct Run { typedef typename A::T T; typedef typename A::stepper S; typedef typename A::V V; };

static const double DTS[] = {0.1, -0.07};


static int seq_depth(int ops) { return ops > 4 ? 3 : (ops > 2 ? 4 : 10); }
static bool thorough() { return mc::E().tier == "thorough"; }
template <class A, class V> std::string setting(const char* name, int which, size_t n, double dt) { return mc::fmt(name, " start ", which, " size ", n, " dt ", dt); }

// C16 ---------------------------------------------------------------------------------------------
// Every sequence of call variants on one stepper, the plain in-place call every time on a twin:
// after each step everything both return must agree.
template <class A, class W> void c16(const char* name) {
    typedef typename A::T T; typedef typename A::stepper S; typedef typename A::V V;
    int which = mc::choose(3); size_t n = mc::choose(2) ? 3 : 1; int di = mc::choose(A::controlled() ? 4 : 2); double dt = di < 2 ? DTS[di] * (A::err_op() >= 0 && A::ops() != 4 ? 5 : 1) : (di == 2 ? 2.5 : -1.7);
    int depth = seq_depth(A::ops()) + (thorough() ? 1 : 0);
    T a = start<V>(which, n, dt), b = a; S s = A::make(), r = A::make();
    A::restart(s, a); A::restart(r, b);
    std::string seq; int ref = A::err_op() >= 0 ? A::err_op() : 0;
    for (int i = 0; i < depth; i++) {
        int k = mc::choose(A::ops()); if (i == 0) mc::shard_point();
        seq += char('0' + k); mc::ctx(setting<A, V>(name, which, n, dt) + " system by " + W::name() + " variants " + seq);
        Obs oa, ob; double t0 = a.t, h = a.dt; reset_calls();
        A::template op<W>(s, k, a, oa);
        Calls c = calls(); double lo = std::min(t0, t0 + h) - 1e-9, hi = std::max(t0, t0 + h) + 1e-9;
        MC_CHECK(c.n == 0 || (c.tmin >= lo && c.tmax <= hi), mc::fmt("system-called-outside-step:", name), "system called at times ", c.tmin, "..", c.tmax, " in a step from ", t0, " to ", t0 + h);
        A::template op<by_value>(r, ref, b, ob);
        size_t m = std::min(oa.size(), ob.size());
        for (size_t j = 0; j < m; j++) MC_CHECK(mc::close(oa[j], ob[j], 1e-11), mc::fmt("variant-differs:", name, ":", k), "variant ", k, " gives ", mc::show(oa), ", variant ", ref, " gives ", mc::show(ob));
        mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx)); for (double d : oa) mc::outcome(mc::hash_double(d));
    }
}

// C17 ---------------------------------------------------------------------------------------------
// Any history of other calls (other system, states, sizes of step, rejections), then the documented
// restart, then every continuation: bitwise the same as a fresh stepper.
template <class A> void c17(const char* name) {
    typedef typename A::T T; typedef typename A::stepper S; typedef typename A::V V;
    size_t n = 2; int jw = 1 + mc::choose(2); int jd = mc::choose(3); double jdt = jd == 0 ? 0.13 : (jd == 1 ? -0.21 : (std::string(name) == "implicit_euler" ? 0.31 : 2.5));   // 2.5: Newton iteration diverges
    int maxj = (A::ops() > 4 ? 2 : (A::ops() > 2 ? 3 : 7)) + (thorough() ? 1 : 0), cont = A::ops() > 4 ? 2 : (A::ops() > 2 ? 2 : 3);
    int longest = A::ops() > 2 ? 0 : 6;   // multistep methods need a longer continuation to show their history
    int jl = 1 + mc::choose(maxj); double dt = DTS[mc::choose(2)]; mc::shard_point();
    S s = A::make(), f = A::make();
    T j = start<V>(jw, n, jdt); if (A::dense()) A::restart(s, j);
    std::string seq;
    for (int i = 0; i < jl; i++) { int k = mc::choose(A::ops()); seq += char('0' + k); mc::ctx(setting<A, V>(name, jw, n, jdt) + " history " + seq); Obs o; A::template op<by_value>(s, k, j, o); }
    int how = A::memory() ? (std::string(name) == "dopri5" || std::string(name) == "controlled_dopri5" ? mc::choose(2) : 0) : 0;   // 1: no restart, derivative given explicitly
    T a = start<V>(0, n, dt), b = a;
    int way = how == 0 && A::restarts() > 1 ? mc::choose(A::restarts()) : 0;
    if (way) { A::restart_as(s, a, way); A::restart_as(f, b, way); Obs oa, ob; put_traj(oa, a); put_traj(ob, b); mc::ctx(setting<A, V>(name, jw, n, jdt) + " history " + seq + mc::fmt(" initialize ", way)); MC_CHECK(same_obs(oa, ob), mc::fmt("history-leaks:", name), "initialize gives ", mc::show(oa), ", with a new one ", mc::show(ob)); }
    else if (how == 0) { A::restart(s, a); A::restart(f, b); }
    seq += how ? " then derivative given, " : (way ? mc::fmt(" initialize(", way, ") ") : std::string(" restart "));
    for (int i = 0; i < cont + longest; i++) {
        int k = i < cont ? mc::choose(A::ops()) : 0; if (how == 1 && i == 0 && !(k & 1)) return;
        seq += char('0' + k); mc::ctx(setting<A, V>(name, jw, n, jdt) + mc::fmt(" dt afterwards ", dt, " history ") + seq);
        Obs oa, ob; A::template op<by_value>(s, k, a, oa); A::template op<by_value>(f, k, b, ob); mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx));
        MC_CHECK(same_obs(oa, ob), mc::fmt("history-leaks:", name), "after the history the stepper gives ", mc::show(oa), ", a new one gives ", mc::show(ob));
        for (double d : oa) mc::outcome(mc::hash_double(d));
    }
}

template <class S> void assign(S& a, const S& b, std::true_type) { a = b; }
template <class S> void assign(S&, const S&, std::false_type) {}
template <class S> void assign(S& a, const S& b) { assign(a, b, typename std::is_copy_assignable<S>::type()); }
// C18 ---------------------------------------------------------------------------------------------
template <class A> void c18(const char* name) {
    typedef typename A::T T; typedef typename A::stepper S; typedef typename A::V V;
    size_t n = 2; int dj = mc::choose(2); double dt = dj == 0 ? 0.1 : (A::controlled() ? 2.0 : -0.07);
    int mode = mc::choose(8); if (!std::is_copy_assignable<S>::value && (mode == 1 || mode == 2 || mode == 3 || mode == 5)) return; static const int PL[] = {0, 1, 2, 3, 4, 9, 12}; int pl = A::ops() > 2 ? mc::choose((A::ops() > 4 ? 3 : 4) + (thorough() ? 1 : 0)) : PL[mc::choose(thorough() ? 7 : 6)]; int inter = mc::choose(4); mc::shard_point();
    static const char* modes[] = {"copy-construct", "assign to fresh", "assign to used", "self-assign", "copy, destroy original", "assign from temporary", "relocate in vector", "copy of copy"};
    T a = start<V>(0, n, dt);
    std::unique_ptr<S> o(new S(A::make())); S twin = A::make(); T tw = a;
    A::restart(*o, a); A::restart(twin, tw);
    std::string seq;
    for (int i = 0; i < pl; i++) { int k = i < pl - 4 ? 0 : mc::choose(A::ops()); seq += char('0' + k); mc::ctx(setting<A, V>(name, 0, n, dt) + " history " + seq); Obs x, y; A::template op<by_value>(*o, k, a, x); A::template op<by_value>(twin, k, tw, y); }
    std::unique_ptr<S> c; T b = a;
    auto junk = [&](S& s, int steps) { T q = start<V>(1, 3, 0.2); A::restart(s, q); for (int i = 0; i < steps; i++) { Obs x; A::template op<by_value>(s, 0, q, x); } };
    seq += std::string(" ") + modes[mode] + " "; mc::ctx(setting<A, V>(name, 0, n, dt) + " history " + seq);
    switch (mode) {
        case 0: c.reset(new S(*o)); break;
        case 1: c.reset(new S(A::make())); assign(*c, *o); break;
        case 2: c.reset(new S(A::make())); { T q = start<V>(1, n, 0.2); A::restart(*c, q); for (int i = 0; i < 2; i++) { Obs x; A::template op<by_value>(*c, 0, q, x); } } assign(*c, *o); break;
        case 3: c.reset(new S(*o)); { S& al = *c; assign(*c, al); } break;
        case 4: c.reset(new S(*o)); o.reset(); break;
        case 5: c.reset(new S(A::make())); { S tmp(*o); assign(*c, tmp); } break;
        case 6: { std::vector<S> v; v.push_back(*o); v.push_back(*o); v.push_back(*o); v.push_back(A::make()); v.push_back(A::make()); c.reset(new S(v[1])); break; }
        case 7: { std::unique_ptr<S> m(new S(*o)); c.reset(new S(*m)); m.reset(); break; }
    }
    // interleavings: 0 copy only, 1 original first, 2 copy first, 3 disturb the original (other problem, other size, then destroy)
    int L = (A::ops() > 2 ? 1 : 2) + (thorough() ? 1 : 0); T at = tw;   // at: twin trajectory for original's continuation
    for (int i = 0; i < L + (A::ops() > 2 ? 1 : 5); i++) {
        int k = i < L ? mc::choose(A::ops()) : 0; seq += char('0' + k); mc::ctx(setting<A, V>(name, 0, n, dt) + mc::fmt(" interleaving ", inter, " history ") + seq);
        Obs oo, oc, ot; bool do_o = o && (inter == 1 || inter == 2);
        if (o && inter == 3 && i == 0) { if (A::resizes_itself()) { T q = start<V>(1, n, 0.2); A::restart(*o, q); Obs x; A::template op<by_value>(*o, 0, q, x); } o.reset(); }
        if (do_o && inter == 1) A::template op<by_value>(*o, k, a, oo);
        A::template op<by_value>(*c, k, b, oc);
        if (do_o && inter == 2) A::template op<by_value>(*o, k, a, oo);
        A::template op<by_value>(twin, k, tw, ot); mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx));
        MC_CHECK(same_obs(oc, ot), mc::fmt("copy-differs:", name), "the copy gives ", mc::show(oc), ", the stepper never copied gives ", mc::show(ot));
        if (do_o) MC_CHECK(same_obs(oo, ot), mc::fmt("original-disturbed:", name), "the original gives ", mc::show(oo), ", the stepper never copied gives ", mc::show(ot));
        for (double d : oc) mc::outcome(mc::hash_double(d));
    }
    (void)junk; (void)at;
}

// C19 ---------------------------------------------------------------------------------------------
#ifndef POLICY
#define POLICY 0
#endif
// POLICY 0: initially_resizer (adjust_size called at every change), 1: always_resizer (nothing
// called), 2: never_resizer (adjust_size called before the first use and at every change)
template <class A> void c19(const char* name) {
    typedef typename A::T T; typedef typename A::stepper S; typedef typename A::V V;
    static const size_t sizes[] = {1, 2, 3, 5};
    if (POLICY != 1 && !A::adjustable()) { mc::count("steppers without adjust_size"); return; }
    S s = A::make(); std::string seq; size_t cur = 0;
    int segs = 2 + mc::choose(A::ops() > 4 && !thorough() ? 1 : 2), L = A::ops() > 2 ? 2 : 3; double dt = A::controlled() && mc::choose(2) ? 2.0 : 0.1;
    for (int g = 0; g < segs; g++) {
        size_t n = sizes[mc::choose(4)]; if (n == cur) return; if (g == 1) mc::shard_point(); 
        T a = start<V>(g % 3, n, dt), b = a; S f = A::make();
        seq += mc::fmt(" n=", n, ":"); mc::ctx(std::string(name) + mc::fmt(" policy ", POLICY) + seq);
        if (POLICY == 2) { A::resize(s, a.x); A::resize(f, b.x); }
        if (POLICY == 0 && cur) A::resize(s, a.x);
        cur = n;
        // a change of size starts a new problem, so steppers with documented memory are restarted
        int way = A::restarts() > 1 && g == segs - 1 ? mc::choose(A::restarts()) : 0;
        if (way) { seq += mc::fmt("init", way, ":"); A::restart_as(s, a, way); A::restart_as(f, b, way); }
        else if (A::memory() && !(POLICY == 1 && A::self_restart())) { A::restart(s, a); A::restart(f, b); if (POLICY == 2) { A::resize(s, a.x); A::resize(f, b.x); } }
        int more = POLICY == 1 && A::self_restart() && A::ops() > 2 && g != segs - 1 ? mc::choose(2) : 0;   // both parities of the number of steps before a change
        for (int i = 0; i < L + (A::ops() > 2 ? more : 3); i++) {
            int k = i < L && (g == segs - 1 || i == 0) ? mc::choose(A::ops()) : 0;
            seq += char('0' + k); mc::ctx(std::string(name) + mc::fmt(" policy ", POLICY) + seq);
            Obs oa, ob; A::template op<by_value>(s, k, a, oa); A::template op<by_value>(f, k, b, ob); mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx));
            MC_CHECK(same_obs(oa, ob), mc::fmt("resize-differs:", name), "after the size change the stepper gives ", mc::show(oa), ", a new one gives ", mc::show(ob));
            for (double d : oa) mc::outcome(mc::hash_double(d));
        }
    }
}

int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B;
#if defined(P16)
#define X(n, ...) { typedef __VA_ARGS__ AD; if (!AD::dense()) { B.push_back({std::string(n) + ".value", [] { c16<AD, by_value>(n); }}); B.push_back({std::string(n) + ".ref", [] { c16<AD, by_ref>(n); }}); } }
#elif defined(P17)
#define X(n, ...) { typedef __VA_ARGS__ AD; B.push_back({n, [] { c17<AD>(n); }}); }
#elif defined(P18)
#define X(n, ...) { typedef __VA_ARGS__ AD; B.push_back({n, [] { c18<AD>(n); }}); }
#elif defined(P19)
#define X(n, ...) { typedef __VA_ARGS__ AD; B.push_back({n, [] { c19<AD>(n); }}); }
#endif
    STEPPERS(X)
    return mc::run_main(argc, argv, B);
}
