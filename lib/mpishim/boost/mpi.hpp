// A controlled message-passing world with the interface of Boost.MPI that the distributed states use.
// Ranks are coroutines; every operation is a scheduling point at which the explorer picks the next rank, messages
// are buffered, and collectives are matched per communicator: ranks of one communicator must make the same sequence
// of collective calls (operation, root, type), otherwise the run is reported; so is a deadlock.
#pragma once
#include "mc.hpp"
#include <boost/any.hpp>
#include <boost/version.hpp>
#include <ucontext.h>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <typeinfo>
#include <vector>
// Boost.MPI pulls these in
#include <boost/range.hpp>
#include <boost/range/has_range_iterator.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/range/algorithm/copy.hpp>
#include <boost/utility/enable_if.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/vector.hpp>

namespace mcmpi {
struct Coll { std::string what; int root; const std::type_info *type; std::vector<boost::any> in; std::vector<char> entered; int n = 0; };
struct Msg { int tag; boost::any v; std::shared_ptr<bool> taken; };
struct Comm { int id; std::vector<int> members; std::vector<size_t> seq; std::deque<Coll> colls; std::map<std::pair<int, int>, std::deque<Msg>> box; };
struct Rank { ucontext_t ctx; std::vector<char> stack; bool done = false; std::function<bool()> ready; std::string waits; };
struct World {
    std::vector<Rank> r; int cur = -1; ucontext_t main; std::exception_ptr err; std::shared_ptr<Comm> world; std::function<void(int)> body; int ncomm = 0;
    bool exhaustive = true; int policy = 0; bool sync = false; unsigned long ops = 0; std::vector<std::shared_ptr<Comm>> comms;
};
inline World *&W() { static World *w = nullptr; return w; }
inline int me() { return W()->cur; }
inline void yield_until(const std::string &what, std::function<bool()> p) { World &w = *W(); Rank &r = w.r[w.cur]; r.ready = p; r.waits = what; ++w.ops; swapcontext(&r.ctx, &w.main); }
inline void pause(const std::string &what) { yield_until(what, [] { return true; }); }
inline void tramp() {
    World &w = *W();
    try { w.body(w.cur); } catch (...) { if (!w.err) w.err = std::current_exception(); }
    w.r[w.cur].done = true; swapcontext(&w.r[w.cur].ctx, &w.main);
}
inline void prepare(World &w, int n) {
    w.r.resize(n); w.world = std::make_shared<Comm>(); w.world->id = 0; for (int i = 0; i < n; i++) w.world->members.push_back(i); w.world->seq.assign(n, 0);
}
inline void run(World &w, int n, std::function<void(int)> body) {
    prepare(w, n); w.body = body; W() = &w;
    for (int i = 0; i < n; i++) { Rank &r = w.r[i]; r.stack.resize(256 * 1024); getcontext(&r.ctx); r.ctx.uc_stack.ss_sp = r.stack.data(); r.ctx.uc_stack.ss_size = r.stack.size(); r.ctx.uc_link = nullptr; makecontext(&r.ctx, (void (*)())tramp, 0); r.ready = [] { return true; }; }
    struct Off { ~Off() { W() = nullptr; } } off; int last = 0;
    for (;;) {
        std::vector<int> opt; bool live = false;
        auto add = [&](int i) { if (!w.r[i].done) { live = true; if (w.r[i].ready()) opt.push_back(i); } };
        for (int k = 0; k < n; k++) add(w.policy == 0 ? (last + k) % n : w.policy == 1 ? (last + 1 + k) % n : n - 1 - k);
        if (!live) break;
        if (opt.empty()) { std::string s; for (int i = 0; i < n; i++) s += (i ? ", " : "") + std::string("rank ") + std::to_string(i) + (w.r[i].done ? " has finished" : " waits for " + w.r[i].waits); mc::fail("deadlock", "no rank can continue: ", s); }
        mc::transition(); int i = opt.size() > 1 ? (w.exhaustive ? mc::choose(opt.size()) : mc::deviate(opt.size())) : 0;
        w.cur = last = opt[i]; swapcontext(&w.main, &w.r[w.cur].ctx);
        if (w.err) { auto e = w.err; w.err = nullptr; std::rethrow_exception(e); }
    }
    for (auto &c : w.comms) { for (auto &b : c->box) if (!b.second.empty()) mc::fail("message-lost", "a message from rank ", b.first.first, " to rank ", b.first.second, " is never received"); }
    for (auto &b : w.world->box) if (!b.second.empty()) mc::fail("message-lost", "a message from rank ", b.first.first, " to rank ", b.first.second, " is never received");
}
} // namespace mcmpi

namespace boost { namespace mpi {
const int any_source = -1, any_tag = -1;
enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
struct status { int s = 0, t = 0; int source() const { return s; } int tag() const { return t; } int error() const { return 0; } };
class request {
public:
    std::function<bool()> test_; std::function<void()> finish; std::string what; bool over = true;
    status wait() { if (!over) { auto t = test_; mcmpi::yield_until(what, t); finish(); over = true; } return status(); }
    boost::optional<status> test() { mcmpi::pause("test"); if (over || test_()) { if (!over) { finish(); over = true; } return status(); } return boost::none; }
    void cancel() { over = true; }
};
class communicator {
public:
    std::shared_ptr<mcmpi::Comm> c;
    communicator() : c(mcmpi::W() ? mcmpi::W()->world : nullptr) {}
    explicit communicator(std::shared_ptr<mcmpi::Comm> q) : c(q) {}
    int rank() const { for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == mcmpi::me()) return (int)i; mc::fail("not-a-member", "rank ", mcmpi::me(), " uses a communicator it does not belong to"); return -1; }
    int size() const { return (int)c->members.size(); }
    bool operator==(const communicator &o) const { return c == o.c; }
    bool operator!=(const communicator &o) const { return c != o.c; }
    operator bool() const { return (bool)c; }
    template <class T> request isend(int dest, int tag, const T &v) const {
        mcmpi::pause("isend"); c->box[{rank(), dest}].push_back({tag, boost::any(v), std::make_shared<bool>(false)}); return request();
    }
    template <class T> void send(int dest, int tag, const T &v) const {
        mcmpi::pause("send"); auto f = std::make_shared<bool>(false); c->box[{rank(), dest}].push_back({tag, boost::any(v), f});
        if (mcmpi::W()->sync) mcmpi::yield_until("its message to be received", [f] { return *f; });
    }
    template <class T> request irecv(int src, int tag, T &v) const {
        mcmpi::pause("irecv"); request r; r.over = false; r.what = "a message from rank " + std::to_string(src); auto cc = c; int me = rank(); T *p = &v;
        auto find = [cc, me, src, tag]() -> std::deque<mcmpi::Msg>::iterator { auto &q = cc->box[{src, me}]; auto i = q.begin(); while (i != q.end() && tag != any_tag && i->tag != tag) ++i; return i; };
        r.test_ = [cc, me, src, find] { return find() != cc->box[{src, me}].end(); };
        r.finish = [cc, me, src, p, find] { auto i = find(); if (i->v.type() != typeid(T)) mc::fail("message-type", "a received message has another type than was sent"); *p = boost::any_cast<T>(i->v); *i->taken = true; cc->box[{src, me}].erase(i); };
        return r;
    }
    template <class T> status recv(int src, int tag, T &v) const { return irecv(src, tag, v).wait(); }
    void barrier() const;
    communicator split(int color) const;
};
template <class T> struct maximum { const T &operator()(const T &a, const T &b) const { return a < b ? b : a; } };
template <class T> struct minimum { const T &operator()(const T &a, const T &b) const { return a < b ? a : b; } };
template <class T> struct bitwise_and { T operator()(const T &a, const T &b) const { return a & b; } };
template <class T> struct bitwise_or { T operator()(const T &a, const T &b) const { return a | b; } };
template <class T> struct bitwise_xor { T operator()(const T &a, const T &b) const { return a ^ b; } };
template <class T> struct logical_xor { T operator()(const T &a, const T &b) const { return (a || b) && !(a && b); } };
namespace detail {
// join the next collective of this communicator; returns its record
template <class T> mcmpi::Coll &enter(const communicator &cm, const char *what, int root, const boost::any &in) {
    mcmpi::pause(what); mcmpi::Comm &c = *cm.c; int r = cm.rank(); size_t k = c.seq[r]++;
    while (c.colls.size() <= k) { c.colls.push_back(mcmpi::Coll()); }
    mcmpi::Coll &x = c.colls[k];
    if (x.n == 0) { x.what = what; x.root = root; x.type = &typeid(T); x.in.resize(c.members.size()); x.entered.assign(c.members.size(), 0); }
    else if (x.what != what || x.root != root || *x.type != typeid(T)) mc::fail("collective-mismatch", "collective number ", k, " is ", x.what, " (root ", x.root, ") on one rank and ", what, " (root ", root, ") on rank ", r);
    x.in[r] = in; x.entered[r] = 1; ++x.n; return x;
}
inline void all(mcmpi::Coll &x, const char *what) { mcmpi::Coll *p = &x; mcmpi::yield_until(std::string("all ranks in ") + what, [p] { return p->n == (int)p->entered.size(); }); }
inline void one(mcmpi::Coll &x, int r, const char *what) { mcmpi::Coll *p = &x; mcmpi::yield_until(std::string("rank ") + std::to_string(r) + " in " + what, [p, r] { return p->entered[r]; }); }
inline void optional_all(mcmpi::Coll &x, const char *what) { if (mcmpi::W()->sync) all(x, what); }
} // namespace detail
inline void communicator::barrier() const { detail::all(detail::enter<int>(*this, "barrier", -1, boost::any(0)), "barrier"); }
inline communicator communicator::split(int color) const {
    mcmpi::Coll &x = detail::enter<int>(*this, "split", -1, boost::any(color)); detail::all(x, "split"); int r = rank();
    // the first member of a colour to get here makes the communicator
    auto &w = *mcmpi::W(); std::vector<int> m; for (size_t i = 0; i < c->members.size(); i++) if (boost::any_cast<int>(x.in[i]) == color) m.push_back(c->members[i]); (void)r;
    for (auto &q : w.comms) if (q->members == m && q->id >= 0 && q->seq.size() == m.size()) { bool used = false; for (auto s : q->seq) if (s) used = true; (void)used; return communicator(q); }
    auto q = std::make_shared<mcmpi::Comm>(); q->id = ++w.ncomm; q->members = m; q->seq.assign(m.size(), 0); w.comms.push_back(q); return communicator(q);
}
template <class T, class Op> T all_reduce(const communicator &c, const T &v, Op op) {
    mcmpi::Coll &x = detail::enter<T>(c, "all_reduce", -1, boost::any(v)); detail::all(x, "all_reduce");
    T a = boost::any_cast<T>(x.in[0]); for (int i = 1; i < c.size(); i++) a = op(a, boost::any_cast<T>(x.in[i])); return a;
}
template <class T, class Op> void all_reduce(const communicator &c, const T &v, T &out, Op op) { T r = all_reduce(c, v, op); out = r; }
template <class T, class Op> void reduce(const communicator &c, const T &v, T &out, Op op, int root) {
    mcmpi::Coll &x = detail::enter<T>(c, "reduce", root, boost::any(v));
    if (c.rank() == root) { detail::all(x, "reduce"); T a = boost::any_cast<T>(x.in[0]); for (int i = 1; i < c.size(); i++) a = op(a, boost::any_cast<T>(x.in[i])); out = a; } else detail::optional_all(x, "reduce");
}
template <class T, class Op> void reduce(const communicator &c, const T &v, Op op, int root) { T dummy = v; reduce(c, v, dummy, op, root); }
template <class T> void broadcast(const communicator &c, T &v, int root) {
    mcmpi::Coll &x = detail::enter<T>(c, "broadcast", root, boost::any(v)); if (c.rank() != root) { detail::one(x, root, "broadcast"); v = boost::any_cast<T>(x.in[root]); } else detail::optional_all(x, "broadcast");
}
template <class T> void scatter(const communicator &c, const std::vector<T> &in, T &out, int root) {
    mcmpi::Coll &x = detail::enter<T>(c, "scatter", root, boost::any(in)); if (c.rank() != root) detail::one(x, root, "scatter"); else detail::optional_all(x, "scatter");
    auto v = boost::any_cast<std::vector<T>>(x.in[root]); if ((int)v.size() < c.size()) mc::fail("scatter-size", "scatter from a vector of ", v.size(), " values over ", c.size(), " ranks"); out = v[c.rank()];
}
template <class T> void scatter(const communicator &c, T &out, int root) { scatter(c, std::vector<T>(), out, root); }
template <class T> void gather(const communicator &c, const T &in, std::vector<T> &out, int root) {
    mcmpi::Coll &x = detail::enter<T>(c, "gather", root, boost::any(in));
    if (c.rank() == root) { detail::all(x, "gather"); out.clear(); for (int i = 0; i < c.size(); i++) out.push_back(boost::any_cast<T>(x.in[i])); } else detail::optional_all(x, "gather");
}
template <class T> void gather(const communicator &c, const T &in, int root) { std::vector<T> o; gather(c, in, o, root); }
template <class T> void all_gather(const communicator &c, const T &in, std::vector<T> &out) { mcmpi::Coll &x = detail::enter<T>(c, "all_gather", -1, boost::any(in)); detail::all(x, "all_gather"); out.clear(); for (int i = 0; i < c.size(); i++) out.push_back(boost::any_cast<T>(x.in[i])); }
class environment { public: environment() {} environment(int &, char **&) {} };
}} // namespace boost::mpi
