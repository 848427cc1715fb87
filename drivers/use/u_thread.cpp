#include "use.hpp"
// Laws of the queue between two threads, of workers, pools and parallel loops. A started thread is run to completion at once: with the
// mutual exclusion decided separately, the work done does not depend on the interleaving.
namespace use_thread {
    using namespace vif::thread;
    void queue_fifo(double a, double b, double c) { lock_free_queue<double> q; expect(q.empty()); q.push(a); q.push(b); expect(!q.empty()); expect(q.size() == 2); double x = 0, y = 0, z = 0, w = 7; expect(q.pop(x)); expect(same(x, a)); q.push(c); expect(q.pop(y)); expect(q.pop(z)); expect(same(y, b)); expect(same(z, c)); expect(!q.pop(w)); expect(q.empty()); expect(q.size() == 0); }
    void queue_one(double a, double b) { lock_free_queue<double> q; double x = 0; expect(!q.pop(x)); q.push(a); expect(q.size() == 1); expect(q.pop(x)); expect(same(x, a)); expect(q.empty()); expect(!q.pop(x)); q.push(b); expect(q.pop(x)); expect(same(x, b)); }
    void queue_clear(double a, double b, double c) { lock_free_queue<double> q; q.push(a); q.push(b); double x = 0; q.pop(x); q.clear(); expect(q.empty()); expect(q.size() == 0); expect(!q.pop(x)); q.push(c); expect(q.size() == 1); expect(q.pop(x)); expect(same(x, c)); expect(q.empty()); }
    void queue_clear_full(double a, double b, double c) { lock_free_queue<double> q; q.push(a); q.push(b); q.push(c); q.clear(); expect(q.empty()); double x = 0; q.push(a); q.push(b); expect(q.pop(x)); expect(same(x, a)); expect(q.pop(x)); expect(same(x, b)); expect(!q.pop(x)); }
    void queue_steps(double a, double b, double c, double d) { lock_free_queue<double> q; double x = 0, y = 0; q.push(a); q.pop(x); q.push(b); q.pop(y); expect(same(x, a)); expect(same(y, b)); q.push(c); q.push(d); expect(q.size() == 2); q.pop(x); q.pop(y); expect(same(x, c)); expect(same(y, d)); expect(q.size() == 0); }
    void h_visit(uint_t nt, uint_t a, uint_t n, uint_t k) { parallel_for p(nt); p.chunk_size = k; expect(p.size() == nt); vec1u c(8); p.execute([&](uint_t i) { ++c[i]; }, a, a+n); for (uint_t i : range(c)) expect(c.safe[i] == (i >= a && i < a+n ? 1 : 0)); }
    void loop_visits_0(uint_t a, uint_t n) { a = each(a, 0, 1); n = each(n, 0, 6); h_visit(0, a, n, 0); }
    void loop_visits_1(uint_t a, uint_t n) { a = each(a, 0, 1); n = each(n, 0, 6); h_visit(1, a, n, 0); }
    void loop_visits_2(uint_t a, uint_t n) { a = each(a, 0, 1); n = each(n, 0, 6); h_visit(2, a, n, 0); }
    void loop_visits_3(uint_t a, uint_t n) { a = each(a, 0, 1); n = each(n, 0, 6); h_visit(3, a, n, 0); }
    void loop_visits_4(uint_t a, uint_t n) { a = each(a, 0, 1); n = each(n, 0, 6); h_visit(4, a, n, 0); }
    void loop_chunks_1(uint_t n, uint_t k) { n = each(n, 0, 6); k = each(k, 1, 3); h_visit(1, 0, n, k); }
    void loop_chunks_2(uint_t n, uint_t k) { n = each(n, 0, 6); k = each(k, 1, 3); h_visit(2, 0, n, k); }
    void loop_chunks_3(uint_t n, uint_t k) { n = each(n, 0, 6); k = each(k, 1, 3); h_visit(3, 0, n, k); }
    void loop_in_order(uint_t n) { n = each(n, 0, 4); parallel_for p(1); vec1u c; p.execute([&](uint_t i) { c.push_back(i); }, n); expect(c.size() == n); for (uint_t i : range(n)) expect(c.safe[i] == i); }
    void loop_again(uint_t nt, uint_t n) { nt = each(nt, 0, 3); n = each(n, 0, 4); parallel_for p(nt); vec1u c(8); p.execute([&](uint_t i) { ++c[i]; }, n); p.execute([&](uint_t i) { ++c[i]; }, n); for (uint_t i : range(c)) expect(c.safe[i] == (i < n ? 2 : 0)); }
    // the other extreme schedule: a thread does nothing before it is waited for
    void late_loop_1(uint_t n) { n = each(n, 0, 6); h_visit(1, 0, n, 0); }
    void late_loop_2(uint_t n) { n = each(n, 0, 6); h_visit(2, 0, n, 0); }
    void late_loop_3(uint_t a, uint_t n) { a = each(a, 0, 1); n = each(n, 0, 6); h_visit(3, a, n, 0); }
    void late_loop_again(uint_t nt, uint_t n) { nt = each(nt, 1, 3); n = each(n, 0, 4); parallel_for p(nt); vec1u c(8); p.execute([&](uint_t i) { ++c[i]; }, n); for (uint_t i : range(c)) expect(c.safe[i] == (i < n ? 1 : 0)); p.execute([&](uint_t i) { ++c[i]; }, n); for (uint_t i : range(c)) expect(c.safe[i] == (i < n ? 2 : 0)); }
    void late_thread(double a) { thread_t t; double b = 0; t.start([&]() { b = a; }); t.join(); expect(same(b, a)); }
    void late_pool(double a, double b) { pool_t p = pool(2); expect(p.size() == 2); double c = 0, d = 0; p[0].start([&]() { c = a; }); p[1].start([&]() { d = b; }); p[0].join(); p[1].join(); expect(same(c, a)); expect(same(d, b)); }
    void thread_args(double a) { thread_t t; double b = 0; t.start([&]() { b = a; }); t.join(); expect(same(b, a)); }
}
