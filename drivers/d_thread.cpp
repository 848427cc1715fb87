#include "common.hpp"
#include <vif/math/optimize.hpp>
#include <vif/astro/catalog_merge.hpp>
struct wsp_t { vec1d tmp; explicit wsp_t(uint_t n) : tmp(n) {} };
void go() {
    thread::lock_free_queue<vec1d> q; vec1d v; q.push(v); q.push(vec1d()); (void)q.pop(v); (void)q.size(); (void)q.empty(); q.clear();
    thread::parallel_for pf0; thread::parallel_for pf(4); pf.execute([](uint_t) {}, 3, 10); pf.execute([](uint_t) {}, 10); (void)pf.size();
    thread::worker_pool<vec1d> wp(4, [](vec1d&) {}); wp.process(v); wp.process(2, v); wp.consume_all(); (void)wp.size(); (void)wp.remaining(); wp.join();
    thread::worker_pool<vec1d> wp0; wp0.start(4, [](vec1d&) {});
    thread::worker_pool<vec1d,wsp_t> wpw(4, [](wsp_t&, vec1d&) {}, 10u); wpw.process(v); wpw.process(2, v); wpw.consume_all(); (void)wpw.size(); (void)wpw.remaining(); wpw.join();
    auto pool = thread::pool(4); pool[0].start([](int) {}, 4); pool[0].join(); thread::thread_t t; t.start([]() {}); t.join(); thread::sleep_for(0.1);
    thread::worker w; w.push([]() {}); w.wait();
    minimize_params mp; (void)minimize_bfgs(mp, v, [](const vec1d& p, minimize_function_output) { return p; });
}
