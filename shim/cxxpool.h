// Minimal stand-in for the cxxpool thread pool (the real header is an absent
// git submodule of the repository under test).  Real threads are used, so data
// races inside visitors executed by the pool are genuine and visible to TSan.
#ifndef VERIF_CXXPOOL_SHIM_H
#define VERIF_CXXPOOL_SHIM_H
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <type_traits>
#include <vector>

namespace cxxpool {
inline std::atomic<unsigned long> g_pools{0}, g_tasks{0};
// injected delays: tasks start after up to so many microseconds, in random order
inline std::atomic<unsigned> g_jitter{0};
inline std::atomic<unsigned long> g_order{0};  // hash of the order in which tasks start and end

class thread_pool {
public:
    explicit thread_pool(std::size_t n) {
        if (n == 0) n = 1;
        g_pools++;
        for (std::size_t i = 0; i < n; i++) threads_.emplace_back([this] { run(); });
    }
    thread_pool(const thread_pool&) = delete;
    ~thread_pool() {
        {
            std::lock_guard<std::mutex> g(m_);
            stop_ = true;
        }
        cv_.notify_all();
        for (auto& t : threads_) t.join();
    }
    template <typename F, typename... A>
    auto push(F&& f, A&&... args)
        -> std::future<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>> {
        using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>;
        auto task = std::make_shared<std::packaged_task<R()>>(
            std::bind(std::forward<F>(f), std::forward<A>(args)...));
        auto fut = task->get_future();
        g_tasks++;
        {
            std::lock_guard<std::mutex> g(m_);
            q_.emplace_back(n_++, [task] { (*task)(); });
        }
        cv_.notify_one();
        return fut;
    }
    void clear() {
        std::lock_guard<std::mutex> g(m_);
        q_.clear();
    }
    [[nodiscard]] std::size_t n_threads() const { return threads_.size(); }

private:
    static unsigned pick(unsigned j) {
        static thread_local unsigned x = (unsigned)std::hash<std::thread::id>()(std::this_thread::get_id()) * 2654435761u + j;
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        return x >> 3;
    }
    void run() {
        for (;;) {
            std::pair<unsigned, std::function<void()>> job;
            {
                std::unique_lock<std::mutex> l(m_);
                cv_.wait(l, [this] { return stop_ || !q_.empty(); });
                if (q_.empty()) return;
                auto at = q_.begin();
                if (auto j = g_jitter.load()) at += pick(j) % q_.size();
                job = std::move(*at);
                q_.erase(at);
            }
            if (auto j = g_jitter.load()) std::this_thread::sleep_for(std::chrono::microseconds(pick(j) % j));
            // relaxed, so that it orders nothing
            auto h = g_order.load(std::memory_order_relaxed);
            g_order.store((h ^ job.first) * 1099511628211ul, std::memory_order_relaxed);
            job.second();
            h = g_order.load(std::memory_order_relaxed);
            g_order.store((h ^ (job.first + 4096)) * 1099511628211ul, std::memory_order_relaxed);
        }
    }
    std::mutex m_;
    std::condition_variable cv_;
    std::deque<std::pair<unsigned, std::function<void()>>> q_;
    unsigned n_ = 0;
    std::vector<std::thread> threads_;
    bool stop_ = false;
};

template <typename It, typename C>
void get(It first, It last, C& out) {
    for (; first != last; ++first) out.emplace_back(first->get());
}
template <typename It>
void get(It first, It last) {
    for (; first != last; ++first) first->get();
}
template <typename It>
void wait(It first, It last) {
    for (; first != last; ++first) first->wait();
}
}  // namespace cxxpool
#endif
