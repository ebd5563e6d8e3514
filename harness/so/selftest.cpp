// Functions with known behaviour under concurrency, to test the scheduler.
#include <atomic>
#include <map>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <vector>

static std::string text(size_t n) { return std::to_string(n); }

// Wrong: must be found.
static int counter;
static std::string racy_counter()
{
    int a = ++counter;
    asm volatile("" ::: "memory");
    --counter;
    return text(size_t(a));
}

static char scratch[32];
static std::string racy_buffer(const char* s)
{
    size_t n = 0;
    while (s[n])
    {
        scratch[n] = s[n];
        ++n;
    }
    return std::string(scratch, n);
}

static bool ready;
static std::vector<int> lazy;
static std::string racy_lazy()
{
    if (!ready)
    {
        lazy = {1, 2, 3};
        ready = true;
    }
    return text(lazy.size());
}

// Each step is atomic, the sequence is not.
static std::atomic<int> slot;
static std::string torn_atomic(int v)
{
    slot.store(v);
    return text(size_t(slot.load()));
}

static std::atomic<bool> published;
static int payload;
static std::string relaxed_publication()
{
    if (!published.load(std::memory_order_relaxed))
    {
        static std::mutex m;
        std::lock_guard<std::mutex> l(m);
        if (!published.load(std::memory_order_relaxed))
        {
            payload = 7;
            published.store(true, std::memory_order_relaxed);
        }
    }
    return text(size_t(payload));
}

static std::mutex m1, m2;
static std::string lock_order(bool swap)
{
    std::lock_guard<std::mutex> a(swap ? m1 : m2), b(swap ? m2 : m1);
    return "1";
}

static std::mutex cache_mutex;
static std::string cached_key, cached_value;
static std::string checked_outside_lock(const std::string& k)
{
    {
        std::lock_guard<std::mutex> l(cache_mutex);
        if (cached_key != k)
        {
            cached_key = k;
            cached_value = k + "!";
        }
    }
    std::lock_guard<std::mutex> l(cache_mutex);
    return cached_value;
}

// Right: must be quiet.
static std::string once_static()
{
    static const std::vector<int> v = {1, 2, 3};
    return text(v.size());
}

static std::mutex map_mutex;
static std::map<int, std::string> memo;
static std::string locked_map(int k)
{
    std::lock_guard<std::mutex> l(map_mutex);
    auto it = memo.find(k);
    if (it == memo.end())
        it = memo.emplace(k, text(size_t(k) * 2)).first;
    return it->second;
}

static std::atomic<bool> done;
static int value;
static std::string double_checked()
{
    if (!done.load(std::memory_order_acquire))
    {
        static std::mutex m;
        std::lock_guard<std::mutex> l(m);
        if (!done.load(std::memory_order_relaxed))
        {
            value = 7;
            done.store(true, std::memory_order_release);
        }
    }
    return text(size_t(value));
}

static std::string with_call_once()
{
    static std::once_flag f;
    static int v;
    std::call_once(f, [] { v = 5; });
    return text(size_t(v));
}

static std::string per_thread(int k)
{
    static thread_local std::string s;
    s.assign(size_t(k), 'x');
    return s;
}

static std::shared_mutex rw;
static std::map<int, int> table;
static std::string read_write(int k)
{
    {
        std::shared_lock<std::shared_mutex> l(rw);
        auto it = table.find(k);
        if (it != table.end())
            return text(size_t(it->second));
    }
    std::unique_lock<std::shared_mutex> l(rw);
    return text(size_t(table[k] = k + 1));
}

static std::atomic_flag spin = ATOMIC_FLAG_INIT;
static int guarded_by_spin;
static std::string spin_lock()
{
    while (spin.test_and_set(std::memory_order_acquire))
    {}
    int v = ++guarded_by_spin;
    asm volatile("" ::: "memory");
    --guarded_by_spin;
    spin.clear(std::memory_order_release);
    return text(size_t(v));
}

struct Test
{
    const char* name;
    bool wrong;
    std::string (*f)(int thread);
};

static const Test TESTS[] = {
    {"racy counter", true, [](int) { return racy_counter(); }},
    {"racy buffer", true, [](int t) { return racy_buffer(t ? "abcd" : "xyz"); }},
    {"racy lazy initialization", true, [](int) { return racy_lazy(); }},
    {"torn sequence of atomics", true, [](int t) { return torn_atomic(t + 4); }},
    {"relaxed publication", true, [](int) { return relaxed_publication(); }},
    {"lock order", true, [](int t) { return lock_order(t == 1); }},
    {"cache read after unlocking", true, [](int t) { return checked_outside_lock(t ? "a" : "b"); }},
    {"function-local static", false, [](int) { return once_static(); }},
    {"map with a mutex", false, [](int t) { return locked_map(t) + locked_map(3) + locked_map(1 - t); }},
    {"double-checked locking", false, [](int) { return double_checked(); }},
    {"call_once", false, [](int) { return with_call_once(); }},
    {"thread_local", false, [](int t) { return per_thread(t + 1); }},
    {"shared_mutex", false, [](int t) { return read_write(t) + read_write(5) + read_write(1 - t); }},
    {"spin lock", false, [](int) { return spin_lock(); }},
};

extern "C"
{
    size_t self_count() { return sizeof TESTS / sizeof *TESTS; }
    const char* self_name(size_t i) { return TESTS[i].name; }
    bool self_wrong(size_t i) { return TESTS[i].wrong; }
    void self_run(size_t i, int thread, std::string* out) { *out = TESTS[i].f(thread); }
}
