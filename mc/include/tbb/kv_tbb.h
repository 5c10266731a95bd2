// Stand-in for oneTBB on top of the controlled-execution runtime (see DESIGN.md).
#pragma once
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <new>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "mc.h"

namespace tbb {
class split {};
class proportional_split {
public:
  proportional_split(size_t l = 1, size_t r = 1) : _l(l), _r(r) {}
  size_t left() const { return _l; }
  size_t right() const { return _r; }
  operator split() const { return split(); }
private:
  size_t _l, _r;
};
class auto_partitioner {};
class simple_partitioner {};
class static_partitioner {};
class affinity_partitioner {};
class task_group_context {};

// ------------------------------------------------------------------ blocked_range
template <typename V> class blocked_range {
public:
  using const_iterator = V;
  using size_type = std::size_t;
  blocked_range(V b, V e, size_type g = 1) : _b(b), _e(e), _g(g) {}
  blocked_range(blocked_range &r, split) : _b(r._b), _e(r._e), _g(r._g) {
    V m = static_cast<V>(r._b + (r._e - r._b) / 2);
    r._e = m;
    _b = m;
  }
  V begin() const { return _b; }
  V end() const { return _e; }
  size_type size() const { return static_cast<size_type>(_e - _b); }
  size_type grainsize() const { return _g; }
  bool empty() const { return !(_b < _e); }
  bool is_divisible() const { return _g < size(); }
private:
  V _b, _e;
  size_type _g;
};

namespace kv {
template <typename R> struct is_blocked : std::false_type {};
template <typename V> struct is_blocked<blocked_range<V>> : std::true_type {};

// Decomposes a range into the configured number of contiguous subranges.
template <typename R> std::vector<R> pieces(const R &r) {
  std::vector<R> out;
  if (r.empty()) return out;
  if constexpr (is_blocked<R>::value) {
    const std::size_t n = r.size();
    std::size_t c = static_cast<std::size_t>(mc::num_chunks(n));
    if (r.grainsize() > 1) c = std::max<std::size_t>(1, std::min<std::size_t>(c, n / r.grainsize()));
    for (std::size_t i = 0; i < c; ++i) {
      const std::size_t lo = n * i / c, hi = n * (i + 1) / c;
      using V = typename R::const_iterator;
      out.push_back(R(static_cast<V>(r.begin() + lo), static_cast<V>(r.begin() + hi), r.grainsize()));
    }
  } else {
    std::list<R> l;
    l.push_back(r);
    const int c = mc::num_chunks(1u << 20);
    bool any = true;
    while (static_cast<int>(l.size()) < c && any) {
      any = false;
      for (auto it = l.begin(); it != l.end() && static_cast<int>(l.size()) < c; ++it)
        if (it->is_divisible()) {
          R right(*it, split());
          l.insert(std::next(it), right);
          ++it;
          any = true;
        }
    }
    for (auto &x : l) out.push_back(x);
  }
  return out;
}
} // namespace kv

// ------------------------------------------------------------------ parallel_for
template <typename Range, typename Body>
  requires requires(const Range &r) { r.empty(); r.is_divisible(); }
void parallel_for(const Range &range, const Body &body) {
  auto p = kv::pieces(range);
  auto f = [&](int i) { body(p[static_cast<std::size_t>(i)]); };
  mc::region_f(static_cast<int>(p.size()), f);
}
template <typename Range, typename Body, typename P>
  requires requires(const Range &r) { r.empty(); r.is_divisible(); }
void parallel_for(const Range &range, const Body &body, const P &) { parallel_for(range, body); }
template <typename Range, typename Body, typename P>
  requires requires(const Range &r) { r.empty(); r.is_divisible(); }
void parallel_for(const Range &range, const Body &body, P &) { parallel_for(range, body); }

template <typename I, typename F>
  requires std::is_integral_v<I>
void parallel_for(I first, I last, I step, const F &f) {
  if (!(first < last)) return;
  const std::size_t n = (static_cast<std::size_t>(last - first) + static_cast<std::size_t>(step) - 1) / static_cast<std::size_t>(step);
  const std::size_t c = static_cast<std::size_t>(mc::num_chunks(n));
  auto g = [&](int k) {
    const std::size_t lo = n * static_cast<std::size_t>(k) / c, hi = n * (static_cast<std::size_t>(k) + 1) / c;
    for (std::size_t i = lo; i < hi; ++i) f(static_cast<I>(first + static_cast<I>(i) * step));
  };
  mc::region_f(static_cast<int>(c), g);
}
template <typename I, typename F>
  requires std::is_integral_v<I>
void parallel_for(I first, I last, const F &f) { parallel_for(first, last, static_cast<I>(1), f); }
template <typename I, typename F>
  requires(std::is_integral_v<I> && !std::is_integral_v<F>)
void parallel_for(I first, I last, const F &f, const static_partitioner &) { parallel_for(first, last, static_cast<I>(1), f); }
template <typename I, typename F>
  requires(std::is_integral_v<I> && !std::is_integral_v<F>)
void parallel_for(I first, I last, const F &f, const auto_partitioner &) { parallel_for(first, last, static_cast<I>(1), f); }
template <typename I, typename F>
  requires(std::is_integral_v<I> && !std::is_integral_v<F>)
void parallel_for(I first, I last, const F &f, const simple_partitioner &) { parallel_for(first, last, static_cast<I>(1), f); }

template <typename It, typename F> void parallel_for_each(It b, It e, const F &f) {
  std::vector<It> its;
  for (; b != e; ++b) its.push_back(b);
  auto g = [&](int i) { f(*its[static_cast<std::size_t>(i)]); };
  mc::region_f(static_cast<int>(its.size()), g);
}
template <typename C, typename F> void parallel_for_each(C &&c, const F &f) { parallel_for_each(std::begin(c), std::end(c), f); }

// ------------------------------------------------------------------ parallel_invoke
template <typename... F> void parallel_invoke(F &&...fs) {
  std::function<void()> v[] = {std::function<void()>([&fs] { fs(); })...};
  auto g = [&](int i) { v[i](); };
  mc::region_f(static_cast<int>(sizeof...(F)), g);
}

// ------------------------------------------------------------------ parallel_reduce
template <typename Range, typename Body> void parallel_reduce(const Range &range, Body &body) {
  auto p = kv::pieces(range);
  if (p.empty()) return;
  const std::size_t n = p.size();
  std::deque<Body> bodies;
  for (std::size_t i = 1; i < n; ++i) bodies.emplace_back(body, split());
  auto g = [&](int i) {
    Body &b = i == 0 ? body : bodies[static_cast<std::size_t>(i) - 1];
    Range r = p[static_cast<std::size_t>(i)];
    if (n > 1 && r.is_divisible()) { // one body may be applied to several adjacent subranges
      Range right(r, split());
      b(r);
      b(right);
    } else {
      b(r);
    }
  };
  mc::region_f(static_cast<int>(n), g);
  for (std::size_t i = 1; i < n; ++i) body.join(bodies[i - 1]);
}
template <typename Range, typename V, typename F, typename J>
V parallel_reduce(const Range &range, const V &id, const F &f, const J &join) {
  auto p = kv::pieces(range);
  if (p.empty()) return id;
  std::deque<V> part(p.size(), id);
  auto g = [&](int i) { part[static_cast<std::size_t>(i)] = f(p[static_cast<std::size_t>(i)], id); };
  mc::region_f(static_cast<int>(p.size()), g);
  V out = part[0];
  for (std::size_t i = 1; i < part.size(); ++i) out = join(out, part[i]);
  return out;
}
template <typename Range, typename Body> void parallel_reduce(const Range &r, Body &b, const auto_partitioner &) { parallel_reduce(r, b); }
template <typename Range, typename Body> void parallel_reduce(const Range &r, Body &b, const static_partitioner &) { parallel_reduce(r, b); }
template <typename Range, typename Body> void parallel_deterministic_reduce(const Range &r, Body &b) { parallel_reduce(r, b); }
template <typename Range, typename V, typename F, typename J>
V parallel_deterministic_reduce(const Range &range, const V &id, const F &f, const J &join) { return parallel_reduce(range, id, f, join); }

// ------------------------------------------------------------------ parallel_scan
struct pre_scan_tag {
  static bool is_final_scan() { return false; }
  operator bool() const { return false; }
};
struct final_scan_tag {
  static bool is_final_scan() { return true; }
  operator bool() const { return true; }
};
template <typename Range, typename Body> void parallel_scan(const Range &range, Body &body) {
  auto p = kv::pieces(range);
  if (p.empty()) return;
  const std::size_t n = p.size();
  std::deque<Body> sums, fin;
  for (std::size_t i = 1; i < n; ++i) { sums.emplace_back(body, split()); fin.emplace_back(body, split()); }
  auto g = [&](int i) {
    if (i == 0) body(p[0], final_scan_tag());
    else sums[static_cast<std::size_t>(i) - 1](p[static_cast<std::size_t>(i)], pre_scan_tag());
  };
  mc::region_f(static_cast<int>(n > 1 ? n - 1 : 1), g); // the last chunk needs no pre-scan
  for (std::size_t i = 1; i < n; ++i) {
    fin[i - 1].reverse_join(i == 1 ? body : sums[i - 2]);
    if (i + 1 < n) sums[i - 1].reverse_join(i == 1 ? body : sums[i - 2]);
  }
  auto h = [&](int i) { fin[static_cast<std::size_t>(i)](p[static_cast<std::size_t>(i) + 1], final_scan_tag()); };
  mc::region_f(static_cast<int>(n - 1), h);
  if (n > 1) body.assign(fin[n - 2]);
}
template <typename Range, typename V, typename Scan, typename Join>
V parallel_scan(const Range &range, const V &id, const Scan &scan, const Join &join) {
  struct Body {
    V v; const V &id; const Scan &s; const Join &j;
    Body(const V &i, const Scan &s_, const Join &j_) : v(i), id(i), s(s_), j(j_) {}
    Body(Body &b, split) : v(b.id), id(b.id), s(b.s), j(b.j) {}
    void operator()(const Range &r, pre_scan_tag) { v = s(r, v, false); }
    void operator()(const Range &r, final_scan_tag) { v = s(r, v, true); }
    void reverse_join(Body &a) { v = j(a.v, v); }
    void assign(Body &b) { v = b.v; }
  } b(id, scan, join);
  parallel_scan(range, b);
  return b.v;
}

// ------------------------------------------------------------------ parallel_sort
template <typename It, typename C> void parallel_sort(It b, It e, const C &c) { std::sort(b, e, c); }
template <typename It>
  requires requires(It i) { *i; }
void parallel_sort(It b, It e) { std::sort(b, e); }
template <typename R> void parallel_sort(R &&r) { std::sort(std::begin(r), std::end(r)); }

// ------------------------------------------------------------------ task_arena etc.
namespace this_task_arena {
inline int current_thread_index() { return mc::self(); }
inline int max_concurrency() {
  const int m = mc::cfg().max_concurrency;
  return m > 0 ? m : mc::workers();
}
template <typename F> auto isolate(const F &f) { return f(); }
} // namespace this_task_arena
class task_arena {
public:
  static constexpr int automatic = -1;
  static constexpr int not_initialized = -2;
  explicit task_arena(int = automatic, unsigned = 1) {}
  void initialize() {}
  void initialize(int, unsigned = 1) {}
  void terminate() {}
  bool is_active() const { return true; }
  int max_concurrency() const { return this_task_arena::max_concurrency(); }
  template <typename F> auto execute(const F &f) { return f(); }
  template <typename F> void enqueue(const F &f) { f(); }
};
class task_scheduler_observer {
public:
  task_scheduler_observer() {}
  explicit task_scheduler_observer(task_arena &) {}
  virtual ~task_scheduler_observer() {}
  void observe(bool = true) {}
  virtual void on_scheduler_entry(bool) {}
  virtual void on_scheduler_exit(bool) {}
};
class global_control {
public:
  enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception };
  global_control(parameter, std::size_t) {}
  global_control(const global_control &) = delete;
  static std::size_t active_value(parameter) { return static_cast<std::size_t>(this_task_arena::max_concurrency()); }
};
namespace info {
inline int default_concurrency() { return this_task_arena::max_concurrency(); }
}

class task_group {
public:
  ~task_group() { wait(); }
  template <typename F> void run(F &&f) {
    mc::RtGuard g;
    _tasks.emplace_back(std::function<void()>(std::forward<F>(f)));
  }
  template <typename F> void run_and_wait(const F &f) {
    f();
    wait();
  }
  int wait() {
    // Tasks may spawn further tasks; drain in rounds. Nested waits run inline.
    while (!_tasks.empty()) {
      std::vector<std::function<void()>> round;
      {
        mc::RtGuard g;
        round.swap(_tasks);
      }
      if (mc::in_parallel()) {
        for (auto &t : round) t();
      } else {
        auto g = [&](int i) { round[static_cast<std::size_t>(i)](); };
        mc::region_f(static_cast<int>(round.size()), g);
      }
    }
    return 1;
  }
private:
  std::vector<std::function<void()>> _tasks;
};

// ------------------------------------------------------------------ mutexes
class spin_mutex {
public:
  spin_mutex() = default;
  spin_mutex(const spin_mutex &) = delete;
  void lock() {
    mc::point(this);
    mc::RtGuard g;
    mc::block_while([](void *p) { return static_cast<spin_mutex *>(p)->_locked; }, this);
    _locked = true;
  }
  bool try_lock() {
    mc::point(this);
    mc::RtGuard g;
    if (_locked) return false;
    return _locked = true;
  }
  void unlock() {
    mc::RtGuard g;
    _locked = false;
  }
  class scoped_lock {
  public:
    scoped_lock() = default;
    explicit scoped_lock(spin_mutex &m) { acquire(m); }
    ~scoped_lock() { if (_m) release(); }
    void acquire(spin_mutex &m) { m.lock(); _m = &m; }
    bool try_acquire(spin_mutex &m) { if (!m.try_lock()) return false; _m = &m; return true; }
    void release() { _m->unlock(); _m = nullptr; }
  private:
    spin_mutex *_m = nullptr;
  };
private:
  bool _locked = false;
};
using mutex = spin_mutex;
using queuing_mutex = spin_mutex;
using speculative_spin_mutex = spin_mutex;
using null_mutex = spin_mutex;

// ------------------------------------------------------------------ allocators
template <typename T> class scalable_allocator {
public:
  using value_type = T;
  scalable_allocator() = default;
  template <typename U> scalable_allocator(const scalable_allocator<U> &) noexcept {}
  T *allocate(std::size_t n) { return static_cast<T *>(::operator new(n * sizeof(T), std::align_val_t(64))); }
  void deallocate(T *p, std::size_t) { ::operator delete(p, std::align_val_t(64)); }
  template <typename U> bool operator==(const scalable_allocator<U> &) const { return true; }
};
template <typename T> using cache_aligned_allocator = scalable_allocator<T>;
template <typename T> using tbb_allocator = scalable_allocator<T>;

// ------------------------------------------------------------------ enumerable_thread_specific
enum ets_key_usage_type { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template <typename T, typename A = cache_aligned_allocator<T>, ets_key_usage_type K = ets_no_key>
class enumerable_thread_specific {
  struct Slot { T *p; int w; };
  template <bool C> class Iter {
  public:
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = std::conditional_t<C, const T *, T *>;
    using reference = std::conditional_t<C, const T &, T &>;
    using iterator_category = std::random_access_iterator_tag;
    Iter() = default;
    Iter(const std::vector<Slot> *s, std::size_t i) : _s(s), _i(i) {}
    operator Iter<true>() const { return Iter<true>(_s, _i); }
    reference operator*() const { return *(*_s)[_i].p; }
    pointer operator->() const { return (*_s)[_i].p; }
    reference operator[](difference_type d) const { return *(*_s)[_i + static_cast<std::size_t>(d)].p; }
    Iter &operator++() { ++_i; return *this; }
    Iter operator++(int) { Iter o = *this; ++_i; return o; }
    Iter &operator--() { --_i; return *this; }
    Iter operator--(int) { Iter o = *this; --_i; return o; }
    Iter &operator+=(difference_type d) { _i += static_cast<std::size_t>(d); return *this; }
    Iter &operator-=(difference_type d) { _i -= static_cast<std::size_t>(d); return *this; }
    friend Iter operator+(Iter a, difference_type d) { a += d; return a; }
    friend Iter operator-(Iter a, difference_type d) { a -= d; return a; }
    friend difference_type operator-(const Iter &a, const Iter &b) { return static_cast<difference_type>(a._i) - static_cast<difference_type>(b._i); }
    friend bool operator==(const Iter &a, const Iter &b) { return a._i == b._i; }
    friend bool operator!=(const Iter &a, const Iter &b) { return a._i != b._i; }
    friend bool operator<(const Iter &a, const Iter &b) { return a._i < b._i; }
  private:
    const std::vector<Slot> *_s = nullptr;
    std::size_t _i = 0;
  };

public:
  using value_type = T;
  using reference = T &;
  using const_reference = const T &;
  using pointer = T *;
  using iterator = Iter<false>;
  using const_iterator = Iter<true>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;

  enumerable_thread_specific() {
    if constexpr (std::is_default_constructible_v<T>) _make = [] { return new T(); };
  }
  template <typename F>
    requires(std::is_invocable_r_v<T, std::decay_t<F> &> && !std::is_same_v<std::decay_t<F>, T> &&
             !std::is_same_v<std::decay_t<F>, enumerable_thread_specific>)
  explicit enumerable_thread_specific(F &&f) {
    if constexpr (std::is_copy_constructible_v<std::decay_t<F>>) {
      _make = [f = std::decay_t<F>(std::forward<F>(f))]() mutable { return new T(f()); };
    } else {
      auto sp = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
      _make = [sp] { return new T((*sp)()); };
    }
  }
  template <typename... P>
    requires(sizeof...(P) > 0 && std::is_constructible_v<T, const std::decay_t<P> &...> &&
             !(sizeof...(P) == 1 && ((std::is_invocable_r_v<T, std::decay_t<P> &> && !std::is_same_v<std::decay_t<P>, T>) || ...)) &&
             !(std::is_same_v<std::decay_t<P>, enumerable_thread_specific> || ...))
  explicit enumerable_thread_specific(P &&...p) {
    auto t = std::make_shared<std::tuple<std::decay_t<P>...>>(std::forward<P>(p)...);
    _make = [t] { return std::apply([](const auto &...x) { return new T(x...); }, *t); };
  }
  enumerable_thread_specific(const enumerable_thread_specific &o) : _make(o._make) {
    for (const Slot &s : o._slots) _slots.push_back({new T(*s.p), s.w});
  }
  enumerable_thread_specific(enumerable_thread_specific &&o) noexcept : _make(o._make) { _slots.swap(o._slots); }
  enumerable_thread_specific &operator=(const enumerable_thread_specific &o) {
    if (this != &o) {
      clear();
      _make = o._make;
      for (const Slot &s : o._slots) _slots.push_back({new T(*s.p), s.w});
    }
    return *this;
  }
  enumerable_thread_specific &operator=(enumerable_thread_specific &&o) noexcept {
    if (this != &o) {
      clear();
      _make = o._make;
      _slots.swap(o._slots);
    }
    return *this;
  }
  ~enumerable_thread_specific() { clear(); }

  reference local() { bool e; return local(e); }
  reference local(bool &exists) {
    const int w = mc::slot();
    {
      mc::RtGuard g;
      for (const Slot &s : _slots)
        if (s.w == w) { exists = true; return *s.p; }
    }
    exists = false;
    T *p = nullptr;
    if (mc::cfg().monitor_locals) {
      p = _make();
    } else {
      mc::RtGuard g;
      p = _make();
    }
    mc::RtGuard g;
    _slots.push_back({p, w});
    return *p;
  }
  size_type size() const { return _slots.size(); }
  bool empty() const { return _slots.empty(); }
  void clear() {
    std::vector<Slot> s;
    s.swap(_slots);
    for (Slot &x : s) delete x.p;
  }
  void swap(enumerable_thread_specific &o) { std::swap(_make, o._make); _slots.swap(o._slots); }
  iterator begin() { return iterator(&_slots, 0); }
  iterator end() { return iterator(&_slots, _slots.size()); }
  const_iterator begin() const { return const_iterator(&_slots, 0); }
  const_iterator end() const { return const_iterator(&_slots, _slots.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  template <typename F> T combine(F f) {
    if (_slots.empty()) { std::unique_ptr<T> p(_make()); return *p; }
    T r = *_slots[0].p;
    for (std::size_t i = 1; i < _slots.size(); ++i) r = f(r, *_slots[i].p);
    return r;
  }
  template <typename F> void combine_each(F f) { for (Slot &s : _slots) f(*s.p); }
  blocked_range<iterator> range(std::size_t g = 1) { return blocked_range<iterator>(begin(), end(), g); }

private:
  std::function<T *()> _make;
  std::vector<Slot> _slots;
};

template <typename T> class combinable {
public:
  combinable() = default;
  template <typename F> explicit combinable(F f) : _e(f) {}
  T &local() { return _e.local(); }
  T &local(bool &b) { return _e.local(b); }
  void clear() { _e.clear(); }
  template <typename F> T combine(F f) { return _e.combine(f); }
  template <typename F> void combine_each(F f) { _e.combine_each(f); }
private:
  enumerable_thread_specific<T> _e;
};

// ------------------------------------------------------------------ concurrent containers
template <typename T, typename A = std::allocator<T>> class concurrent_vector {
  using D = std::deque<T>;
public:
  using value_type = T;
  using reference = T &;
  using const_reference = const T &;
  using iterator = typename D::iterator;
  using const_iterator = typename D::const_iterator;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  concurrent_vector() = default;
  explicit concurrent_vector(size_type n) : _d(n) {}
  concurrent_vector(size_type n, const T &v) : _d(n, v) {}
  template <typename It>
    requires requires(It i) { *i; }
  concurrent_vector(It b, It e) : _d(b, e) {}
  iterator push_back(const T &v) { mc::point(this); mc::RtGuard g; _d.push_back(v); return std::prev(_d.end()); }
  iterator push_back(T &&v) { mc::point(this); mc::RtGuard g; _d.push_back(std::move(v)); return std::prev(_d.end()); }
  template <typename... P> iterator emplace_back(P &&...p) { mc::point(this); mc::RtGuard g; _d.emplace_back(std::forward<P>(p)...); return std::prev(_d.end()); }
  iterator grow_by(size_type n) { mc::point(this); mc::RtGuard g; size_type o = _d.size(); _d.resize(o + n); return _d.begin() + static_cast<difference_type>(o); }
  iterator grow_by(size_type n, const T &v) { mc::point(this); mc::RtGuard g; size_type o = _d.size(); _d.resize(o + n, v); return _d.begin() + static_cast<difference_type>(o); }
  iterator grow_to_at_least(size_type n) { mc::point(this); mc::RtGuard g; size_type o = _d.size(); if (o < n) _d.resize(n); return _d.begin() + static_cast<difference_type>(o); }
  T &operator[](size_type i) { mc::RtGuard g; return _d[i]; }
  const T &operator[](size_type i) const { mc::RtGuard g; return _d[i]; }
  T &at(size_type i) { mc::RtGuard g; return _d.at(i); }
  T &front() { return _d.front(); }
  T &back() { return _d.back(); }
  const T &front() const { return _d.front(); }
  const T &back() const { return _d.back(); }
  size_type size() const { mc::point(this); mc::RtGuard g; return _d.size(); }
  bool empty() const { mc::RtGuard g; return _d.empty(); }
  size_type capacity() const { return _d.size(); }
  void clear() { mc::RtGuard g; _d.clear(); }
  void reserve(size_type) {}
  void resize(size_type n) { _d.resize(n); }
  void resize(size_type n, const T &v) { _d.resize(n, v); }
  void shrink_to_fit() {}
  void swap(concurrent_vector &o) { _d.swap(o._d); }
  iterator begin() { return _d.begin(); }
  iterator end() { return _d.end(); }
  const_iterator begin() const { return _d.begin(); }
  const_iterator end() const { return _d.end(); }
  const_iterator cbegin() const { return _d.begin(); }
  const_iterator cend() const { return _d.end(); }
  blocked_range<iterator> range(size_type g = 1) { return blocked_range<iterator>(begin(), end(), g); }
private:
  D _d;
};

template <typename K> struct tbb_hash_compare {
  static std::size_t hash(const K &k) { return std::hash<K>()(k); }
  static bool equal(const K &a, const K &b) { return a == b; }
};
template <typename K, typename V, typename H = tbb_hash_compare<K>, typename A = std::allocator<std::pair<const K, V>>>
class concurrent_hash_map {
  struct Node { std::pair<const K, V> kv; int readers = 0; bool writer = false; };
  using M = std::deque<Node>;
public:
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<const K, V>;
  using size_type = std::size_t;
  class const_accessor {
  public:
    using value_type = const std::pair<const K, V>;
    ~const_accessor() { release(); }
    bool empty() const { return !_n; }
    void release() { if (_n) { if (_w) _n->writer = false; else --_n->readers; _n = nullptr; } }
    const std::pair<const K, V> &operator*() const { return _n->kv; }
    const std::pair<const K, V> *operator->() const { return &_n->kv; }
  protected:
    friend class concurrent_hash_map;
    void lock(Node *n, bool w) {
      release();
      if (w) mc::block_while([](void *p) { auto *x = static_cast<Node *>(p); return x->writer || x->readers > 0; }, n);
      else mc::block_while([](void *p) { return static_cast<Node *>(p)->writer; }, n);
      _n = n; _w = w;
      if (w) n->writer = true; else ++n->readers;
    }
    Node *_n = nullptr;
    bool _w = false;
  };
  class accessor : public const_accessor {
  public:
    std::pair<const K, V> &operator*() const { return this->_n->kv; }
    std::pair<const K, V> *operator->() const { return &this->_n->kv; }
  };
  concurrent_hash_map() = default;
  explicit concurrent_hash_map(size_type) {}
  bool insert(accessor &a, const K &k) { mc::point(this); mc::RtGuard g; bool nw; Node *n = get(k, true, nw); a.lock(n, true); return nw; }
  bool insert(const_accessor &a, const K &k) { mc::point(this); mc::RtGuard g; bool nw; Node *n = get(k, true, nw); a.lock(n, false); return nw; }
  bool insert(accessor &a, const value_type &v) { mc::point(this); mc::RtGuard g; bool nw; Node *n = get(v.first, true, nw); a.lock(n, true); if (nw) n->kv.second = v.second; return nw; }
  bool insert(const value_type &v) { mc::point(this); mc::RtGuard g; bool nw; Node *n = get(v.first, true, nw); if (nw) n->kv.second = v.second; return nw; }
  bool emplace(const K &k, const V &v) { return insert(value_type(k, v)); }
  bool find(accessor &a, const K &k) { mc::point(this); mc::RtGuard g; bool nw; Node *n = get(k, false, nw); if (!n) return false; a.lock(n, true); return true; }
  bool find(const_accessor &a, const K &k) const { mc::point(this); mc::RtGuard g; bool nw; Node *n = const_cast<concurrent_hash_map *>(this)->get(k, false, nw); if (!n) return false; a.lock(n, false); return true; }
  size_type count(const K &k) const { bool nw; return const_cast<concurrent_hash_map *>(this)->get(k, false, nw) ? 1 : 0; }
  bool erase(const K &k) {
    mc::point(this); mc::RtGuard g;
    auto it = _idx.find(k);
    if (it == _idx.end()) return false;
    it->second->writer = false;
    _idx.erase(it); _dead = true; return true;
  }
  size_type size() const { return _idx.size(); }
  bool empty() const { return _idx.empty(); }
  void clear() { _idx.clear(); _m.clear(); }
  void rehash(size_type = 0) {}
  struct iterator {
    using value_type = std::pair<const K, V>;
    using reference = value_type &;
    using pointer = value_type *;
    using difference_type = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    typename M::iterator it;
    std::pair<const K, V> &operator*() const { return it->kv; }
    std::pair<const K, V> *operator->() const { return &it->kv; }
    iterator &operator++() { ++it; return *this; }
    bool operator==(const iterator &o) const { return it == o.it; }
    bool operator!=(const iterator &o) const { return it != o.it; }
  };
  iterator begin() { return {_m.begin()}; }
  iterator end() { return {_m.end()}; }
  struct range_type {
    iterator b, e;
    iterator begin() const { return b; }
    iterator end() const { return e; }
    bool empty() const { return b == e; }
    bool is_divisible() const { return false; }
    range_type(iterator x, iterator y) : b(x), e(y) {}
    range_type(range_type &r, split) : b(r.e), e(r.e) {}
  };
  range_type range(size_type = 1) { return range_type(begin(), end()); }
private:
  struct Hash { std::size_t operator()(const K &k) const { return H().hash(k); } };
  struct Eq { bool operator()(const K &a, const K &b) const { return H().equal(a, b); } };
  Node *get(const K &k, bool create, bool &created) {
    created = false;
    auto it = _idx.find(k);
    if (it != _idx.end()) return it->second;
    if (!create) return nullptr;
    created = true;
    _m.push_back(Node{std::pair<const K, V>(k, V()), 0, false});
    _idx.emplace(k, &_m.back());
    return &_m.back();
  }
  M _m;
  std::unordered_map<K, Node *, Hash, Eq> _idx;
  bool _dead = false;
};
} // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }

// ------------------------------------------------------------------ scalable malloc
inline void *scalable_malloc(std::size_t n) { return std::malloc(n); }
inline void *scalable_calloc(std::size_t a, std::size_t b) { return std::calloc(a, b); }
inline void *scalable_realloc(void *p, std::size_t n) { return std::realloc(p, n); }
inline void scalable_free(void *p) { std::free(p); }
inline int scalable_posix_memalign(void **p, std::size_t a, std::size_t n) { return posix_memalign(p, a, n); }
inline void *scalable_aligned_malloc(std::size_t n, std::size_t a) { void *p = nullptr; return posix_memalign(&p, a, n) ? nullptr : p; }
inline void scalable_aligned_free(void *p) { std::free(p); }
enum { TBBMALLOC_OK = 0, TBBMALLOC_USE_HUGE_PAGES = 0, TBBMALLOC_CLEAN_ALL_BUFFERS = 0 };
inline int scalable_allocation_mode(int, std::intptr_t) { return 0; }
inline int scalable_allocation_command(int, void *) { return 0; }
