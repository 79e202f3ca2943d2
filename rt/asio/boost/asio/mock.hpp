// A single-threaded stand-in for the few parts of boost::asio that joedb uses.
// External events (data, timeouts, connections) are decided by the harness; completions run in first-in first-out order.
#ifndef MOCK_ASIO_HPP
#define MOCK_ASIO_HPP
#include <chrono>
#include <coroutine>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <system_error>
#include <utility>
#include <vector>
#include <csignal>

namespace boost::system
{
 struct error_code
 {
  int v = 0;
  explicit operator bool() const {return v != 0;}
  operator std::error_code() const
  {
   static char category[16]; // never used
   return std::error_code(v, reinterpret_cast<const std::error_category &>(category));
  }
 };
}

namespace mock
{
 struct Socket_State
 {
  std::string in;           // sent by the client, not read yet
  std::string out;          // sent by the server, not read by the client yet
  bool client_closed = false, server_closed = false;
  size_t wanted = 0;        // pending read
  char *destination = nullptr;
  std::function<void(bool)> on_read;
 };

 struct Timer_State
 {
  bool finite = false;
  bool destroyed = false;
  std::vector<std::function<void(int)>> waiting; // argument: error
 };

 struct Loop
 {
  std::deque<std::function<void()>> ready;
  std::vector<std::shared_ptr<Timer_State>> timers;
  std::deque<std::shared_ptr<Socket_State>> connections;
  std::function<void(std::shared_ptr<Socket_State>)> on_accept;
  bool stopped = false;

  void post(std::function<void()> f) {ready.push_back(std::move(f));}

  bool run_one()
  {
   if (stopped || ready.empty()) return false;
   auto f = std::move(ready.front());
   ready.pop_front();
   f();
   return true;
  }
  void drain() {while (run_one());}

  void arrived(Socket_State &s)
  {
   if (!s.on_read) return;
   if (s.in.size() >= s.wanted)
   {
    std::memcpy(s.destination, s.in.data(), s.wanted);
    s.in.erase(0, s.wanted);
    auto f = std::move(s.on_read);
    s.on_read = nullptr;
    post([f]{f(true);});
   }
   else if (s.client_closed)
   {
    auto f = std::move(s.on_read);
    s.on_read = nullptr;
    post([f]{f(false);});
   }
  }

  std::shared_ptr<Socket_State> connect()
  {
   auto s = std::make_shared<Socket_State>();
   if (stopped) s->server_closed = true;
   else {connections.push_back(s); accept();}
   return s;
  }

  void accept()
  {
   if (!on_accept || connections.empty()) return;
   auto f = std::move(on_accept);
   on_accept = nullptr;
   auto s = connections.front();
   connections.pop_front();
   post([f, s]{f(s);});
  }

  void complete(Timer_State &t, int error)
  {
   std::vector<std::function<void(int)>> w;
   w.swap(t.waiting);
   for (auto &f: w) post([f, error]{f(error);});
  }

  // timers that could expire now
  std::vector<std::shared_ptr<Timer_State>> pending() const
  {
   std::vector<std::shared_ptr<Timer_State>> r;
   for (const auto &t: timers) if (t->finite && !t->waiting.empty()) r.push_back(t);
   return r;
  }
 };

 inline Loop *loop = nullptr;

 struct Error: public std::exception {const char *what() const noexcept override {return "End of file";}};
}

namespace boost::asio
{
 struct use_awaitable_t {};
 inline constexpr use_awaitable_t use_awaitable{};
 struct detached_t {void operator()(std::exception_ptr) const {}};
 inline constexpr detached_t detached{};
 struct redirect_error_t {boost::system::error_code &ec;};
 inline redirect_error_t redirect_error(use_awaitable_t, boost::system::error_code &ec) {return {ec};}

 template<typename T> class awaitable;
 namespace detail
 {
  struct promise_base
  {
   std::coroutine_handle<> continuation;
   std::exception_ptr exception;
   std::suspend_always initial_suspend() noexcept {return {};}
   struct final_awaiter
   {
    bool await_ready() noexcept {return false;}
    template<typename P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept
    {
     if (h.promise().continuation) return h.promise().continuation;
     return std::noop_coroutine();
    }
    void await_resume() noexcept {}
   };
   final_awaiter final_suspend() noexcept {return {};}
   void unhandled_exception() {exception = std::current_exception();}
  };
 }

 template<typename T> class awaitable
 {
  public:
   struct promise_type: detail::promise_base
   {
    T value{};
    awaitable get_return_object() {return awaitable(std::coroutine_handle<promise_type>::from_promise(*this));}
    void return_value(T v) {value = v;}
   };
   std::coroutine_handle<promise_type> h;
   explicit awaitable(std::coroutine_handle<promise_type> h): h(h) {}
   awaitable(awaitable &&o) noexcept: h(std::exchange(o.h, nullptr)) {}
   ~awaitable() {if (h) h.destroy();}
   bool await_ready() const {return false;}
   std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) {h.promise().continuation = c; return h;}
   T await_resume()
   {
    if (h.promise().exception) std::rethrow_exception(h.promise().exception);
    return h.promise().value;
   }
 };

 template<> class awaitable<void>
 {
  public:
   struct promise_type: detail::promise_base
   {
    awaitable get_return_object() {return awaitable(std::coroutine_handle<promise_type>::from_promise(*this));}
    void return_void() {}
   };
   std::coroutine_handle<promise_type> h;
   explicit awaitable(std::coroutine_handle<promise_type> h): h(h) {}
   awaitable(awaitable &&o) noexcept: h(std::exchange(o.h, nullptr)) {}
   ~awaitable() {if (h) h.destroy();}
   bool await_ready() const {return false;}
   std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) {h.promise().continuation = c; return h;}
   void await_resume()
   {
    if (h.promise().exception) std::rethrow_exception(h.promise().exception);
   }
 };

 struct mutable_buffer {char *data; size_t size;};
 inline mutable_buffer buffer(char *data, size_t size) {return {data, size};}

 class thread_pool
 {
  public:
   explicit thread_pool(int) {}
   struct executor_type {};
   executor_type get_executor() {return {};}
   void stop() {mock::loop->stopped = true;}
   void join() {}
 };

 template<typename E> class strand {public: strand(E) {}};

 class signal_set
 {
  public:
   template<typename E> signal_set(E &, int, int) {}
   template<typename F> void async_wait(F) {}
 };

 class steady_timer
 {
   std::shared_ptr<mock::Timer_State> state = std::make_shared<mock::Timer_State>();
  public:
   using duration = std::chrono::steady_clock::duration;
   template<typename E> explicit steady_timer(E &) {mock::loop->timers.push_back(state);}
   steady_timer(const steady_timer &) = delete;
   ~steady_timer()
   {
    state->destroyed = true;
    mock::loop->complete(*state, 1);
    auto &v = mock::loop->timers;
    for (size_t i = 0; i < v.size(); i++) if (v[i] == state) {v.erase(v.begin() + ptrdiff_t(i)); break;}
   }
   void cancel() {mock::loop->complete(*state, 1);}
   void expires_after(duration d) {cancel(); state->finite = d != duration::max();}
   template<typename F> void async_wait(F f)
   {
    auto p = std::make_shared<F>(std::move(f));
    state->waiting.push_back([p](int e){boost::system::error_code ec; ec.v = e; (*p)(ec);});
   }
   struct waiter
   {
    mock::Timer_State &state;
    boost::system::error_code &ec;
    bool await_ready() {return false;}
    void await_suspend(std::coroutine_handle<> h)
    {
     boost::system::error_code *p = &ec;
     state.waiting.push_back([h, p](int e){p->v = e; h.resume();});
    }
    void await_resume() {}
   };
   waiter async_wait(redirect_error_t r) {return {*state, r.ec};}
 };

 namespace local
 {
  struct stream_protocol
  {
   class socket
   {
    public:
     std::shared_ptr<mock::Socket_State> state;
     explicit socket(std::shared_ptr<mock::Socket_State> s): state(std::move(s)) {}
     socket(socket &&) = default;
     ~socket() {if (state) state->server_closed = true;}
   };
   struct endpoint {explicit endpoint(const std::string &) {}};
   class acceptor
   {
    public:
     template<typename E> acceptor(E &, const endpoint &, bool) {}
     struct waiter
     {
      std::shared_ptr<mock::Socket_State> state;
      bool await_ready() {return false;}
      void await_suspend(std::coroutine_handle<> h)
      {
       mock::loop->on_accept = [this, h](std::shared_ptr<mock::Socket_State> s){state = s; h.resume();};
       mock::loop->accept();
      }
      socket await_resume() {return socket(state);}
     };
     waiter async_accept(use_awaitable_t) {return {};}
   };
  };
 }

 struct read_waiter
 {
  mock::Socket_State &s;
  mutable_buffer b;
  bool ok = false;
  bool await_ready() {return false;}
  void await_suspend(std::coroutine_handle<> h)
  {
   s.wanted = b.size;
   s.destination = b.data;
   s.on_read = [this, h](bool result){ok = result; h.resume();};
   mock::loop->arrived(s);
  }
  size_t await_resume() {if (!ok) throw mock::Error(); return b.size;}
 };

 struct write_waiter
 {
  mock::Socket_State &s;
  mutable_buffer b;
  bool ok = false;
  bool await_ready() {return false;}
  void await_suspend(std::coroutine_handle<> h)
  {
   ok = !s.client_closed;
   if (ok) s.out.append(b.data, b.size);
   mock::loop->post([h]{h.resume();});
  }
  size_t await_resume() {if (!ok) throw mock::Error(); return b.size;}
 };

 inline read_waiter async_read(local::stream_protocol::socket &s, mutable_buffer b, use_awaitable_t) {return {*s.state, b};}
 inline write_waiter async_write(local::stream_protocol::socket &s, mutable_buffer b, use_awaitable_t) {return {*s.state, b};}

 namespace detail
 {
  struct spawned
  {
   struct promise_type
   {
    spawned get_return_object() {return {std::coroutine_handle<promise_type>::from_promise(*this)};}
    std::suspend_always initial_suspend() noexcept {return {};}
    std::suspend_never final_suspend() noexcept {return {};}
    void return_void() {}
    void unhandled_exception() {std::terminate();}
   };
   std::coroutine_handle<promise_type> h;
  };
  template<typename H> spawned spawn(awaitable<void> a, H handler)
  {
   std::exception_ptr e;
   try
   {
    awaitable<void> b(std::move(a));
    co_await b;
   }
   catch (...) {e = std::current_exception();}
   handler(e);
  }
 }
 template<typename E, typename H> void co_spawn(E &, awaitable<void> a, H handler)
 {
  auto s = detail::spawn(std::move(a), std::move(handler));
  auto h = s.h;
  mock::loop->post([h]{h.resume();});
 }
}
#endif
