// A link between a client and the server that fragments data and may break at any point
#ifndef HARNESS_LINK_H
#define HARNESS_LINK_H
#include "server.h"
#include "joedb/concurrency/Connector.h"

namespace
{
 struct Broken: public std::runtime_error {Broken(): std::runtime_error("broken link") {}};

 int faults = 0;        // links that may still break
 int fragments = 0;      // transfers that may be split
 bool may_block = false;
 bool threads = false; // a keep-alive thread runs
 int requests = 0; // sent while there are threads

 class Link: public joedb::Channel
 {
  public:
   std::shared_ptr<mock::Socket_State> s = mock::loop->connect();
   bool broken = false;

   Link() {mock::loop->drain();}
   void cut()
   {
    broken = true;
    s->client_closed = true;
    mock::loop->arrived(*s);
    mock::loop->drain();
   }
   ~Link() override {if (!broken) cut();}

   size_t write_some(const char *data, size_t size) override
   {
    // the keep-alive thread may ping for as long as it likes: this bounds what is explored
    if (threads && ++requests > int(sym_param("requests", 12))) sym_stop();
    if (broken) throw Broken();
    if (s->server_closed) throw Broken();
    size_t n = size;
    if (faults > 0 && sym_choice("cut_write", 2))
    {
     faults--;
     sym_reach("cut");
     // some of the data may have gone through
     static const int parts = 4;
     const uint32_t part = sym_choice("cut_at", parts);
     n = part == 0 ? 0 : part == 1 ? 1 : part == 2 ? size - 1 : size;
     s->in.append(data, n);
     mock::loop->arrived(*s);
     if (sym_choice("cut_late", 2)) mock::loop->drain();
     cut();
     throw Broken();
    }
    if (fragments > 0 && size > 1 && sym_choice("fragment", 2)) {fragments--; n = size / 2;}
    s->in.append(data, n);
    mock::loop->arrived(*s);
    mock::loop->drain();
    return n;
   }

   size_t read_some(char *data, size_t size) override
   {
    if (broken) throw Broken();
    mock::loop->drain();
    size_t n = std::min(size, s->out.size());
    if (faults > 0 && sym_choice("cut_read", 2))
    {
     faults--;
     sym_reach("cut");
     cut();
     throw Broken();
    }
    if (n == 0)
    {
     if (s->server_closed) throw Broken();
     if (may_block) sym_stop();
     sym_fail("a reply of the server that never comes");
    }
    if (fragments > 0 && n > 1 && sym_choice("fragment", 2)) {fragments--; n = 1;}
    std::memcpy(data, s->out.data(), n);
    s->out.erase(0, n);
    return n;
   }
 };

 struct Links: public joedb::Connector
 {
  std::function<void()> before;
  mutable Link *last = nullptr;
  std::unique_ptr<joedb::Channel> new_channel() const override
  {
   if (before) before();
   auto result = std::make_unique<Link>();
   last = result.get();
   return result;
  }
 };
}
#endif
