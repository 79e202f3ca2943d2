#ifndef remote_rpc_Service_declared
#define remote_rpc_Service_declared

#include "remote/Client.h"
#include "remote/rpc/msg/Writable_Database.h"

namespace remote::rpc
{
 class Service
 {
  private:
   Client &client;

  public:
   size_t padding = 0;
   std::string filler() const
   {
    std::string s(padding, '.');
    for (size_t i = 0; i < padding; i++) s[i] = char('a' + i % 23);
    return s;
   }
   Service(Client &client): client(client) {}

   void add(msg::Writable_Database &message)
   {
    for (const auto row: message.get_row_table())
     if (message.get_value(row) == 0)
      throw joedb::Exception(message.get_name(row) + filler());
    client.transaction([&](Writable_Database &db)
    {
     for (const auto row: message.get_row_table())
      message.set_item(row, db.new_item(message.get_value(row), message.get_name(row)));
    });
   }

   void list(msg::Writable_Database &message)
   {
    for (const auto row: message.get_row_table())
     message.set_value(row, message.get_value(row) + 1);
    for (const auto item: client.get_database().get_item_table())
    {
     const auto row = message.new_row();
     message.set_value(row, client.get_database().get_value(item));
     message.set_name(row, client.get_database().get_name(item) + filler());
     message.set_item(row, item);
    }
   }
 };
}

#endif
