// The server's real sources, over a stand-in for boost::asio
#ifndef HARNESS_SERVER_H
#define HARNESS_SERVER_H
#include "common.h"
#include "boost/asio/mock.hpp"
#include "joedb/concurrency/Server.h"
#ifdef WITH_CLIENT
#include "joedb/concurrency/Server_Connection.h"
#endif
#include "joedb/journal/File_Hasher.h"
#include "joedb/ui/Progress_Bar.h"
#include "joedb/error/Destructor_Logger.h"
#include <algorithm>
// numbers in log messages are not examined: do not explore their digits
namespace std {template<typename T> inline string number_in_log(T) {return "#";}}
#define to_string number_in_log
#include "joedb/asio/Server.cpp"
#include "joedb/concurrency/Server.cpp"
#ifdef WITH_CLIENT
#include "joedb/concurrency/Server_Client.cpp"
#include "joedb/concurrency/Server_Connection.cpp"
#endif
#undef to_string
namespace h
{
 template<typename T> void append(std::string &s, T x)
 {
  char b[sizeof(T)];
  std::memcpy(b, &x, sizeof(T));
  s.append(b, sizeof(T));
 }
 inline std::string hello()
 {
  std::string s = "joedb";
  append(s, int64_t(joedb::protocol_version));
  return s;
 }
}
#endif
