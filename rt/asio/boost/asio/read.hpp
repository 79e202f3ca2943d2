#include "boost/asio/mock.hpp"
