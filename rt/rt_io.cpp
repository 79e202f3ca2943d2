// The standard stream objects: storage only (see rt_init_streams).
#include <istream>
#include <ostream>
namespace std
{
 typedef char fake_ostream[sizeof(ostream)] __attribute__((aligned(__alignof__(ostream))));
 typedef char fake_istream[sizeof(istream)] __attribute__((aligned(__alignof__(istream))));
 fake_ostream cout, cerr, clog;
 fake_istream cin;
 extern const nothrow_t nothrow;
 const nothrow_t nothrow = nothrow_t{};
}
