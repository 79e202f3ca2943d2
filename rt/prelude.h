// Force-included when compiling to bitcode: the members of the standard streams that go through
// locale facets get the "C" locale implementation of rt.cpp.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <istream>
#include <ostream>
#include <locale>
namespace std
{
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long);
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(unsigned long);
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(bool);
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long long);
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(unsigned long long);
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(double);
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long double);
 template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(const void *);
 template<> basic_ostream<char> &basic_ostream<char>::operator<<(short);
 template<> basic_ostream<char> &basic_ostream<char>::operator<<(int);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(unsigned short &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(unsigned int &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(long &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(unsigned long &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(long long &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(unsigned long long &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(bool &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(float &);
 template<> template<> basic_istream<char> &basic_istream<char>::_M_extract(double &);
 template<> basic_istream<char> &basic_istream<char>::operator>>(short &);
 template<> basic_istream<char> &basic_istream<char>::operator>>(int &);
 template<> basic_istream<char>::sentry::sentry(basic_istream<char> &, bool);
 template<> void basic_ios<char>::_M_cache_locale(const locale &);
 template<> char basic_ios<char>::widen(char) const;
 template<> char basic_ios<char>::narrow(char, char) const;
 template<> locale basic_ios<char>::imbue(const locale &);
}
