// <bits/charconv.h> of libstdc++ 13 with the decimal case written as one
// formatted print, which the engine models for symbolic numbers; other bases
// and the interface are as in the original.
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#pragma GCC system_header
#if __cplusplus >= 201103L
#include <type_traits>
#include <ext/numeric_traits.h>
extern "C" int sprintf(char* __restrict, const char* __restrict, ...) noexcept(true);
namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
namespace __detail
{
#if __cpp_variable_templates
  template<typename _Tp>
    constexpr bool __integer_to_chars_is_unsigned
      = ! __gnu_cxx::__int_traits<_Tp>::__is_signed;
#endif
  template<typename _Tp>
    constexpr unsigned
    __to_chars_len(_Tp __value, int __base = 10) noexcept
    {
      static_assert(sizeof(_Tp) <= 8, "wider integers are not modelled");
      if (__base == 10)
	{
	  char __tmp[32];
	  return (unsigned)sprintf(__tmp, "%lu", (unsigned long)__value);
	}
      unsigned __n = 1;
      const unsigned __b2 = __base  * __base;
      const unsigned __b3 = __b2 * __base;
      const unsigned long __b4 = __b3 * __base;
      for (;;)
	{
	  if (__value < (unsigned)__base) return __n;
	  if (__value < __b2) return __n + 1;
	  if (__value < __b3) return __n + 2;
	  if (__value < __b4) return __n + 3;
	  __value /= __b4;
	  __n += 4;
	}
    }
  template<typename _Tp>
    inline void
    __to_chars_10_impl(char* __first, unsigned __len, _Tp __val) noexcept
    {
      char __tmp[32];
      sprintf(__tmp, "%lu", (unsigned long)__val);
      for (unsigned __i = 0; __i < __len; ++__i) __first[__i] = __tmp[__i];
    }
}
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
#endif
