// Included first in every instrumented translation unit.
#pragma once
#ifdef __cplusplus
extern "C" [[noreturn]] void rt_assert_fail(const char* expr, const char* file, int line);
#define RAPIDJSON_ASSERT(x) ((x) ? static_cast<void>(0) : rt_assert_fail(#x, __FILE__, __LINE__))
#endif
