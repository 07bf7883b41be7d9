// Overlay used by the symbolic build only: an internal assertion that fails aborts the path without formatting.
// The symbolic build keeps assertions on, as in the project's Debug configuration.
#pragma once
#include <cstdlib>
#include <iostream>
#include <string_view>
#include "utils/fmt.hpp"
#include "utils/ignore.hpp"
#include "utils/Parallel.hpp"
extern "C" [[noreturn]] void __verif_assertion(const char *expr, const char *file);
#define PRECICE_ASSERT_1(check, ...)               \
  do {                                             \
    if (!(check))                                  \
      ::__verif_assertion(#check, __FILE__);       \
  } while (false)
#define PRECICE_ASSERT(...) PRECICE_ASSERT_1(__VA_ARGS__, )
#define PRECICE_UNREACHABLE(...)                    \
  {                                                 \
    ::__verif_assertion("unreachable", __FILE__);   \
  }
