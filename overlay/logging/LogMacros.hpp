// Overlay used by the symbolic build only: log messages are not formatted (declared cut: the text of
// messages is outside every claim).  Which branch raises an error, and that it raises precice::Error, is kept.
#pragma once

#include "precice/Exceptions.hpp"
#include "utils/fmt.hpp"
#include "utils/ignore.hpp"

#define PRECICE_NO_DEBUG_LOG
#define PRECICE_NO_TRACE_LOG
#define PRECICE_LOG_LOCATION     \
  precice::logging::LogLocation  \
  {                              \
    __FILE__, 0, __func__ \
  }

extern "C" void __verif_warn(const char *);

#define PRECICE_WARN(msg, ...) ::__verif_warn(std::string{msg}.c_str())
#define PRECICE_INFO(...) \
  do {                    \
  } while (false)
#define PRECICE_ERROR(msg, ...) throw ::precice::Error { std::string{msg} }
#define PRECICE_WARN_IF(condition, ...) \
  do {                                  \
    if (condition) {                    \
      PRECICE_WARN(__VA_ARGS__);        \
    }                                   \
  } while (false)
#define PRECICE_INFO_IF(condition, ...) \
  do {                                  \
    (void) (condition);                 \
  } while (false)
#define PRECICE_CHECK(check, ...) \
  do {                            \
    if (!(check)) {               \
      PRECICE_ERROR(__VA_ARGS__); \
    }                             \
  } while (false)
#define PRECICE_DEBUG(...) \
  do {                     \
  } while (false)
#define PRECICE_DEBUG_IF(...) \
  do {                        \
  } while (false)
#define PRECICE_TRACE(...) \
  do {                     \
  } while (false)
