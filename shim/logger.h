// Replaces the repository's logger: messages are dropped, as they are when the
// severity filter rejects them (arguments are not evaluated).
#ifndef simpleLogger_h__
#define simpleLogger_h__
#include <iostream>
struct SxNullLog { template <class T> const SxNullLog &operator<<(const T &) const { return *this; } const SxNullLog &operator<<(std::ostream &(*)(std::ostream &)) const { return *this; } };
#define SX_LOG_ if (true) ; else SxNullLog()
#define LOG_TRACE SX_LOG_
#define LOG_DEBUG SX_LOG_
#define LOG_INFO SX_LOG_
#define LOG_WARNING SX_LOG_
#define LOG_ERROR SX_LOG_
#define LOG_FATAL SX_LOG_
#endif
