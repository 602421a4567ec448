#pragma once
// logging is dropped from the verified text and from the native stand-ins alike
#include <string>
#include <fmt/format.h>
namespace spdlog {
template<class... A> inline void trace(const A&...) {}
template<class... A> inline void debug(const A&...) {}
template<class... A> inline void info(const A&...) {}
template<class... A> inline void warn(const A&...) {}
template<class... A> inline void error(const A&...) {}
template<class... A> inline void critical(const A&...) {}
}
