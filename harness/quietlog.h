#pragma once
#include <stdarg.h>
// STUB: the message functions do nothing
#undef debug
void debug(const char*, const char*, int, const char*, ...) {}
void error(const char*, ...) {}
void warn(const char*, ...) {}
void info(const char*, ...) {}
void detail(const char*, ...) {}
