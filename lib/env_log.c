/* Diagnostics do nothing (their text is not the subject); the logging
 * properties link the real logger instead of this file. */
#include <stddef.h>
#include "log/logger_data.h"
void __xlog_internal_print(int level, const char *tag, const char *func, int line, const char *fmt, ...) {}
void __xlog_internal_hex_print(int level, const char *tag, const char *chars, size_t n) {}
void __slog_internal_hex_print(int level, const char *tag, const char *chars, size_t n) {}
LogLevel _g_slog_min_level = 0; /* off */
