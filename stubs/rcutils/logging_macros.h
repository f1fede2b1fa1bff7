#pragma once
#define RCUTILS_LOG_DEBUG(...) do {} while (0)
#define RCUTILS_LOG_DEBUG_NAMED(...) do {} while (0)
#define RCUTILS_LOG_DEBUG_ONCE(...) do {} while (0)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED(...) do {} while (0)
#define RCUTILS_LOG_DEBUG_EXPRESSION(...) do {} while (0)
#define RCUTILS_LOG_DEBUG_EXPRESSION_NAMED(...) do {} while (0)
#define RCUTILS_LOG_INFO(...) do {} while (0)
#define RCUTILS_LOG_INFO_NAMED(...) do {} while (0)
#define RCUTILS_LOG_INFO_ONCE(...) do {} while (0)
#define RCUTILS_LOG_INFO_ONCE_NAMED(...) do {} while (0)
#define RCUTILS_LOG_INFO_EXPRESSION(...) do {} while (0)
#define RCUTILS_LOG_INFO_EXPRESSION_NAMED(...) do {} while (0)
#define RCUTILS_LOG_WARN(...) do {} while (0)
#define RCUTILS_LOG_WARN_NAMED(...) do {} while (0)
#define RCUTILS_LOG_WARN_ONCE(...) do {} while (0)
#define RCUTILS_LOG_WARN_ONCE_NAMED(...) do {} while (0)
#define RCUTILS_LOG_WARN_EXPRESSION(...) do {} while (0)
#define RCUTILS_LOG_WARN_EXPRESSION_NAMED(...) do {} while (0)
#define RCUTILS_LOG_ERROR(...) do {} while (0)
#define RCUTILS_LOG_ERROR_NAMED(...) do {} while (0)
#define RCUTILS_LOG_ERROR_ONCE(...) do {} while (0)
#define RCUTILS_LOG_ERROR_ONCE_NAMED(...) do {} while (0)
#define RCUTILS_LOG_ERROR_EXPRESSION(...) do {} while (0)
#define RCUTILS_LOG_ERROR_EXPRESSION_NAMED(...) do {} while (0)
#define RCUTILS_LOG_FATAL(...) do {} while (0)
#define RCUTILS_LOG_FATAL_NAMED(...) do {} while (0)
#define RCUTILS_LOG_FATAL_ONCE(...) do {} while (0)
#define RCUTILS_LOG_FATAL_ONCE_NAMED(...) do {} while (0)
#define RCUTILS_LOG_FATAL_EXPRESSION(...) do {} while (0)
#define RCUTILS_LOG_FATAL_EXPRESSION_NAMED(...) do {} while (0)
