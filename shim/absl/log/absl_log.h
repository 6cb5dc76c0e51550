#pragma once
#include "absl/log/absl_check.h"
#define ABSL_LOG(s) ::symx_log::Sink()
#define ABSL_LOG_FIRST_N(s, n) ::symx_log::Sink()
#define ABSL_LOG_IF(s, c) ::symx_log::Sink()
