// Extraction header: wall-clock timers are dropped.
#pragma once
#include "alsutils/config.hpp"
namespace alsutils { namespace timer { class Timer {}; } }
#define ALSVINN_TIME_BLOCK(...)
