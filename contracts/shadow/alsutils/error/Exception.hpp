// Extraction header: THROW keeps its control flow (the function does not return normally); the
// message text and the stack trace are dropped.
#pragma once
#include <sstream>
#include <iostream>
#include <exception>
#include <stdexcept>
extern "C" [[noreturn]] void av_throw();
#define THROW(message) { av_throw(); }
