// Extraction header: the configuration built here (double precision, MPI, no CUDA, no timers).
#pragma once
#include <vector>
#include <iostream>
#include <sstream>
#include <fstream>
#define ALSVINN_HAS_CONFIG 1
#define ALSVINN_USE_MPI 1
#define ALSVINN_HAS_PARALLEL_HDF5 1
namespace alsutils { std::string getAlsvinnVersion(); }
