#include <mutex>
#include <iostream>
#include <numeric>
#include <chia/phase1.hpp>
#include <chia/DiskSort.hpp>
#include "phases.hpp"
void run_phase1(const phase1::input_t& in, phase1::output_t& out, int th, int lb, const std::string& n, const std::string& t1, const std::string& t2) { phase1::compute(in, out, th, lb, n, t1, t2); }
