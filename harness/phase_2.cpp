#include <mutex>
#include <iostream>
#include <numeric>
#include <chia/phase2.hpp>
#include <chia/DiskSort.hpp>
#include "phases.hpp"
void run_phase2(const phase1::output_t& in, phase2::output_t& out, int th, int lb, const std::string& n, const std::string& t1, const std::string& t2) { phase2::compute(in, out, th, lb, n, t1, t2); }
