#include <mutex>
#include <iostream>
#include <numeric>
#include <chia/phase3.hpp>
#include <chia/DiskSort.hpp>
#include "phases.hpp"
void run_phase3(phase2::output_t& in, phase3::output_t& out, int th, int lb, const std::string& n, const std::string& t1, const std::string& t2, const std::string& pd) { phase3::compute(in, out, th, lb, n, t1, t2, pd); }
