#include <mutex>
#include <iostream>
#include <numeric>
#include <chia/phase4.hpp>
#include <chia/DiskSort.hpp>
#include "phases.hpp"
void run_phase4(const phase3::output_t& in, phase4::output_t& out, int th, int lb, const std::string& n, const std::string& t1, const std::string& t2, const std::string& pd) { phase4::compute(in, out, th, lb, n, t1, t2, pd); }
