#pragma once
// Thin forwarding layer: each phase of the plotter is compiled in its own translation unit (phase_N.cpp)
// so that the checks build in parallel. Nothing but the public compute() entry points is used.
#include <array>
#include <vector>
#include <string>
#include <mutex>
#include <iostream>
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <chia/phase4.h>
void run_phase1(const phase1::input_t& in, phase1::output_t& out, int threads, int log_buckets, const std::string& name, const std::string& t1, const std::string& t2);
void run_phase2(const phase1::output_t& in, phase2::output_t& out, int threads, int log_buckets, const std::string& name, const std::string& t1, const std::string& t2);
void run_phase3(phase2::output_t& in, phase3::output_t& out, int threads, int log_buckets, const std::string& name, const std::string& t1, const std::string& t2, const std::string& plot_dir);
void run_phase4(const phase3::output_t& in, phase4::output_t& out, int threads, int log_buckets, const std::string& name, const std::string& t1, const std::string& t2, const std::string& plot_dir);
