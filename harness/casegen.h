#pragma once
#include "vh.h"
struct GenOpt {
    std::vector<int> kinds{C2C}, backends{B_STOCK, B_FFTW, B_MKL}, algs{0, 1, 2, 3}, variants{0, 1, 2, 3, 4};
    double p_subcomm = 0.08, p_subranks = 0.2, p_empty = 0.0, p_inplace = 0.15; bool no_subcomm = false, fixed_ranks = false, force_explicit = false;
    long long maxn = 5000, maxn_large = 60000; double p_large = 0.02, p_long = 0.015; int long_max = 2200; int max_batch = 4, min_batch = 1; std::array<int, 3> fixed_n{{0, 0, 0}}; int fixed_r2cdir = -1, fixed_prec = -1;
};
Case gen_case(uint64_t seed, int idx, int world, GenOpt const &go);
std::vector<Box> decompose(Rng &g, std::array<int, 3> n, int k, std::string &style, int want);
std::array<int, 3> rand_order(Rng &g);
std::array<int, 3> gen_size(Rng &g, long long maxn, int min_each);
bool is_worker(Case const &c, int r);   // may rank r hold data of the intermediate layouts?
int work_ranks(Case const &c);          // how many do
bool splittable(std::array<int, 3> n, int procs);
