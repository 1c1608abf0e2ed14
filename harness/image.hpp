#pragma once
#include "props.hpp"
struct ImgCase { ref::Model m; ref::Img im; int R = 0, C = 0; };
ImgCase gen_case(Rng& r, const GenOpt& o, int force_type);  // -2: any type, -1: standard or injection
std::string show_case(const ImgCase& c);
uint64_t hash_case(const ImgCase& c);
double model_rho(const ref::Model& m);
bool has_continuum(const ref::Model& m);
double img_tol(const ref::Model& m, const ref::Img& im);
double n_transfers_bound(const ref::Model& m, int R);
ref::Img par_add(const ref::Img& im, const ref::Model& m, int neg = 1, int prune_f = 0, double prune_n = 1e-10);
bool judge_model(Ctx& ctx, const ImgCase& c, int neg, const std::string& key);
