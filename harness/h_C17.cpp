#include "nv.hpp"
namespace nv {
bool impl_islinear(MagnetostaticProp& p) { return p.isLinear(); }
bool spec_islinear(MagnetostaticProp& p) { return p.bh_curve.empty(); }
// slope between two neighbouring points; the pair starts at the first point not below B, or at the last pair
double spec_getmu(const MagnetostaticProp& p, double B) {
    if (p.bh_curve.size() == 0) return p.mu;
    if (p.bh_curve.size() == 1) throw 1;
    BH_Curve::const_iterator a = p.bh_curve.lower_bound({B, 0}), b;
    if (a == p.bh_curve.begin()) { b = a; ++b; }
    else if (a == p.bh_curve.end()) { --a; b = a; --a; }
    else { b = a; ++b; if (b == p.bh_curve.end()) { b = a; --a; } }
    return (b->B - a->B) / (b->H - a->H);
}
double spec_getmu__2(const MagnetostaticProp& p, double B) {
    if (p.bh_curve.size() == 0) return p.mu;
    if (p.bh_curve.size() == 1) throw 1;
    BH_Curve::const_iterator a = p.bh_curve.lower_bound({B, 0}), b;
    if (a == p.bh_curve.end()) { --a; b = a; --a; }
    else { b = a; ++b; if (b == p.bh_curve.end()) { b = a; --a; } }
    return (b->B - a->B) / (b->H - a->H);
}
// relaxation of the nonlinear iteration: linear materials take their permeability, others approach it as iter grows
void impl_updatemu(std::vector<Vector>& B, std::vector<const MagnetostaticProp*>& props, std::vector<double>& mu, double residual, uint32_t iter) { size(0, &B, 16); sizeis(&mu, B.size(), 8); MagnetostaticSimulation::updateMu(B, props, mu, residual, iter); }
void spec_updatemu(std::vector<Vector>& B, std::vector<const MagnetostaticProp*>& props, std::vector<double>& mu, double residual, uint32_t iter) {
    size(0, &B, 16); sizeis(&mu, B.size(), 8);
    const double old = std::exp(iter / -5.);
    for (uint32_t i = 0; i < B.size(); i++) {
        const double now = props[i]->getMu(std::sqrt(B[i].x * B[i].x + B[i].y * B[i].y));
        if (props[i]->bh_curve.empty()) mu[i] = now;
        else mu[i] = now * (1 - old) + (mu[i] + 4 * PI * 1e-7 * residual * residual) * old;
    }
}
}
