// All operations for vectors of width SIM_W ([SIM_W-1:0]); compiled once per width with -DSIM_W=...
#include "cat.hh"

#include "vec_ops.hh"
using namespace cat;

namespace {
template <int SIMW>
void all() {
    using LU = logic::logic<SIMW - 1, 0, false>;
    using LS = logic::logic<SIMW - 1, 0, true>;
    using BU = logic::bit<SIMW - 1, 0, false>;
    using BS = logic::bit<SIMW - 1, 0, true>;
    unary<LU>();
    unary<LS>();
    unary<BU>();
    unary<BS>();
    if constexpr (SIMW > 320) {  // a register of several cache lines: the same code, longer loops and texts
        binary<LU, LU>();
        binary<BU, BU>();
        binary<BU, BS>();
        return;
    } else {
    binary<LU, LU>();
    binary<LU, LS>();
    binary<LS, LU>();
    binary<LS, LS>();
    binary<BU, BU>();
    binary<BU, BS>();
    binary<BS, BU>();
    binary<BS, BS>();
    // mixed state counts
    binary<LU, BU>();
    binary<LU, BS>();
    binary<LS, BS>();
    binary<BU, LU>();
    // mixed widths
    constexpr int W2 = SIMW == 20 ? 100 : 20;
    constexpr int W3 = SIMW == 129 ? 65 : 129;
    using LU2 = logic::logic<W2 - 1, 0, false>;
    using LS2 = logic::logic<W2 - 1, 0, true>;
    using BU2 = logic::bit<W2 - 1, 0, false>;
    using BS2 = logic::bit<W2 - 1, 0, true>;
    using LU3 = logic::logic<W3 - 1, 0, false>;
    using BU3 = logic::bit<W3 - 1, 0, false>;
    binary<LU, LU2>();
    binary<BU, BU2>();
    binary<LS, LS2>();
    binary<BS, BS2>();
    binary<LU, LU3>();
    binary<BU, BU3>();
    binary<LU2, LU>();
    binary<BU2, BU>();
    binary<BS2, BU>();
    }
}
Registrar r_(all<SIM_W>);
}  // namespace
