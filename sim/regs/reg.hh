// Register programs: types and operations of the simulated design (C08, C09, C11).
// The operations themselves are compiled with the seam instrumentation (regs_types.cc); the
// per-bit reference model that interprets `kind` lives in the harness (simregs.cc).
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

namespace regs {
constexpr int kMaxWords = 8;
struct Arg {
    int i = 0, j = 0;
    int v = 0;       // bool
    int st = 0;      // one bit: 0, 1, 2 = x, 3 = z
    uint64_t n = 0;  // number
    uint64_t nhi = 0;
    uint64_t xm = 0;  // unknown bits of n
    uint32_t len = 0;
    char text[560];
};
struct Res {
    int n = 0;  // result bits
    bool clean = true;  // compares equal to the value with exactly these bits
    uint64_t w[kMaxWords], x[kMaxWords];
    int len = -1;
    char text[700];
};
enum Kind {
    SET, SETL, SETX, SETZ, SETCT, SETCT2, SETXCT, SETZCT,  // one bit
    UPD, UPDCT, UPDB, HELD,                                // part select := register
    IDX, GETCT, XSET, ZSET, XSETCT, ZSETCT,                // read one bit
    SLICE, SLICECT, SLICEB, UNPACK,                        // read part
    ASSIGN, ASSIGNINT, CTORINT, COPY, SWAP, MOVE,          // whole register
    TEXT, STR, EXT,
    XFER, XASSIGN, XEXT, XBIT,                             // register to register through a temporary
    PUPD, PUPDCT, PIDX, PSLICECT,                          // packed arrays
    UUPDCT, UIDX, UELEM, USET,                             // unpacked arrays
    KINDS
};
inline const char* kind_name(int k) {
    static const char* n[] = {"set", "set_bit", "set_x", "set_z", "set_ct", "set_ct2", "set_x_ct", "set_z_ct", "update", "update_ct",
                              "update_base", "held_ref", "index", "get_ct", "x_set", "z_set", "x_set_ct", "z_set_ct", "slice", "slice_ct", "slice_base",
                              "unpack", "assign", "assign_int", "from_int", "copy", "swap", "move", "from_text", "to_text", "extend",
                              "update_from_slice", "assign_slice", "assign_extend", "set_from_bit", "elem_update", "elem_update_ct",
                              "elem_index", "elem_slice_ct", "uelem_update_ct", "uelem_index", "uelem_assign", "uelem_set"};
    return n[k];
}
enum TypeKind { T_vec, T_parr, T_uarr };
struct RegType {
    std::string name;
    int kind = T_vec;
    uint32_t size = 0, align = 1;
    int W = 0;
    bool is4 = false, sgn = false;
    int msb = 0, lsb = 0;               // vectors
    int elem = 0, amsb = 0, alsb = 0;   // arrays: element width and declared range of elements
    bool elem4 = false;
    bool text = false;                  // can be saved as text
    void (*init)(void*) = nullptr;
    void (*write)(void*, const uint64_t*, const uint64_t*) = nullptr;
    void (*read)(const void*, uint64_t*, uint64_t*) = nullptr;
    bool (*clean)(const void*) = nullptr;
    void (*to_text)(const void*, Res&, char base) = nullptr;      // instrumented
    void (*from_text)(void*, const Arg&) = nullptr;    // instrumented
    std::vector<int> ops;                              // filled by the harness
};
using OpFn = void (*)(void* self, void* other, const Arg& a, Res& r);
struct ROp {
    int kind, self, other;
    int p0, p1, p2;
    std::string name;
    OpFn fn;
};
std::vector<RegType>& types();
std::vector<ROp>& rops();
int add_type(const RegType& t);  // finds or adds by name
void add_op(int kind, int self, int other, int p0, int p1, int p2, const char* variant, OpFn fn);
struct Registrar {
    explicit Registrar(void (*f)());
};
}  // namespace regs
