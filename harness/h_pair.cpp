// C24: the same harness compiled under two configurations (run_a, run_b), run one after
// the other on the same symbolic inputs: every observation must agree.
#include <cstdint>
#include <cstddef>
extern "C" {
uint32_t sx_u32(const char* name);
uint64_t sx_u64(const char* name);
int sx_bool(const char* name);
uint32_t sx_below(uint32_t limit, const char* name);
void sx_assert(int c, const char* msg);
void sx_assume(int c);
void sx_obs(uint64_t v);
void sx_cover(const char* label);
void run_a(void);
void run_b(void);
enum { TAPE = 96, LOG = 96 };
static uint64_t tape[TAPE]; static uint32_t kind[TAPE]; static uint32_t used, pos;
static uint64_t logv[LOG]; static uint32_t nlog, lpos;
static int side;
static uint64_t next(uint32_t k, const char* n) {
    if (side == 0) {
        sx_assert(used < TAPE, "harness: tape length");
        uint64_t v = k == 1 ? sx_u32(n) : k == 2 ? sx_u64(n) : k == 3 ? (uint64_t)(sx_bool(n) != 0) : sx_below(k - 16, n);
        tape[used] = v; kind[used] = k; ++used;
        return v;
    }
    sx_assert(pos < used, "the second configuration does no more than the first");
    sx_assert(kind[pos] == k, "both configurations do the same things in the same order");
    return tape[pos++];
}
uint32_t sxt_u32(const char* n) { return (uint32_t)next(1, n); }
uint64_t sxt_u64(const char* n) { return next(2, n); }
int sxt_bool(const char* n) { return (int)next(3, n); }
uint32_t sxt_below(uint32_t l, const char* n) { return (uint32_t)next(16 + l, n); }
void sxt_obs(uint64_t v) {
    if (side == 0) { sx_assert(nlog < LOG, "harness: log length"); logv[nlog++] = v; sx_obs(v); }
    else { sx_assert(lpos < nlog, "both configurations observe as much"); sx_assert(logv[lpos] == v, "both configurations observe the same"); ++lpos; }
}
void sx_main(void) {
    run_a();
    side = 1;
    run_b();
    sx_assert(pos == used && lpos == nlog, "the second configuration does no less than the first");
    sx_cover("pair end");
}
}
