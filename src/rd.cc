// Interposes std::random_device so that the library's random source is seeded by the
// harness and every execution can be replayed.
#include <random>
#include <string>
#include "common.h"
namespace vv {
static thread_local uint64_t g_rd_seed = 12345;
void set_random_device_seed(uint64_t s) { g_rd_seed = s; }
uint32_t next_rd() { g_rd_seed = mix64(g_rd_seed + 0x1234567); return (uint32_t)(g_rd_seed >> 16); }
}
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return vv::next_rd(); }
}
