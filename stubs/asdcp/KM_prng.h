#ifndef STUB_KM_PRNG_H
#define STUB_KM_PRNG_H
#include <asdcp/KM_util.h>
namespace Kumu { class FortunaRNG { public: FortunaRNG(); ~FortunaRNG(); const byte_t* FillRandom(byte_t*, ui32_t); }; }
#endif
