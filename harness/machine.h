/* The library on other machines: programs built for them (guest/) repeat an operation and answer with digests of its results. */
#ifndef MACHINE_H_
#define MACHINE_H_
#include <stddef.h>
#include <stdint.h>

/* question: u32 what, u32 operation, u64 case, u64 generator, u32 size and u32 position of the guided input, its bytes; or
 * u32 MACHINE_DICT, u32 number of constants, of new ones and of strings, u64 constants, the strings. Answer: u32 1 (done), 2 (failed) or 3 (cannot), u32 number of steps,
 * u64 digest, u64 digest after each step; the text of a failure at MACHINE_MSG. All numbers little-endian. */
#define MACHINE_RUN 1U
#define MACHINE_DICT 2U
#define MACHINE_IN (32U + 8U * (2048U + 256U) + 64U * 32U)
#define MACHINE_MSG (16U + 8U * 512U)
#define MACHINE_OUT (MACHINE_MSG + 240U)

/* "name:path"; ELF programs for MIPS are interpreted, others are started */
void machine_add(const char* arg);
unsigned machine_count(void);
const char* machine_name(unsigned m);
/* runs operation op with the current choices of the generator; NULL, or why there is no answer;
 * no answer and no reason: the machine does not run on this computer */
const char* machine_run(unsigned m, unsigned op, const uint8_t** answer);
uint64_t machine_instructions(void);
#endif
