/* State of the generator, for the scheduler of cases and for programs that repeat a case elsewhere. */
#ifndef RNG_H_
#define RNG_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#define RNG_DICT 2048U
extern uint64_t rng_s;
extern const uint8_t* gin;      /* guided input, NULL: none */
extern size_t gin_n;
extern size_t gin_pos;
extern uint64_t rng_dict[RNG_DICT];
extern unsigned n_rng_dict;
extern unsigned n_rng_marks;
/* constants and strings the machine code has and the recorded original has not */
#define RNG_FRESH 256U
extern uint64_t rng_fresh[RNG_FRESH];
extern unsigned n_rng_fresh;
extern bool rng_focus;          /* this case uses them for half of its choices */
#define RNG_WORDS 64U
#define RNG_WORD 32U
extern char rng_words[RNG_WORDS][RNG_WORD];
extern unsigned n_rng_words;
void rng_case(void);            /* a case begins */
#endif
