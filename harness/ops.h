/* Catalogue of calls covering every public function, run under different observers (M01, M02, M03, M04, M06, M08, M09, M11, M12).
 * An operation draws its arguments from the case PRNG, takes its memory from x_in/x_out/x_io, brackets every library
 * call with X_CALL, declares what the call may have written with x_wrote and reports results with x_res/x_ret. */
#ifndef OPS_H_
#define OPS_H_
#include "mon.h"

enum { XM_SAFE, XM_WRITES, XM_RO, XM_STALE, XM_DIGEST, XM_SERVICE, XM_PLACE, XM_MACHINE };
#define X_PLACES 9U         /* passes of XM_PLACE */
const char* x_place_name(unsigned pass);

typedef struct {
    const char* name;
    void (*fn)(void);
    unsigned weight;
} x_op;
extern const x_op x_ops[];
extern const unsigned n_x_ops;

#define X_SCRATCH (1UL << 20)
void x_set_scratch(uint8_t* p);   /* memory for the contents of buffers; otherwise the first use allocates it */

#define X_STEPS 512U
typedef struct {
    uint64_t digest;
    const char* what;
} x_step;
extern x_step x_steps[X_STEPS];  /* XM_MACHINE: the digest after each result of the last operation */
extern unsigned n_x_steps;

extern int x_mode;
extern unsigned x_pass;      /* XM_STALE: which garbage is used */

void x_start(int mode, unsigned pass);
uint64_t x_run(unsigned op);     /* runs one operation, returns the digest of its results */
const void* x_in(const void* data, size_t n, size_t align);
void* x_out(size_t n, size_t align);
void* x_io(const void* data, size_t n, size_t align);
void x_begin(void);
void x_end(void);
void x_wrote(const void* p, size_t n);
void x_query(const void* p);     /* the coming call only reads this x_io/x_out block */
void x_query_end(void);
void x_res(const void* p, size_t n, const char* what);
void x_ret(uint64_t v);
#define X_CALL(stmt) do { x_begin(); stmt; x_end(); } while (0)
#endif
