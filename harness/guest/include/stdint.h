/* from what the compiler predefines */
#ifndef STDINT_H_
#define STDINT_H_
typedef __INT8_TYPE__ int8_t;
typedef __INT_LEAST8_TYPE__ int_least8_t;
typedef __INT_FAST8_TYPE__ int_fast8_t;
typedef __UINT8_TYPE__ uint8_t;
typedef __UINT_LEAST8_TYPE__ uint_least8_t;
typedef __UINT_FAST8_TYPE__ uint_fast8_t;
#define INT8_MAX __INT8_MAX__
#define INT8_MIN (-__INT8_MAX__ - 1)
#define UINT8_MAX __UINT8_MAX__
#define INT8_C(c) c
#define UINT8_C(c) c
typedef __INT16_TYPE__ int16_t;
typedef __INT_LEAST16_TYPE__ int_least16_t;
typedef __INT_FAST16_TYPE__ int_fast16_t;
typedef __UINT16_TYPE__ uint16_t;
typedef __UINT_LEAST16_TYPE__ uint_least16_t;
typedef __UINT_FAST16_TYPE__ uint_fast16_t;
#define INT16_MAX __INT16_MAX__
#define INT16_MIN (-__INT16_MAX__ - 1)
#define UINT16_MAX __UINT16_MAX__
#define INT16_C(c) c
#define UINT16_C(c) c
typedef __INT32_TYPE__ int32_t;
typedef __INT_LEAST32_TYPE__ int_least32_t;
typedef __INT_FAST32_TYPE__ int_fast32_t;
typedef __UINT32_TYPE__ uint32_t;
typedef __UINT_LEAST32_TYPE__ uint_least32_t;
typedef __UINT_FAST32_TYPE__ uint_fast32_t;
#define INT32_MAX __INT32_MAX__
#define INT32_MIN (-__INT32_MAX__ - 1)
#define UINT32_MAX __UINT32_MAX__
#define INT32_C(c) c
#define UINT32_C(c) c##U
typedef __INT64_TYPE__ int64_t;
typedef __INT_LEAST64_TYPE__ int_least64_t;
typedef __INT_FAST64_TYPE__ int_fast64_t;
typedef __UINT64_TYPE__ uint64_t;
typedef __UINT_LEAST64_TYPE__ uint_least64_t;
typedef __UINT_FAST64_TYPE__ uint_fast64_t;
#define INT64_MAX __INT64_MAX__
#define INT64_MIN (-__INT64_MAX__ - 1)
#define UINT64_MAX __UINT64_MAX__
#define INT64_C(c) c##LL
#define UINT64_C(c) c##ULL
typedef __INTPTR_TYPE__ intptr_t;
#define INTPTR_MAX __INTPTR_MAX__
typedef __UINTPTR_TYPE__ uintptr_t;
#define UINTPTR_MAX __UINTPTR_MAX__
typedef __INTMAX_TYPE__ intmax_t;
#define INTMAX_MAX __INTMAX_MAX__
typedef __UINTMAX_TYPE__ uintmax_t;
#define UINTMAX_MAX __UINTMAX_MAX__
#define INTPTR_MIN (-__INTPTR_MAX__ - 1)
#define INTMAX_MIN (-__INTMAX_MAX__ - 1)
#define SIZE_MAX __SIZE_MAX__
#define PTRDIFF_MAX __PTRDIFF_MAX__
#define PTRDIFF_MIN (-__PTRDIFF_MAX__ - 1)
#define INTMAX_C(c) c##LL
#define UINTMAX_C(c) c##ULL
#endif
