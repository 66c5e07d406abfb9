// Environment model shared by the engine and native replay: in-memory file system with crash and fault points, clock, randomness.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int64_t env_now;            // seconds
extern int64_t env_tz;             // seconds east of UTC
extern int env_crash_at;           // index of the mutating operation at which the machine dies (-1: never)
extern int env_ops;                // mutating operations so far
extern int env_crashed;
extern int env_fault_at;           // index of the operation that fails (-1: never)
extern int env_fault_sticky;       // all later operations fail too
extern int env_fopen_ro_fail;
extern uint64_t (*env_rand_hook)(void);
extern int64_t env_civil_lo, env_civil_hi; // if set: calendar conversions split on the day, which lies in this range
void env_reset(void);
void env_restart(void);            // after a crash: forget open files, resume operation
void env_put(const char* path, const void* data, size_t n);
void env_mkdir_(const char* path);
int env_exists(const char* path);
long env_size(const char* path);
const unsigned char* env_data(const char* path);
int env_count(void);
int env_open_files(void);
void env_crash_prefix(uint64_t (*f)(uint64_t lo, uint64_t hi));
extern const char* env_opened[64]; extern int env_nopened; // every name passed to fopen
#ifdef __cplusplus
}
#endif
