#pragma once
#include <stdint.h>
enum { SIM_OP_OPENR = 0, SIM_OP_OPENW, SIM_OP_WRITE, SIM_OP_READ, SIM_OP_STAT, SIM_OP_MMAP, SIM_OP_CLOSE,
       SIM_OP_SEEK, SIM_OP_TRUNC, SIM_OP_SYNC, SIM_OP_META, SIM_OP_N = 16 };
enum { SIM_MUT_CREATE = 1, SIM_MUT_TRUNC, SIM_MUT_WRITE, SIM_MUT_UNLINK, SIM_MUT_RENAME };
enum { SIM_END_DEADLOCK = 1, SIM_END_LIVELOCK = 2, SIM_END_INTERNAL = 3 };
#define SIM_MAX_FAULTS 64
#define SIM_MAX_OV 400000
#define SIM_ZERO 0x7fffffffffffull
typedef struct { uint64_t step, what; } SimOverride;
typedef struct { uint64_t op, nth, count, err, arg; } SimFault;
typedef struct { uint64_t sched_seed, strategy, gap, pct_depth, pct_len, cpus, rnd_seed, max_steps, fair_after; } SimConfig;
typedef struct {
  uint64_t end_code; char end_msg[256];
  uint64_t steps, switches, preemptions, threads, state_hash, sim_ns, timer_fires, getrandom_calls;
  uint64_t io[SIM_OP_N], f_err[SIM_OP_N];
  uint64_t fired[SIM_MAX_FAULTS], fired_total, f_eintr, f_short, f_enospc, bytes_written, mmaps;
  uint64_t mem_refused, mem_refuse_size;
  uint64_t n_ov, ov_overflow;
  SimOverride ov[SIM_MAX_OV];
} SimShared;
