#pragma once
#include "sim.h"
// explorer <-> simulator
struct LibInfo { char *lo, *hi; char *text_lo, *text_hi; void *handle; };
extern LibInfo LIB;
struct TlsInfo { size_t size, filesz; char *live; const char *image; char *of(int thr); };
extern TlsInfo TLS;
extern uint8_t *REDZ;             // red zones of static arrays in the library's data
#include <vector>
extern std::vector<char *> REDZONES;
extern uint8_t *CONF;             // conflict byte map of the library's data (shared by workers)
extern uint8_t *CONF_P;           // the map in force: the one at the start of the pass
extern volatile int *CONF_GEN;    // number of times it grew
extern bool RUNNING;              // an execution is in progress
extern int LIVE;                  // live threads incl. environment

enum { K_SCHED, K_PICK, K_DEV };
int choose(int kind, int n, u64 costmask);   // option 0 is default; bit i of costmask: option i costs a deviation
void end_execution();             // back to the explorer
void reset_world();
void *mon_alloc_reset();
void heap_check();                // red zones of allocated blocks
void load_objects(const char *file);   // bounds of the library's data objects
u64 fingerprint();
void mem_reset();
void sys_touch(const void *p, size_t n, bool wr);   // the system reads or writes memory that the library gave it
extern u64 NTRANS;
extern char FAIL_PROP[16], FAIL_MSG[1024]; extern bool FAILED, PRUNED;
extern void *EXPL_SP;
extern "C" void co_switch(void **save, void *to);
void boot_main_thread();
extern int (*BOOT_MAIN)(int, char **, char **);
extern bool VERBOSE;
extern u64 LOGHASH;
extern bool TRACK;
