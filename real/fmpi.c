// A stand-in for an MPI library: logs its name and answers with numbers of its own (NAME, BASE from the command line).
#include <stdio.h>
#ifndef NAME
#define NAME "mpi"
#define BASE 0
#endif
extern void conf_note(const char *) __attribute__((weak));
static void note(const char *f) { char b[80]; snprintf(b, sizeof b, "%s:%s", NAME, f); if (conf_note) conf_note(b); }
#define C(K, I, T, F, R, S) \
  int I(int *argc, char ***argv) { note(#I); return BASE + K + 1; } \
  int T(int *argc, char ***argv, int req, int *prov) { note(#T); *prov = req + 1; return BASE + K + 2; } \
  int F(void) { note(#F); return BASE + K + 3; } \
  int R(void *c, int *n) { note(#R); *n = BASE + K + 4; return 0; } \
  int S(void *c, int *n) { *n = BASE + K + 40; return 0; }
#define F(K, I, T, F, R, S) \
  void I(int *e) { note(#I); *e = BASE + K + 1; } \
  void T(int *req, int *prov, int *e) { note(#T); *prov = *req + 1; *e = BASE + K + 2; } \
  void F(int *e) { note(#F); *e = BASE + K + 3; } \
  void R(int *c, int *n, int *e) { note(#R); *n = BASE + K + 4; *e = 0; } \
  void S(int *c, int *n, int *e) { *n = BASE + K + 40; *e = 0; }
C(0, MPI_Init, MPI_Init_thread, MPI_Finalize, MPI_Comm_rank, MPI_Comm_size)
C(10, PMPI_Init, PMPI_Init_thread, PMPI_Finalize, PMPI_Comm_rank, PMPI_Comm_size)
F(20, mpi_init, mpi_init_thread, mpi_finalize, mpi_comm_rank, mpi_comm_size)
F(30, mpi_init_, mpi_init_thread_, mpi_finalize_, mpi_comm_rank_, mpi_comm_size_)
F(50, mpi_init__, mpi_init_thread__, mpi_finalize__, mpi_comm_rank__, mpi_comm_size__)

// a symbol that only this library has
#define CAT(a, b) a##b
#define ONLY(n) CAT(only_, n)
int ONLY(BASE) = 1;
