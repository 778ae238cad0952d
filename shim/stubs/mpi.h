// Stand-in for the part of the MPI interface in use: one of {size} processes, which asks for its rank between
// initialization and finalization only.
#pragma once
using MPI_Comm = int;
#define MPI_COMM_WORLD 91
#define MPI_SUCCESS 0
struct sx_mpi_state { int initialized = 0, finalized = 0, rank = 0, size = 1; };
inline sx_mpi_state & sx_mpi() { static sx_mpi_state *s = new sx_mpi_state; return *s; }
inline int MPI_Init(int *, char ***) { sx_check(sx_mpi().initialized == 0, "MPI is initialized once"); sx_mpi().initialized++; return MPI_SUCCESS; }
inline int MPI_Finalize() { sx_check(sx_mpi().initialized == 1 && sx_mpi().finalized == 0, "MPI is finalized once, after it was initialized"); sx_mpi().finalized++; return MPI_SUCCESS; }
inline bool sx_mpi_up(MPI_Comm c) { const bool up = sx_mpi().initialized == 1 && sx_mpi().finalized == 0 && c == MPI_COMM_WORLD; sx_check(up, "MPI is used between its initialization and its finalization"); return up; }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { if (!sx_mpi_up(c)) return 1; *r = sx_mpi().rank; return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm c, int *n) { if (!sx_mpi_up(c)) return 1; *n = sx_mpi().size; return MPI_SUCCESS; }
