// Stub of the FleCSI runtime: an MPI task is simply called on every rank.
#pragma once
#define flecsi_register_mpi_task(task, ns) static_assert(true, "")
#define flecsi_execute_mpi_task(task, ns, ...) task(__VA_ARGS__)
namespace flecsi { namespace execution {
void specialization_tlt_init(int, char **);
void driver(int, char **);
struct context_t { static context_t & instance() { static context_t c; return c; }
  int initialize(int argc, char ** argv) { specialization_tlt_init(argc, argv); driver(argc, argv); return 0; } };
} }
