// main() of black-box harnesses (single process)
#pragma once
#include <mpi.h>
#include "nlcglib.hpp"
#include "pbt.hpp"
#define BB_MAIN(PROP)                       \
  int main(int argc, char** argv)           \
  {                                         \
    int c = 0;                              \
    MPI_Init(&c, nullptr);                  \
    nlcglib::initialize();                  \
    int rc = pbt::run(argc, argv, PROP);    \
    nlcglib::finalize();                    \
    MPI_Finalize();                         \
    return rc;                              \
  }
