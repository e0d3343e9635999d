#pragma once

#define PRECICE_VERSION "3.4.1"

#ifndef PRECICE_NO_PETSC
  #define PETSC_MAJOR 3
  #define PETSC_MINOR 19
#endif

namespace precice {
    extern char const * const preciceRevision;
    extern char const * const versionInformation;
}
