// C33: the phases of a program's life, in order
#pragma once
enum Phase { PH_CTOR, PH_STATIC_A, PH_STATIC_Z, PH_MAIN, PH_THREAD, PH_THREAD_TLS, PH_MAIN2, PH_FORK, PH_EXIT_TLS, PH_ATEXIT, PH_STATIC_Z_DTOR, PH_STATIC_A_DTOR, PH_DTOR, N_PHASES };
void life_phase (int phase);
struct LifePlan { int create, destroy, uses, reset, fork, first, n; };       // uses: bit mask of phases
