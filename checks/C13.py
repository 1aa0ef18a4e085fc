from .common import *
INFO = {'outside': 'Two elements per message; levels as listed in bounds (-1: symbolic over all levels), first byte offset as listed.',
        'assumptions': ASSUME + ['MPI_Pack, MPI_Unpack and MPI_Pack_size of one process are represented by models/mpi_model.c; the replay of every witness and counterexample uses the installed MPI']}


def units(tier):
    us = []
    for s in ALL:
        M = MAXL[s]
        lv = range(M + 1) if s == 7 and tier == 'thorough' else (0, 1, 5, M) if s == 7 else [-1]
        us.append(scheme_unit('pack', 'c13_pack.cxx', s, 0, [(l, o) for l in lv for o in (0, 5)], models=MODELS + ['mpi_model.c'], unwind=130, fsa=256, replay_mpi=True))
    return us
