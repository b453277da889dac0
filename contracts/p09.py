from lists import *
import p01, p02, p06, p07, p08, sernat
native = sernat.native
WIRE = dict({T: SCALARS[T][2] for T in SCALARS}, string=2, bytes=2, stringList=2, bytesList=2, **{T + 'List': 2 for T in LISTS})
def verify(run):
    ok = setup(run)
    goals = []
    for T in SCALARS: goals += [p01.goal(T), p02.goal(T)]
    for T in ('string', 'bytes'): goals += [p06.g_enc(T), p06.g_dec(T), p08.g_enc(T), p08.g_dec(T)]
    for T in LISTS: goals += [p07.g_enc(T), p07.g_dec(T)]
    run.prove(goals, ok)
