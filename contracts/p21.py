"""Reassembly of streamed messages: one arbitrary chunk on top of arbitrary carried-over bytes (induction over the chunks)."""
from h2 import *
def native(run): grpcnat.http2(run)
def verify(run):
    run.load(VN); run.prove([Goal('first chunk', g_first), Goal('chunk after carried-over bytes', g_next)])
