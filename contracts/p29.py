"""Re-opening of streams: every order of error, finish, abort and timeout, in the client and in the HTTP/2 channel."""
import cl, h2
from cl import VC, Goal, grpcnat
def native(run): grpcnat.client(run); grpcnat.http2(run)
def verify(run):
    run.load(VC); run.load(h2.VN)
    run.prove([Goal('error, back-off and finish of a stream', cl.g_error), Goal('channel: a stream reply ends', h2.g_ch_end), Goal('channel: a stream is cancelled', h2.g_ch_stop)])
