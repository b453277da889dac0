"""Bounded harness for the HTTP/2 channel and the client: the real classes over a scripted transport."""
import os, build, natprog
G = ['src/grpc/' + x for x in ('qabstractgrpcclient.cpp', 'qabstractgrpcchannel.cpp', 'qgrpcstream.cpp', 'qgrpccallreply.cpp', 'qgrpcasyncoperationbase.cpp', 'qgrpcstatus.cpp', 'qgrpccredentials.cpp')]
MOC = ['qabstractgrpcclient.h', 'qgrpcstream.h', 'qgrpccallreply.h', 'qgrpcasyncoperationbase_p.h', 'qgrpcstatus.h']
def libs():
    import sernat
    return sernat.LIBSRC + ['src/protobuf/qprotobufserializerregistry.cpp', build.VERIF + '/native/vjsonstub.cpp']
def parts():
    d = build.scratch(); out = []
    for h in MOC:
        o = d + '/moc_' + h.replace('.h', '.cpp'); build.moc(build.REPO + '/src/grpc/' + h, o); out.append(o)
    return out + [build.REPO + '/' + g for g in G] + libs()
FL = ['-DQT_BUILD_GRPC_LIB', '-DQT_BUILD_PROTOBUF_LIB', '-I' + build.VERIF + '/native']
def http2(run):
    n = {'P19': 300, 'P20': 300, 'P21': 1500, 'P29': 100, 'P32': 300}[run.pid] * (1 if run.tier == 'quick' else 20)
    natprog.run_prog(run, 'nat_http2', [build.VERIF + '/native/nat_http2.cpp'] + parts(), FL, ('Qt5Network', 'Qt5Qml', 'Qt5Core'), [run.pid, run.seed, n], what='real HTTP/2 channel over a scripted transport', env={'QT_QPA_PLATFORM': 'offscreen'})
def client(run):
    n = {'P23': 1500, 'P24': 1500, 'P29': 400}[run.pid] * (1 if run.tier == 'quick' else 10)
    natprog.run_prog(run, 'nat_client', [build.VERIF + '/native/nat_client.cpp'] + parts(), FL + ['-fno-access-control'], ('Qt5Network', 'Qt5Qml', 'Qt5Core'), [run.pid, run.seed, n], what='real client over a scripted channel', env={'QT_QPA_PLATFORM': 'offscreen'})
def native(run):
    """the native channel against an in-process gRPC server"""
    d = build.scratch(); o = d + '/moc_qgrpcchannel_p.cpp'; build.moc(build.REPO + '/src/grpc/qgrpcchannel_p.h', o, build.GRPC)
    natprog.run_prog(run, 'nat_chan', [build.VERIF + '/native/nat_chan.cpp', o] + parts(), FL + build.GRPC, ('Qt5Network', 'Qt5Qml', 'Qt5Core', 'grpc++', 'grpc', 'gpr', 'absl_synchronization', 'protobuf'), [run.seed, 40 if run.tier == 'quick' else 800], what='real native channel against an in-process gRPC server', env={'QT_QPA_PLATFORM': 'offscreen'}, timeout=700)
