"""What each check runs: harness, bounds, assumptions."""

import os
SPECS = {}
CXX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shim', 'cxx')
OPTS = ('cflags', 'link', 'libs', 'timeout', 'steps', 'jobs', 'samples', 'optional', 'passes', 'preempt')


def H(name, file, **kw):
    r = dict(name=name, file=file)
    for k in OPTS:
        if k in kw:
            r[k] = kw.pop(k)
    r['defs'] = kw
    return r


def spec(pid, quick, thorough=None, assumptions=(), outside=''):
    SPECS[pid] = dict(quick=quick, thorough=thorough or quick, assumptions=list(assumptions), outside=outside)


spec('C01', [H('encode', 'c01_beast.c', N=6)], [H('encode', 'c01_beast.c', N=10)])


# ---- C02 -----------------------------------------------------------------
def c02(tag, n, k, **d):
    return H('decode-' + tag, 'c02_decode.c', N=n, K=k, **d)


def c02set(t):
    cuts = 1 + t
    r = [c02('any', 12 + t, 1, TYPE="'1'", CUTS=t, optional=['resync']),
         c02('any-bytewise', 11 + t, 2, BYTEWISE=None, LEN=None, optional=['frames', 'resync', 'escape'] if not t else ['frames']),
         c02('short', 18, 1, TYPE="'2'", ESC=1 + t, CUTS=1, LEN=None, optional=['resync', 'escape']),
         c02('free', 25, 1, ESC=2 + t, CUTS=1, optional=[] if t else ['escape']),
         c02('two', 24, 2, TYPE="'1'", ESC=2 + t, CUTS=1),
         c02('two-bytewise', 34 if t else 24, 2, TYPE="'1'", ESC=3, BYTEWISE=None)]
    for ty in '1234':
        r += [c02('type%s' % ty, 28, 1, TYPE="'%s'" % ty, ESC=2, CUTS=cuts),
              c02('allesc%s' % ty, 46, 1, TYPE="'%s'" % ty, ESC=t, CUTS=1, ALLESC=None, optional=['input-end'])]
    r += [c02('run3', 170, 7, TYPE="'3'", FRAMES=None, optional=['input-end']),
          c02('run1', 143, 13, TYPE="'1'", FRAMES=None, optional=['input-end']),
          c02('recon', 24, 2, TYPE="'1'", ESC=1 + t, CUTS=1, RECON=None, optional=['escape'])]
    return r


spec('C02', c02set(0), c02set(1))


# ---- C06 / C07 -------------------------------------------------------------
def buf(p, tag, stat, dyn, inc, hist, k, pre='', **d):
    d.setdefault('optional', ['late', 'cancelled', 'dropped', 'collected', 'cut off'])
    return H('buffer-' + tag, 'c06_buffer.c', P=p, STAT=stat, DYN=dyn, INC=inc, HIST=hist, K=k, PRE='"%s"' % pre, **d)


def bufset(p, t):
    r = [buf(p, 'static2', 2, 0, 0, 0, 5 + t, optional=['late']),
         buf(p, 'static3', 3, 0, 0, 0, 5 + t),
         buf(p, 'dyn1x2', 2, 1, 2, 1, 5 + t),
         buf(p, 'dyn2x1', 2, 2, 1, 1, 5 + t, 'pp'),
         buf(p, 'dyn1x2-full', 2, 1, 2, 1, 5 + t, 'pppp'),
         buf(p, 'dyn2x2-full', 2, 2, 2, 1, 4 + t, 'pppppp'),
         buf(p, 'dyn2x2-collect', 2, 2, 2, 1, 4 + t, 'ppppppgrgrgrgrx'),
         buf(p, 'dyn3x1-collect', 2, 3, 1, 1, 3 + t, 'pppppgrgr'),
         buf(p, 'dyn4x1-collect', 2, 4, 1, 1, 3 + t, 'ppppppgrgrgrgrxgr'),
         buf(p, 'gc-loop', 2, 2, 1, 1, 2, 'ppp', GCLOOP=2 + t),
         buf(p, 'gc-loop2', 2, 1, 2, 1, 2 + t, 'pppp', GCLOOP=1),
         buf(p, 'nomem', 2, 1, 2, 1, 4 + t, 'p', MFAIL=None),
         buf(p, 'anycfg', 0, 0, 0, 0, 2 + t, 'pppp', ANYCFG=None),
         buf(p, 'anycfg-gc', 0, 0, 0, 0, 1 + t, 'pppp', ANYCFG=None, GCLOOP=1)]
    for pre in ('ppp', 'pp', 'pppg', 'pg', 'pppppp', 'ppppgrgrgrgrx', 'ppppgrgrgrgrxppg'):
        r.append(buf(p, 'preempt-' + pre, 2, 1, 2, 1, 0, pre, PREEMPT=None, preempt=True))
    if p == 6:
        for tag, d in (('static2', dict(NP=3, STAT=2, DYN=0, INC=0)), ('dynamic', dict(NP=4, STAT=2, DYN=1, INC=1)),
                       ('gc', dict(NP=3, STAT=2, DYN=1, INC=1, GC=None))):
            r.append(H('threads-' + tag, 'c06_threads.c', SW=1 + max(t, tag == 'static2'), preempt=True, optional=['dropped', 'put back', 'waiting'], **d))
        r.append(buf(p, 'deadline', 2, 0, 0, 0, 0, DEADLINE=None))
    return r


spec('C06', bufset(6, 0), bufset(6, 1))
spec('C07', bufset(7, 0), bufset(7, 1))


spec('C04', [H('history', 'c04_filter.c', K=3), H('format', 'c04_filter.c', K=2, ANYB=None)],
     [H('history', 'c04_filter.c', K=4), H('format', 'c04_filter.c', K=2, ANYB=None)],
     assumptions=['frame types are those the decoder produces (1 to 4)'])
spec('C08', [H('loop', 'c08_recv.c', K=5)], [H('loop', 'c08_recv.c', K=6)],
     assumptions=['the input reports failure after closing its device; cancellation is noticed at cancellation points (connect, read)'],
     outside='longer sequences')


def c03(a, r):
    return [H('uart', 'c03_receiver.c', A=a, R=r, CONF=1, INPUT_RADARCAPE_UART=None),
            H('network', 'c03_receiver.c', A=a, R=r, CONF=0, INPUT_RADARCAPE_NETWORK=None, optional=['again', 'many']),
            H('dummy', 'c03_receiver.c', A=a, R=r, CONF=0, INPUT_RADARCAPE_DUMMY=None, optional=['again', 'many'])]


spec('C03', c03(2, 1), c03(3, 2), assumptions=['a device write returns at most the requested length'])
spec('C09', [H('loop', 'c09_relay.c', K=8)], [H('loop', 'c09_relay.c', K=11)],
     assumptions=['NET_send, LOGIN_login and the buffer behave as their own properties say'])
spec('C10', [H('login', 'c10_login.c', ULEN=2, ROUNDS=1), H('twice', 'c10_login.c', ULEN=1, ROUNDS=2),
             H('user', 'c10_login.c', ULEN=42, ROUNDS=1, FIXNUM=None, VER='"26.1.4294967295"')],
     assumptions=['the position message itself is C15'])

spec('C11', [H('send', 'c11_send.c', MSGS=2, LMIN=1, LMAX=5), H('mix', 'c11_mix.c'), H('long', 'c11_send.c', MSGS=1, LMIN=12, LMAX=12),
             H('receive', 'c11_send.c', MSGS=3, LMIN=0, LMAX=0, optional=['partial'])],
     [H('send', 'c11_send.c', MSGS=2, LMIN=1, LMAX=7), H('mix', 'c11_mix.c'), H('send3', 'c11_send.c', MSGS=3, LMIN=1, LMAX=4), H('long', 'c11_send.c', MSGS=1, LMIN=15, LMAX=15),
      H('receive', 'c11_send.c', MSGS=4, LMIN=0, LMAX=0, optional=['partial'])])


def c12(t):
    o = ['connect failed', 'second sender', 'forced', 'check failed']
    return [H('two', 'c12_conn.c', R_OPS=3, T_OPS=3, FAILS=2, SW=2 + t, optional=o),
            H('force', 'c12_conn.c', R_OPS=3, T_OPS=1 + t, FAILS=1, SW=2, FORCE=None, optional=o),
            H('second', 'c12_conn.c', R_OPS=3, T_OPS=1, G_OPS=2, FAILS=1, SW=2 + t, optional=o), H('wait', 'c12_wait.c', ROUNDS=2 + t, WAKES=2)]


spec('C12', c12(0), c12(1))


def c13(t):
    return [H('any', 'c13_talkback.c', N=9 + t, R=2 + t, C=1, optional=['packets']),
            H('known', 'c13_talkback.c', N=10 + t, R=2 + t, C=1, KNOWN=None),
            H('two', 'c13_talkback.c', N=8, R=2, C=2, KNOWN=None, optional=['packets', 'filter'])] + \
        [H('big%d' % b, 'c13_talkback.c', N=300, R=4 + t, C=1 + t, BIG=b, optional=['bad length', 'filter', 'unregistered', 'ignored', 'packets']) for b in (127, 128)] + \
        [H('big129', 'c13_talkback.c', N=300, R=4 + t, C=1 + t, BIG=129, optional=['packet', 'packets', 'filter', 'unregistered', 'ignored', 'partial'])]


spec('C13', c13(0), c13(1), assumptions=['receiving returns at most the offered number of bytes'])
C14X = dict(WITH_PACMAN=1, WITH_SYSTEMD='"/sd"', INPUT_RADARCAPE_UART=None, SYSCONFDIR='"/etc"', link=['src/radarcape/tb-misc.c', 'src/radarcape/tb-rshell.c'],
            cflags=['-D_Exit=vs_exit', '-D_exit=vs_exit', '-Dexit=vs_exit'])
spec('C14', [H('filter', 'c14_filter.c', ROUNDS=2), H('commands', 'c14_commands.c', **C14X)],
     [H('filter', 'c14_filter.c', ROUNDS=3), H('commands', 'c14_commands.c', **C14X)],
     assumptions=['the daemon is built with systemd and pacman integration (otherwise the commands are absent)'])


def c15(t):
    o = ['repeat', 'deferred']
    return [H('history', 'c15_gps.c', K=5 + t), H('encode', 'c15_gps.c', ENCODE=None, ESC=2 + t), H('allesc', 'c15_gps.c', ENCODE=None, ESC=0, ALLESC=None),
            H('preempt', 'c15_gps.c', PREEMPT=None, preempt=True)]


spec('C15', c15(0), c15(1), assumptions=['one connection at a time: the transport is C11/C12'])


def c16(t):
    return [H('any', 'c16_trimble.c', N=9 + t, K=3, CUTS=0, LMAX=5, optional=['again']),
            H('cut', 'c16_trimble.c', N=8, K=2, CUTS=2 + t, LMAX=4, optional=['again']),
            H('recon', 'c16_trimble.c', N=7 + t, K=1, CUTS=2, LMAX=4, RECON=None, optional=['again']),
            H('long', 'c16_trimble.c', N=300, K=4, CUTS=0 + t, LMAX=1024, FIXLEN=None, LONG=126, optional=['again', 'oversized']),
            H('oversized', 'c16_trimble.c', N=100, K=4, CUTS=1 + t, LMAX=20, FIXLEN=None, LONG=20, optional=['again']),
            H('connect', 'c16_trimble.c', N=1, K=0, CUTS=0, LMAX=2, CONNECT=None, optional=['resync', 'oversized', 'restart', 'escape', 'report'])]


spec('C16', c16(0), c16(1), assumptions=['a read returns at most the offered number of bytes'])
spec('C17', [H('reports', 'c17_position.c', K=2)], [H('reports', 'c17_position.c', K=3)], assumptions=['the frame parser (C16) reports 0 after a failure'])


def c18(tag, n, pre, **d):
    suf = d.pop('suf', None)
    q = lambda s: '"%s"' % s.replace('\n', '\\n').replace('\r', '\\r')
    first = d.pop('first', None)
    if suf:
        d['SUF'] = q(suf)
    if first:
        d['FIRST'] = q(first)
    return H('load-' + tag, 'c18_cfgparse.c', N=n, PRE=q(pre), optional=d.pop('optional', []), **d)


def c18set(t):
    return [c18('free', 5 + t, ''),
            c18('section', 5 + t, '['),
            c18('option', 4 + t, '[A]\n'),
            c18('crlf', 4 + t, '[a]\r\nx=1\r\n'),
            c18('string', 5 + t, '[A]\nx'),
            c18('int', 4 + t, '[A]\ny='),
            c18('bool', 5 + t, '[A]\nb='),
            c18('second', 4 + t, '[A]\nx=1\n[b]\n'),
            c18('port', 4 + t, '[b]\np = '),
            c18('comment', 4 + t, '[b]\n;x=1\n#p=1', suf='\nx=ab\n'),
            c18('mid', 5 + t, '[A]\nx=ab', suf='\ny=5'),
            c18('after', 4 + t, '', first='[A]\nx=ab'),
            c18('after-failed', 4 + t, '', first='[B]\np=1\n[A]\ny=3\ny=q\nx=cd\n'),
            c18('io', 1, '[A]\ny=', IO=None)]


spec('C18', c18set(0), c18set(1))


def c19(t):
    f = 'c19_values.c'
    return [H('decimal', f, DIGITS=None, LMIN=1, LMAX=5 + t),
            H('decimal-edge', f, DIGITS=None, LMIN=4, LMAX=6, PREFIX='"42949"'), H('decimal-edge2', f, DIGITS=None, LMIN=1, LMAX=4, PREFIX='"42949672"'),
            H('decimal-long', f, DIGITS=None, LMIN=17, LMAX=21, optional=['accepted']),
            H('hex', f, HEX=None, LMIN=7, LMAX=9), H('octal', f, OCT=None, LMIN=1, LMAX=3 + t, optional=['rejected']),
            H('octal-long', f, OCT=None, LMIN=11, LMAX=12), H('bool', f, BOOL=6 + t), H('string', f, STR=None), H('double', f, DBL=None),
            H('set', f, SET=None), H('default', f, LONGDEF=None), H('given', f, GIVEN=None, optional=['end'])]


spec('C19', c19(0), c19(1), outside='floating point texts other than the listed ones (conversion is the C library\'s)')


def c20(t):
    f = 'c20_save.c'
    return [H('numbers', f, NUM=None, optional=['failed']), H('texts', f, TXT=None, optional=['failed']), H('fail', f, FAIL=None),
            H('section', f, ONE=None, NUM=None, optional=['failed']), H('section-fail', f, ONE=None, FAIL=None),
            H('option', 'c20_main.c', INPUT_RADARCAPE_NETWORK=None, SYSCONFDIR='"/etc"')]


spec('C20', c20(0), outside='integers and floating point numbers other than the listed ones (formatting is the C library\'s)')


def c21(t):
    f = 'c21_dir.c'
    return [H('name', f, FREE=7 + t, optional=['failed']), H('order', f, ORDER=3), H('big', f, BIG=2 + t // 2, optional=['failed', 'ignored']), H('long', f, LONG=None, optional=['unreadable', 'ignored'])]


spec('C21', c21(0), c21(2), outside='the order of files with equal numbers; numbers of 2^64 and more; platforms without scandir')


def c23(t):
    f = 'c23_list.c'
    return [H('single', f, T='S', N=4, K=3 + t), H('single-counted', f, T='SC', COUNT=None, N=4, K=3 + t),
            H('double', f, T='D', DOUBLE=None, N=4, K=3 + t), H('double-counted', f, T='DC', DOUBLE=None, COUNT=None, N=4, K=3 + t),
            H('fallback', f, T='D', NOGENERIC=None, DOUBLE=None, COUNT=None, N=4, K=2 + t)]


spec('C23', c23(0), c23(1))
spec('C24', [H('codec', 'c24_endec.c'), H('codec-own', 'c24_endec.c', NOENDIAN=None)], outside='big-endian machines')
spec('C32', [H('drop', 'c32_priv.c')], assumptions=['the account database does not give the unprivileged account the number 0'])
spec('C33', [H('position', 'c33_static.c')])
spec('C34', [H('small', 'c34_rand.c', N=20), H('large', 'c34_rand.c', TABLE=None)],
     [H('small', 'c34_rand.c', N=128), H('large', 'c34_rand.c', TABLE=None), H('any', 'c34_rand.c', BIG=255)],
     outside='n above RAND_MAX and values of n not listed; generators that return unusable numbers for ever')
spec('C26', [H('serial', 'c26_mac.c'), H('file', 'c26_mac.c', TEXT=None), H('saved', 'c26_saved.c'),
            H('daemon', 'c26_main.c', INPUT_RADARCAPE_NETWORK=None, SYSCONFDIR='"/etc"')])


def lib(t, **d):
    return [H('frames', 'c28_gplib.cc', FREEBYTES=3 + t, STEPS=1, link=['src/core/beast.c'], **d), H('states', 'c28_gplib.cc', FREEBYTES=0, STEPS=3 + t, link=['src/core/beast.c'], **d)]


spec('C28', lib(0, GPLIB=None), lib(1, GPLIB=None) + [H('time', 'c28_gplib.cc', GPLIB=None, TIME=None, FREEBYTES=0, STEPS=1, link=['src/core/beast.c'])])
spec('C29', lib(0), lib(1))
spec('C27', [H('request', 'c27_serial.c', STEPS=3)], [H('request', 'c27_serial.c', STEPS=4), H('rounds', 'c27_serial.c', STEPS=2, ALLROUNDS=None)],
     outside='failing condition variables')
spec('C31', [H('forms', 'c31_proc.c', optional=['shortened']), H('group', 'c31_proc.c', WITH_SYSTEMD=None, optional=['shortened']),
            H('lengths', 'c31_proc.c', LENGTHS=None, optional=['succeeded', 'failed', 'detached', 'child ended'])])
spec('C37', [H('loop', 'c37_wd.c'), H('program', 'c37_main.c'), H('pins', 'c30_gpio.c', STEPS=2)], [H('loop', 'c37_wd.c', ROUNDS=200), H('program', 'c37_main.c'), H('pins', 'c30_gpio.c', STEPS=3)])


def c30(t):
    return [H('image', 'c30_fpga.c', SIZE=1 + t, FREEIMAGE=None, optional=['failed']), H('device', 'c30_fpga.c', SIZE=2 + 2 * t), H('paths', 'c30_fpga.c', PATHS=None, optional=['configured']), H('pins', 'c30_gpio.c', STEPS=2 + t)]


spec('C30', c30(0), c30(1))


def c22(t):
    f = 'c22_comp.c'
    return [H('order', f, ORDER=None, N=3, STARTS=1, optional=['construction failed', 'start failed', 'stuck']),
            H('faults', f, N=3 + t, STARTS=2, optional=['refused']),
            H('names', f, N=3, STARTS=1, LONGNAMES=600, BUDGET=12, optional=['refused'])]


spec('C22', c22(0), c22(1))
spec('C25', [H('connect', 'c25_connect.c', N=3), H('many', 'c25_connect.c', N=5, MANY=None, optional=['cancelled'])],
     [H('connect', 'c25_connect.c', N=4), H('many', 'c25_connect.c', N=7, MANY=None, optional=['cancelled'])])


def c36(t):
    f = 'c36_input.c'
    return [H('radarcape-network', f, STEPS=3 + t, optional=[]), H('radarcape-serial', f, UARTIN=None, STEPS=3 + t, optional=['rejected']),
            H('simulated', 'c36_dummy.c', READS=2 + t, link=['src/core/beast.c']), H('simulated-gps', 'c36_dummy.c', GPS=None, READS=3),
            H('trimble-network', f, TR=None, STEPS=3 + t), H('trimble-serial', f, TR=None, UARTIN=None, STEPS=2 + t, optional=['rejected'])]


spec('C36', c36(0), c36(1))


def c35(t):
    return [H('stdio', 'c35_log.c', STEPS=1), H('stdio-gnu', 'c35_log.c', STEPS=1, STRERROR_R_CHAR_P=None), H('sequence', 'c35_log.c', STEPS=2 + t, FEW=None),
            H('library', 'c35_lib.cc', cflags=['-I' + CXX]), H('gplib', 'c35_lib.cc', GPLIB=None, cflags=['-I' + CXX])]


spec('C35', c35(0), c35(1),
     outside='messages of the libraries longer than 2047 characters (cut); failing output')


def c39(t):
    f = 'c39_start.c'
    o = ['created', 'directory', 'inconsistent', 'refused', 'start', 'ran']
    x = dict(LOCALSTATEDIR='"/v"', SYSCONFDIR='"/e"', link=['src/util/cfgfile.c', 'src/dump1090/devtype.c', 'src/core/filter.c', 'src/core/network.c', 'src/radarcape/network.c'], cflags=['-Dscandir=vs_scandir'])
    h = lambda tag, *a, **d: H(tag, f, optional=[y for y in o if y not in a], **d, **x)
    return [h('directories', 'created', 'directory', 'refused', 'ran', DIRS=None), h('files', 'inconsistent', 'ran', FILES=None),
            h('run', 'refused', 'ran', RUN=None), h('name', 'ran', NAME=None), H('signal', 'c39_signal.c'), H('devtype', 'c39_devtype.c', LEN=19)] + \
        [H('daemon-' + i.lower(), 'c39_daemon.c', SYSCONFDIR='"/e"', **{'INPUT_RADARCAPE_' + i: None}) for i in ('UART', 'NETWORK', 'DUMMY')] + \
        [H('daemon-standalone', 'c39_daemon.c', SYSCONFDIR='"/e"', INPUT_RADARCAPE_UART=None, STANDALONE=None)]


spec('C39', c39(0), c39(1))


E2E = dict(link=['src/core/network.c', 'src/core/relay.c', 'src/core/recv.c', 'src/core/filter.c', 'src/core/buffer.c', 'src/core/login.c',
                 'src/core/beast.c', 'src/core/gps.c', 'src/core/tb.c', 'src/radarcape/rc-parser.c'],
           cflags=['-D%s=vs_%s' % (a, b) for a, b in (('send', 'send'), ('recv', 'recv'), ('shutdown', 'shutdown'), ('close', 'close'), ('time', 'time'),
                                                      ('sleep', 'sleep'), ('clock_gettime', 'clock'))],
           INPUT_RADARCAPE_NETWORK=None)


def e2e(tag, **d):
    r = dict(ITEMS=2, BURST=1, FAILS=0, INFAILS=0, CUTS=0, SHORT=0, CMDS=0, IDLES=1, SW=0, STAT=3, HIST=0, KINDS=1)
    r.update(d)
    r.update(E2E)
    return H(tag, "c38_e2e.c", **r)


E2EO = ['again', 'closed by server', 'command', 'connect failed', 'cut', 'dropped', 'flushed', 'garbage', 'idle', 'input failed', 'keep-alive',
        'late', 'late position', 'put back', 'sent']


def c38(t):
    o = lambda *a: [x for x in E2EO if x not in a]
    return [e2e('stream', FREE=None, ITEMS=2, KINDS=4, IDLES=0, optional=o('garbage', 'sent')),
            e2e('cuts', ITEMS=3, KINDS=4, INFAILS=1, CUTS=1 + t, IDLES=0, optional=o('cut', 'input failed', 'sent')),
            e2e('fails', ITEMS=2 + t, KINDS=0, FAILS=1 + t, IDLES=1, SW=1, optional=o('again', 'closed by server', 'put back', 'flushed', 'late', 'idle')),
            e2e('history', ITEMS=3, KINDS=0, FAILS=1 + t, IDLES=0, SW=1, HIST=1, STAT=2, optional=o('again', 'put back', 'dropped')),
            e2e('drop', ITEMS=4, KINDS=0, BURST=2, STAT=2, IDLES=0, SW=2 + t, optional=o('dropped')),
            e2e('command', FREE=None, ITEMS=2, KINDS=2 if t else 0, CMDS=1, IDLES=0, optional=o('command')),
            e2e('login', VARLOGIN=None, ITEMS=1, KINDS=0, SHORT=1 + t, FAILS=1, IDLES=0, optional=o('again')),
            e2e('position', LATEPOS=None, ITEMS=1 + t, KINDS=0, SHORT=1, IDLES=0, SW=1 + t, HIST=1, optional=o('late position'))]


spec('C38', c38(0), c38(1))


def bufstats(t):
    o = ['late', 'cancelled', 'dropped', 'collected', 'discarded', 'grown', 'uncollected']
    b = lambda must, *a, **d: buf(40, *a, optional=[x for x in o if x not in must], **d)
    return [b(['discarded'], 'static2', 2, 0, 0, 0, 4 + t), b(['grown'], 'dyn1x2', 2, 1, 2, 1, 4 + t), b(['discarded'], 'dyn1x2-full', 2, 1, 2, 1, 4 + t, 'pppp'),
            b(['discarded'], 'overloads', 2, 0, 0, 0, 4 + t, 'pppgr'), b(['uncollected'], 'overload-collected', 2, 2, 1, 1, 4, 'pppppp'),
            b(['grown'], 'grown-again', 2, 1, 2, 1, 3 + t, 'ppppgrgrgrgrx'),
            b(['grown'], 'dyn2x1', 2, 2, 1, 1, 4 + t, 'pp'), b(['uncollected'], 'collected', 2, 2, 1, 1, 4 + t, 'pppx'),
            b([], 'memory', 2, 1, 2, 1, 3 + t, 'pp', MFAIL=None)]


def c40(t):
    return [H('report', 'c40_report.c', REPORTS=1 + t, optional=['percentage', 'rate']), H('rates', 'c40_report.c', REPORTS=2, RATES=None), H('network', 'c40_net.c', K=4 + t, FAILS=2),
            H('filter', 'c04_filter.c', K=2 + t)] + bufstats(t)


spec('C40', c40(0), c40(1))
