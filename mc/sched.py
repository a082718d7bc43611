""" controlled scheduler for python threads: every thread started inside a run waits for the baton; the baton changes hands only at
switch points (every line of the watched source files, entry of every function of the package, lock operations, end of a thread).
All schedules with at most `bound` preemptions are enumerated; the run without preemption comes first. Locks of the threading module
are replaced by ones which know the scheduler, so a blocked thread is disabled instead of blocking the process. """
import sys, threading, _thread, os

_real_lock = _thread.allocate_lock
_start, _join = threading.Thread.start, threading.Thread.join
CUR = None                      # the running controller
SRC = None                      # directory of the sources

class Deadlock( Exception ) : pass

class SLock :
    """ stand-in of threading.Lock and RLock """
    def __init__( self, re=False ) :
        self._l = _real_lock()
        self._re, self._owner, self._n = re, None, 0
    def acquire( self, blocking=True, timeout=-1 ) :
        me = _thread.get_ident()
        if self._re and self._owner == me :
            self._n += 1
            return True
        c = CUR
        if c is not None and me in c.byident :
            c.point( c.byident[me] )
            while not self._l.acquire( False ) :
                if not blocking : return False
                c.block( c.byident[me], self )
        elif not self._l.acquire( blocking, timeout ) : return False
        self._owner, self._n = me, 1
        return True
    def release( self ) :
        if self._re :
            if self._owner != _thread.get_ident() : raise RuntimeError( 'cannot release un-acquired lock' )
            self._n -= 1
            if self._n : return
        self._owner = None
        self._l.release()
        c = CUR
        if c is not None :
            c.unblock( self )
            me = _thread.get_ident()
            if me in c.byident : c.point( c.byident[me] )
    __enter__ = acquire
    def __exit__( self, *a ) : self.release()
    def locked( self ) : return self._l.locked()
    def _is_owned( self ) : return self._owner == _thread.get_ident()
    def _at_fork_reinit( self ) : self.__init__( self._re )
    def __deepcopy__( self, memo ) : raise TypeError( 'cannot copy a lock' )

def install() :
    """ before the package is imported """
    threading.Lock = SLock
    threading.RLock = lambda : SLock( True )
_RL = threading.Lock, threading.RLock
def uninstall() : threading.Lock, threading.RLock = _RL

class Thr :
    def __init__( self, tid ) :
        self.tid, self.ev, self.alive, self.blocked, self.error = tid, _real_lock(), True, None, None
        self.ev.acquire()

class Controller :
    def __init__( self, prefix, watch, entry=True, cap=200000 ) :
        self.prefix, self.watch, self.entry, self.cap = prefix, watch, entry, cap
        self.thr, self.byident, self.points = [], {}, []
        self.done = _real_lock()
        self.done.acquire()
        self.running = False
        self.dead = False
        self.steps = 0

    # ---- decisions
    def enabled( self ) : return [t.tid for t in self.thr if t.alive and t.blocked is None]
    def decide( self, cur ) :
        """ next thread; cur None when the choice is free """
        en = self.enabled()
        k = len( self.points )
        dflt = cur if cur is not None else en[0]
        ch = self.prefix[k] if k < len( self.prefix ) else dflt
        if ch not in en : ch = dflt
        self.points += [( tuple( en ), cur, ch )]
        return ch
    def give( self, tid ) :
        self.thr[tid].ev.release()
    def point( self, tid ) :
        if self.dead : raise Deadlock()
        self.steps += 1
        if self.steps > self.cap : raise RuntimeError( 'no end of run in sight' )
        t = self.thr[tid]
        if len( self.enabled() ) < 2 : return
        ch = self.decide( tid )
        if ch == tid : return
        self.give( ch )
        t.ev.acquire()
        if self.dead : raise Deadlock()
    def block( self, tid, lock ) :
        t = self.thr[tid]
        t.blocked = lock
        en = self.enabled()
        if not en :
            self.dead = True
            for u in self.thr :
                if u is not t and u.alive : self.give( u.tid )
            raise Deadlock()
        self.give( self.decide( None ) if len( en ) > 1 else en[0] )
        t.ev.acquire()
        if self.dead : raise Deadlock()
    def unblock( self, lock ) :
        for t in self.thr :
            if t.blocked is lock : t.blocked = None
    def finish( self, tid ) :
        self.thr[tid].alive = False
        en = self.enabled()
        if en : self.give( self.decide( None ) if len( en ) > 1 else en[0] )
        elif not any( t.alive for t in self.thr ) : self.done.release()
        elif not self.dead :
            self.dead = True
            for u in self.thr :
                if u.alive : self.give( u.tid )

    # ---- threads
    def trace( self, tid ) :
        def glob( frame, event, arg ) :
            fn = frame.f_code.co_filename
            if not fn.startswith( SRC ) : return None
            base = fn[len( SRC ):]
            w = self.watch
            if base in w and ( w[base] is None or ( frame.f_code.co_name in w[base] ) != ( '-' in w[base] ) ) : return line
            if base in w and '-' in w[base] : return None
            if self.entry and frame.f_code.co_name not in ( '__setattr__', '__getattr__' ) : self.point( tid )
            return None
        def line( frame, event, arg ) :
            if event == 'line' : self.point( tid )
            return line
        return glob
    def add( self, th ) :
        tid = len( self.thr )
        t = Thr( tid )
        self.thr += [t]
        orig = th.run
        def run() :
            self.byident[_thread.get_ident()] = tid
            t.ev.acquire()
            try :
                sys.settrace( self.trace( tid ) )
                try : orig()
                finally : sys.settrace( None )
            except BaseException as e :
                t.error = e
            self.finish( tid )
        th.run = run
        _start( th )
    def go( self ) :
        if self.running or not self.thr : return
        self.running = True
        self.give( self.decide( None ) if len( self.thr ) > 1 else 0 )
        self.done.acquire()

def _cstart( self ) :
    c = CUR
    if c is None or c.running or _thread.get_ident() in c.byident : return _start( self )
    c.add( self )
def _cjoin( self, timeout=None ) :
    c = CUR
    if c is not None and not c.running : c.go()
    return _join( self, timeout )

def run1( fn, prefix, watch, entry=True, cap=200000 ) :
    """ one run of fn() under the schedule; returns controller, result of fn """
    global CUR
    c = Controller( prefix, watch, entry, cap )
    threading.Thread.start, threading.Thread.join = _cstart, _cjoin
    hook = threading.excepthook
    threading.excepthook = lambda a : None
    CUR = c
    install()
    try :
        r = fn()
        c.go()
    finally :
        CUR = None
        uninstall()
        threading.Thread.start, threading.Thread.join = _start, _join
        threading.excepthook = hook
    return c, r

def schedules( fn, judge, watch, bound=1, maxruns=100000, entry=True, only=None, cap=200000 ) :
    """ all schedules up to bound preemptions. fn : makes a fresh system and runs it. judge( controller, result, schedule ).
    returns ( number of runs, number of switch points ) """
    stack = [( [], 0 )]
    runs = pts = 0
    while stack :
        prefix, used = stack.pop()
        c, r = run1( fn, prefix, watch, entry, cap )
        runs += 1
        pts += len( c.points )
        judge( c, r, prefix )
        if runs >= maxruns : return runs, pts
        for k in range( len( prefix ), len( c.points ) ) :
            en, cur, ch = c.points[k]
            for o in en :
                if o == ch : continue
                cost = used + ( 1 if cur is not None else 0 )
                if cost > bound : continue
                stack += [( [p[2] for p in c.points[:k]] + [o], cost )]
    return runs, pts

def spawn( fns ) :
    """ run functions in threads, return their results """
    out = [None] * len( fns )
    def mk( i, f ) :
        def g() : out[i] = f()
        return g
    ths = [threading.Thread( target=mk( i, f ) ) for i, f in enumerate( fns )]
    for t in ths : t.start()
    for t in ths : t.join()
    return out

def relock( prefix ) :
    """ locks made when modules were imported : attributes of modules and classes """
    lt, rt = type( _real_lock() ), type( _thread.RLock() )
    for nm, mod in list( sys.modules.items() ) :
        if mod is None or not nm.startswith( prefix ) : continue
        for obj in [mod] + [c for c in vars( mod ).values() if isinstance( c, type ) and c.__module__.startswith( prefix )] :
            for k, v in list( vars( obj ).items() ) :
                if v is _RL[0] or v is _real_lock : setattr( obj, k, SLock )
                elif v is _RL[1] or v is _thread.RLock : setattr( obj, k, lambda : SLock( True ) )
                elif isinstance( v, ( lt, rt ) ) : setattr( obj, k, SLock( isinstance( v, rt ) ) )
