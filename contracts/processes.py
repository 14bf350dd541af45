"""
Contracts of computing in a separate process: any step fails with any
exception, the process runs its target and what it sends is received, nothing
is received if it ends without sending.
"""
import inspect
import multiprocessing
import sys
import threading

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, TRUE, ValS, Gen, Lit, Prim, PyExc,
                       SBool, SStr, SVal, Unsupported, VIte, VTup, new_iv)

MAIN = '__main__'


class Cell:
    """One value changed by assignments, seen through a list of them."""

    def __init__(self, interp, value):
        self.interp, self.value = interp, value
        self.log = interp.new_list()

    def set(self, value):
        self.interp.ctx.touch(self.log)
        self.log.pieces = [Lit(value)]

    def get(self):
        if self.log.pieces:
            return self.log.pieces[0].value
        return self.value


ABSENT = object()
# locks made at import of the module are shared by all the calls
LOCKS = (type(threading.Lock()), type(threading.RLock()))


class Process(Proof):
    name = 'call_in_process'
    functions = ('execution.call_in_process', 'execution._send_result')
    assumptions = (
        'multiprocessing: a started process runs its target with the given '
        'arguments; what it sends is received unchanged; a connection closed '
        'by both sides gives EOFError; sending fails for what can not be '
        'pickled',
        'precondition: the caller is in a module known to inspect',
        'a lock made at import of the module is held by one thread at a time',
        'exceptions are represented by Exception and BaseException')
    failing = False
    budget = 120.

    def setup(self, interp):
        from paradigm._core import execution
        ctx = interp.ctx
        self.interp = interp
        self.main_known = z3.Bool('main_module_is_known')
        self.main = SVal(z3.Const('main_module', ValS))
        self.caller = SVal(z3.Const('caller_module', ValS))
        none = ctx.host_const(None)
        ctx.axioms += [self.main.t != none, self.caller.t != none,
                       z3.Const('error', ValS) != none]
        self.state = Cell(interp, VIte(self.main_known, self.main, ABSENT))
        self.calls = interp.new_list()
        self.sent = interp.new_list()
        self.closed = Cell(interp, False)
        self.child = Cell(interp, False)
        self.held = Cell(interp, ())
        self.races = interp.new_list()
        self.injected = interp.new_list()
        self.hangs = interp.new_list()
        self.raises = z3.Bool('function_raises')
        self.ordinary = z3.Bool('function_raises_exception')
        self.sendable = z3.Bool('what_is_sent_is_picklable')
        self.result = SVal(z3.Const('result', ValS))
        self.n, self.m = z3.Ints('arguments keywords')
        ctx.axioms += [self.n >= 0, self.m >= 0]
        self.arg = z3.Function('argument', INT, ValS)
        self.key = z3.Function('keyword', INT, StrS)
        self.kwarg = z3.Function('keyword_argument', INT, ValS)
        iv, jv = new_iv(), new_iv()
        i = z3.Int('$k')
        position = z3.Function('position_of_keyword', StrS, INT)
        ctx.axioms += [
            z3.ForAll([i], z3.And(self.key(i) != ctx.str_const('function'),
                                  position(self.key(i)) == i),
                      patterns=[self.key(i)])]
        entry = interp.new_entry(SStr(self.key(jv)), SVal(self.kwarg(jv)))
        entry.frozen = True
        self.kwargs = [Gen(self.m, jv, entry)]
        self.function = SVal(z3.Const('function', ValS), {
            'getattr': self.function_attribute, 'call': self.function_called})
        modules = SVal(z3.Const('modules', ValS), {
            'getattr': self.modules_attribute,
            'getitem': lambda interp, v, key: self.get_main(key, ABSENT),
            'setitem': lambda interp, v, key, value: self.set_main(key,
                                                                   value),
            'delitem': lambda interp, v, key: self.del_main(key, ABSENT),
            'contains': lambda interp, v, key: self.has_main(key)})
        ctx.contracts[('attr', id(sys), 'modules')] = lambda interp: modules
        lock = SVal(z3.Const('lock', ValS), {
            'enter': lambda interp, v: None, 'exit': lambda interp, v: None})
        ctx.contracts[threading.Lock] = lambda *args: lock
        ctx.contracts[threading.RLock] = lambda *args: lock
        for kind in LOCKS:
            ctx.contracts['with', kind] = self.hold
        frame = SVal(z3.Const('frame', ValS))
        info = SVal(z3.Const('frame_info', ValS), {'attrs': {
            'frame': lambda interp, v: frame}})
        ctx.contracts[inspect.stack] = lambda *args: self.step(
                interp.new_list([Lit(SVal(z3.Const('own', ValS))),
                                 Lit(info)]))
        ctx.contracts[inspect.getmodule] = lambda *args: self.step(
                self.caller)
        context = SVal(z3.Const('context', ValS),
                       {'getattr': self.context_attribute})
        get_context = multiprocessing.get_context
        ctx.contracts[getattr(get_context, '__func__', get_context)] = (
            lambda *args: self.step(context))
        kwargs = interp.new_dict(self.kwargs)
        return lambda: interp.call(
                execution.call_in_process,
                [self.function, Gen(self.n, iv, SVal(self.arg(iv)))], kwargs)

    # steps

    def step(self, value=None):
        if self.failing and not self.child.get():
            ctx = self.interp.ctx
            if ctx.branch(ctx.fresh('step_fails', BOOL)):
                ctx.touch(self.injected)
                self.injected.pieces.append(Lit(None))
                raise PyExc(BaseException, ('injected',))
        return value

    def main_key(self, key):
        if self.interp.force(key) != MAIN:
            raise Unsupported('other module is looked at')
        if self.child.get():
            raise Unsupported('modules of the separate process')
        if not self.held.get():
            # other threads may change it meanwhile
            self.interp.ctx.touch(self.races)
            self.races.pieces.append(Lit(None))

    def hold(self, interp, lock, entered):
        held = self.held.get()
        self.held.set((*held, id(lock)) if entered else held[:-1])

    def get_main(self, key, default):
        self.main_key(key)
        value = self.interp.force_absent(self.state.get(), ABSENT)
        if value is ABSENT:
            if default is ABSENT:
                raise PyExc(KeyError, (MAIN,))
            return default
        return value

    def has_main(self, key):
        self.main_key(key)
        return self.interp.force_absent(self.state.get(),
                                        ABSENT) is not ABSENT

    def set_main(self, key, value):
        self.main_key(key)
        self.state.set(value)

    def del_main(self, key, default):
        value = self.get_main(key, default)
        self.state.set(ABSENT)
        return value

    def modules_attribute(self, interp, v, name, default):
        def method(args, kwargs):
            values = [a.value for a in args]
            if name == 'get':
                return self.get_main(values[0], (values[1:] or [None])[0])
            if name == 'pop':
                return self.del_main(values[0], (values[1:] or [ABSENT])[0])
            if name == '__setitem__':
                return self.set_main(*values)
            raise Unsupported(f'method {name} of sys.modules')
        return Prim(name, method)

    # function

    def function_attribute(self, interp, v, name, default):
        if name in ('__qualname__', '__name__', '__module__'):
            return SStr(z3.Const(f'function {name}', StrS))
        raise Unsupported(f'attribute {name} of the function')

    def function_called(self, interp, v, args, kwargs):
        ctx = interp.ctx
        ctx.touch(self.calls)
        self.calls.pieces.append(Lit((list(args), kwargs,
                                      self.child.get())))
        if ctx.branch(self.raises):
            cls = (Exception if ctx.branch(self.ordinary)
                   else BaseException)
            raise PyExc(cls, (SVal(z3.Const('error', ValS),
                                   {'class': cls}),))
        return self.result

    # process

    def context_attribute(self, interp, v, name, default):
        def make(args, kwargs):
            kwargs = interp.plain_kwargs(kwargs)
            if name == 'Process':
                return self.step(self.process(args, kwargs))
            if name == 'Pipe':
                duplex = kwargs.get('duplex', True)
                if args:
                    duplex = interp.force(args[0].value)
                if duplex is not False:
                    raise Unsupported('connection of two directions')
                return self.step(VTup([
                    Lit(self.end('receiver', ('recv', 'close', 'poll'))),
                    Lit(self.end('sender', ('send', 'close')))]))
            if name in ('SimpleQueue', 'Queue'):
                return self.step(self.end('queue', ('put', 'get')))
            raise Unsupported(f'{name} of the context')
        return Prim(name, make)

    def end(self, kind, methods):
        def attribute(interp, v, name, default):
            if name not in methods:
                raise Unsupported(f'method {name} of {kind}')
            return Prim(name, lambda args, kwargs: getattr(
                    self, name)(kind, *[a.value for a in args]))
        return SVal(z3.Const(kind, ValS), {'getattr': attribute})

    def send(self, kind, value):
        ctx = self.interp.ctx
        if not self.child.get():
            raise Unsupported('sent by the caller')
        if not ctx.branch(self.sendable):
            raise PyExc(Exception, ('not picklable',))
        ctx.touch(self.sent)
        self.sent.pieces.append(Lit(value))

    put = send

    def close(self, kind):
        if kind == 'sender' and not self.child.get():
            self.step()
            self.closed.set(True)

    def recv(self, kind):
        self.step()
        if not self.sent.pieces:
            if self.closed.get():
                raise PyExc(EOFError, ())
            self.interp.ctx.touch(self.hangs)
            self.hangs.pieces.append(Lit(None))
            raise PyExc(BaseException, ('waits forever',))
        value = self.sent.pieces[0].value
        self.interp.ctx.touch(self.sent)
        self.sent.pieces = self.sent.pieces[1:]
        return value

    get = recv

    def process(self, args, kwargs):
        if args or not set(kwargs) <= {'target', 'args', 'kwargs', 'name',
                                       'daemon'}:
            raise Unsupported('process made otherwise')

        def attribute(interp, v, name, default):
            def method(args_, kwargs_):
                self.step()
                if name == 'start':
                    self.run(kwargs)
                elif name not in ('join', 'close'):
                    raise Unsupported(f'method {name} of the process')
            return Prim(name, method)
        return SVal(z3.Const('process', ValS), {'getattr': attribute})

    def run(self, kwargs):
        interp = self.interp
        self.child.set(True)
        try:
            interp.call(kwargs['target'], interp.iter_pieces(
                    interp.force(kwargs.get('args', VTup(())))),
                        interp.force(kwargs.get('kwargs', {})))
        except PyExc:
            # ends the process only
            pass
        self.child.set(False)

    # contract

    def covers(self, interp):
        return [('a failure', z3.And(self.raises, z3.Not(self.ordinary))),
                ('arguments', z3.And(self.n > 1, self.m > 1)),
                ('no main module', z3.Not(self.main_known))]

    def expect_kinds(self):
        return 'return', 'raise'

    def post(self, interp, kind, value):
        state = self.state.get()
        goals = [('the caller does not wait forever',
                  z3.BoolVal(not self.hangs.pieces)),
                 ('the main module is used under a lock of all the calls',
                  z3.BoolVal(not self.races.pieces)),
                 ('the lock is released', z3.BoolVal(not self.held.get()))]
        if isinstance(state, VIte):
            same = z3.BoolVal(state is self.state.value)
        elif state is ABSENT:
            same = z3.Not(self.main_known)
        elif isinstance(state, SVal):
            same = z3.And(self.main_known, state.t == self.main.t)
        else:
            raise Unsupported(f'main module is {state!r}')
        goals.append(('the main module is what it was before', same))
        calls = self.calls.pieces
        injected = bool(self.injected.pieces)
        if len(calls) > 1:
            return [*goals, ('the function is called once',
                             z3.BoolVal(False))]
        if kind == 'return':
            goals += [('it returned', z3.Not(self.raises)),
                      ('the result is the one of the function',
                       interp.as_val(value) == self.result.t),
                      ('the function was called', z3.BoolVal(bool(calls)))]
        elif not injected:
            error = value.exc_args
            own = (len(error) == 1 and isinstance(error[0], SVal)
                   and error[0].t.eq(z3.Const('error', ValS)))
            goals.append((
                'the exception is the one of the function, or of sending',
                z3.If(self.sendable, z3.And(self.raises, z3.BoolVal(own)),
                      z3.BoolVal(True))))
        if calls:
            args, kwargs, child = calls[0].value
            goals.append(('the function runs in the separate process',
                          z3.BoolVal(child)))
            goals += self.arguments(interp, args, kwargs)
        return goals

    def arguments(self, interp, args, kwargs):
        args = interp.clean(args)
        i = z3.Int('i')
        inside = z3.And(0 <= i, i < self.n)
        goals = [('as many arguments as given',
                  interp.seq_len(args) == self.n)]
        if args:
            goals.append(('the arguments are the given ones', z3.Implies(
                    inside, interp.as_val(interp.pieces_at(args, i))
                    == self.arg(i))))
        pieces = interp.clean(interp.dict_pieces(
                kwargs if hasattr(kwargs, 'pieces')
                else interp.lift(kwargs)))
        if not (len(pieces) == 1 and isinstance(pieces[0], Gen)):
            if not pieces:
                return [*goals, ('no keyword is lost', self.m == 0)]
            raise Unsupported(f'keywords {pieces!r}'[:200])
        piece, = pieces
        entry = piece.at(interp.ctx, i)
        inside = z3.And(0 <= i, i < self.m)
        from .imports import string
        return goals + [
            ('as many keywords as given', piece.n == self.m),
            ('the keywords are the given ones', z3.Implies(inside, z3.And(
                    piece.guard_at(i),
                    string(entry.key, interp.ctx) == self.key(i),
                    interp.as_val(entry.value) == self.kwarg(i))))]


class Failing(Process):
    name = 'call_in_process: any step fails'
    failing = True

    def expect_kinds(self):
        return 'raise',
