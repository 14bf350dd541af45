"""
Rule for ``while`` loops with an invariant written in a contract.

A path either ends at the loop with the obligation that the invariant holds
before it, or goes on from any state with the invariant: variables which
the loop assigns are forgotten, the contents of the lists named
by the invariant are any.  From there a path either leaves the loop, by its
condition or from the middle of its body, or ends after an iteration with the
obligation that the invariant holds again.  Termination is not shown.
"""
import ast

import z3

from .core import (BOOL, BreakEx, ContinueEx, ListObj, PathEnd, Poison,
                   Unsupported)


class Invariant:
    """Base of invariants of loops, one per function."""

    def holds(self, interp, frame):
        """Pairs of names and formulas."""
        raise NotImplementedError

    def forget(self, interp, frame):
        """Changes contents of lists, gives these lists."""
        raise NotImplementedError


def lists_of(interp, frame):
    """Lists which variables of the function refer to."""
    result = {}
    for name, value in frame.env.vars.items():
        if not isinstance(value, Poison):
            try:
                value = interp.force(value)
            except Unsupported:
                continue
            if isinstance(value, ListObj):
                result[name] = value
    return result


def run(interp, rule, s, frame):
    ctx = interp.ctx
    if len(ctx.explorers) > 1:
        raise Unsupported('while loop inside of other loop')
    ctx.invariant_used = True
    if ctx.branch(z3.FreshConst(BOOL, 'before_loop')):
        raise PathEnd('loop', rule.holds(interp, frame))
    changed = rule.forget(interp, frame)
    names = {n.id for part in [s.test, *s.body] for n in ast.walk(part)
             if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    env = frame.env
    if any(isinstance(n, (ast.Nonlocal, ast.Global)) for part in s.body
           for n in ast.walk(part)):
        raise Unsupported('variables of other functions in a while loop')
    ctx.touch(env)
    for name in names:
        env.vars[name] = Poison('assigned in a while loop')
    for _, formula in rule.holds(interp, frame):
        ctx.pc.append(formula)
    if not interp.truth(interp.eval(s.test, frame)):
        interp.exec_block(s.orelse, frame)
        return
    token, start, scope = object(), ctx.oids, {}
    interp.loop_tokens.append(token)
    ctx.scopes.append(scope)
    left = False
    try:
        interp.exec_block(s.body, frame)
    except ContinueEx as error:
        if error.token is not token:
            raise
    except BreakEx as error:
        if error.token is not token:
            raise
        left = True
    finally:
        interp.loop_tokens.pop()
        ctx.scopes.pop()
    for touched, _ in scope.values():
        if touched.oid <= start and touched is not env and not any(
                touched is c for c in changed):
            raise Unsupported('a while loop changes other objects')
    if left:
        return
    raise PathEnd('loop', rule.holds(interp, frame))
