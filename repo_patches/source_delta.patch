From a36a24bac402ed6770f4f74c8fbd852867360391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 01/40] fix: reject keywords repeating positionally passed
 parameters

PlainSignature.all_set and expects accepted a keyword argument naming
a positional-or-keyword parameter already filled positionally
when the signature has a variadic keyword parameter.
---
 paradigm/_core/models.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da4ea56..f3a3fe3 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -316,6 +316,13 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        repeated_keyword_arguments_found = any(
+                parameter.name in kwargs
+                for parameter in positionals[:len(args)]
+                if parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+        )
+        if repeated_keyword_arguments_found:
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords: t.Iterable[Parameter] = (
@@ -353,6 +360,13 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        repeated_keyword_arguments_found = any(
+                parameter.name in kwargs
+                for parameter in positionals[:len(args)]
+                if parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+        )
+        if repeated_keyword_arguments_found:
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords = (
-- 
2.43.0


From 5ddbc1677a34ce3d9604de277080aca992b82b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 02/40] fix: allow binding keywords named as positional-only
 parameters

PlainSignature.bind rejected a keyword named as a positional-only
parameter passed positionally even if a variadic keyword parameter
collects it, as a real call does.
---
 paradigm/_core/models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index f3a3fe3..e50436e 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -390,6 +390,11 @@ class PlainSignature(BaseSignature):
                                         parameters_by_kind[
                                             ParameterKind.VARIADIC_POSITIONAL
                                         ]
+                                ),
+                                has_variadic_keyword=bool(
+                                        parameters_by_kind[
+                                            ParameterKind.VARIADIC_KEYWORD
+                                        ]
                                 )
                         ),
                         kwargs,
@@ -593,7 +598,8 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                       args: t.Tuple[_Arg, ...],
                       kwargs: t.Dict[str, _KwArg],
                       *,
-                      has_variadic: bool) -> t.Tuple[Parameter, ...]:
+                      has_variadic: bool,
+                      has_variadic_keyword: bool) -> t.Tuple[Parameter, ...]:
     def is_positionable(parameter: Parameter) -> bool:
         return (parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
                 or parameter.kind is ParameterKind.POSITIONAL_ONLY)
@@ -611,7 +617,7 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                     or kind is ParameterKind.KEYWORD_ONLY):
                 raise TypeError('Got multiple values '
                                 f'for parameter "{positional.name}".')
-            else:
+            elif not has_variadic_keyword:
                 raise TypeError(f'Parameter "{positional.name}" is {kind!s}, '
                                 'but was passed as a keyword.')
     return positionals[len(args):] + parameters[len(positionals):]
-- 
2.43.0


From aa6e5ceb978446a514d24d3c9ed8cce1f4b3bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 03/40] fix: use bound keyword argument as the default of bound
 parameter

PlainSignature.bind kept the original default of an optional parameter
bound by keyword instead of the bound value.
---
 paradigm/_core/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index e50436e..5bc5e65 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -652,11 +652,12 @@ def _bind_keywords(parameters: t.Tuple[Parameter, ...],
                                 annotation=parameter.annotation,
                                 name=parameter.name,
                                 kind=ParameterKind.KEYWORD_ONLY,
-                                **({'default': parameter.default}
-                                   if (isinstance(parameter, OptionalParameter)
-                                       and parameter.has_default)
-                                   else ({'default': kwargs[parameter.name]}
-                                         if parameter.name in kwargs_names
+                                **({'default': kwargs[parameter.name]}
+                                   if parameter.name in kwargs_names
+                                   else ({'default': parameter.default}
+                                         if (isinstance(parameter,
+                                                        OptionalParameter)
+                                             and parameter.has_default)
                                          else {}))
                         )
                         if (isinstance(parameter, OptionalParameter)
-- 
2.43.0


From 5fc61d126b0894c2910a70e782141fe459a4651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 04/40] fix: accept keyword arguments named self in signature
 queries

BaseSignature.all_set, expects and bind raised TypeError for keyword
arguments named as their own receiver parameter.
---
 paradigm/_core/models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 5bc5e65..0afb166 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -276,18 +276,18 @@ class BaseSignature(ABC):
     __slots__ = ()
 
     @abstractmethod
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """
         Checks if the signature has no unspecified parameters left
         with given arguments.
         """
 
     @abstractmethod
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """Checks if the signature accepts given arguments."""
 
     @abstractmethod
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
         """Binds given arguments to the signature."""
 
 
@@ -304,7 +304,7 @@ class PlainSignature(BaseSignature):
     def returns(self) -> t.Any:
         return self._returns
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (
                 parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
@@ -348,7 +348,7 @@ class PlainSignature(BaseSignature):
         return (all_parameters_are_optional(rest_positionals_only)
                 and all_parameters_are_optional(rest_keywords))
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
                        + parameters_by_kind[
@@ -380,7 +380,7 @@ class PlainSignature(BaseSignature):
         )
         return not unexpected_keyword_arguments_found
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         return PlainSignature(
                 *_bind_keywords(
@@ -515,15 +515,15 @@ class OverloadedSignature(BaseSignature):
     def signatures(self) -> t.Sequence[PlainSignature]:
         return self._signatures
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.all_set(*args, **kwargs)
                    for signature in self._signatures)
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.expects(*args, **kwargs)
                    for signature in self._signatures)
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> Signature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> Signature:
         signatures = [signature.bind(*args, **kwargs)
                       for signature in self._signatures
                       if signature.expects(*args, **kwargs)]
-- 
2.43.0


From 7a0686a008a19108f4ac2ffc7dd839235a99f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 05/40] fix: make hashes of parameters and signatures
 consistent with equality

Annotations and defaults are compared structurally by annotated.are_equal,
under which equal values may have different hashes
(e.g. type variables with the same definition) or be unhashable.
---
 paradigm/_core/models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 0afb166..0223629 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -124,7 +124,7 @@ class RequiredParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation, self._kind, self._name))
+        return hash((self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -216,9 +216,7 @@ class OptionalParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation,
-                     *((self._default,) if self._has_default else ()),
-                     self._kind, self._name))
+        return hash((self._has_default, self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -476,7 +474,7 @@ class PlainSignature(BaseSignature):
         return self._parameters, {'returns': self._returns}
 
     def __hash__(self) -> int:
-        return hash((self._parameters, self.returns))
+        return hash(self._parameters)
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
-- 
2.43.0


From 989c5ec919cfc4fdc340033c1d35eecc412a6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 06/40] fix: make annotations equality symmetric

are_equal dispatches on the type of the first operand only, so values
handled differently (e.g. typing.List[int] and list[int],
b'' and bytearray()) were equal in one order and not in the other.
---
 paradigm/_core/annotated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2b0efb1..75a8d81 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -28,7 +28,8 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_args, right_args = to_arguments(left), to_arguments(right)
     left_origin, right_origin = (to_origin(left) or left,
                                  to_origin(right) or right)
-    return (left_origin is right_origin
+    return (type(left) is type(right)
+            and left_origin is right_origin
             and len(left_args) == len(right_args)
             and ((all(any(are_equal(left_arg, right_arg)
                           for right_arg in right_args)
@@ -112,7 +113,7 @@ def _(left: t.TypeVar, right: t.Any) -> bool:
 @are_equal.register(bytes)
 @are_equal.register(str)
 def _(left: t.Union[bytes, str], right: t.Any) -> bool:
-    result = left == right
+    result = isinstance(right, (bytes, str)) and left == right
     assert isinstance(result, bool), result
     return result
 
-- 
2.43.0


From 41dddb3966f68efeb344fe69cca8da7d62572bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 07/40] fix: look up inherited class builders under their own
 class

Constructor and initializer of a base class were searched
under the path of the derived class, so classes inheriting them
got the signature of object.
---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 14808fe..23489df 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -498,8 +498,8 @@ def _to_class_builder_qualified_path(
     for base_module_path, base_object_path in _to_mro(module_path,
                                                       object_path):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
-        constructor_path = (*object_path, constructor_name)
-        initializer_path = (*object_path, initializer_name)
+        constructor_path = (*base_object_path, constructor_name)
+        initializer_path = (*base_object_path, initializer_name)
         if initializer_path in base_module_annotations:
             return (base_module_path, initializer_path)
         elif constructor_path in base_module_annotations:
-- 
2.43.0


From e221872ef24bdeb64812b8fdc0c08445d7500928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 08/40] fix: compare members of bar unions regardless of their
 order

Members of typing.Union were compared as a set, the ones of the same union
written with the bar (types.UnionType) in their order, so int | str was
not equal to str | int.
---
 paradigm/_core/annotated.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 75a8d81..60d6d35 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -12,6 +12,7 @@ from typing_extensions import (Literal,
 _T = t.TypeVar('_T')
 GenericAlias: t.Any = type(t.Generic[_T])
 del _T
+_UnionType: t.Any = getattr(types, 'UnionType', t.Union)
 
 
 @singledispatch
@@ -37,7 +38,9 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
                   and all(any(are_equal(left_arg, right_arg)
                               for left_arg in left_args)
                           for right_arg in right_args))
-                 if (left_origin is t.Union or left_origin is Literal)
+                 if (left_origin is t.Union
+                     or left_origin is _UnionType
+                     or left_origin is Literal)
                  else all(map(are_equal, left_args, right_args))))
 
 
-- 
2.43.0


From b1f468fb805bd517d3b7675a518d54a745889d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 09/40] fix: make representation of builtin generics and bar
 unions evaluable

Since Python 3.11 types.GenericAlias does not pretend to be a class, so
representations of its parts were left to Python: list[None] was shown as
list[NoneType], which can not be evaluated.
---
 paradigm/_core/annotated.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 60d6d35..abb8944 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -154,6 +154,19 @@ def _(value: type) -> str:
                 else result)
 
 
+if sys.version_info >= (3, 9):
+    @to_repr.register(types.GenericAlias)
+    def _(value: types.GenericAlias) -> str:
+        prefix = '*' if getattr(value, '__unpacked__', False) else ''
+        arguments = ', '.join(map(to_repr, to_arguments(value))) or '()'
+        return f'{prefix}{to_repr(to_origin(value))}[{arguments}]'
+
+if sys.version_info >= (3, 10):
+    @to_repr.register(types.UnionType)
+    def _(value: types.UnionType) -> str:
+        return ' | '.join(map(to_repr, to_arguments(value)))
+
+
 @to_repr.register(GenericAlias)
 def _(value: GenericAlias) -> str:
     origin = to_origin(value)
-- 
2.43.0


From 32a5f172d9a02b1bf0eca212b18b87e23c13b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 10/40] fix: do not wait forever for the result of a separate
 process

A function ending its process, raising what is not an Exception or
accepting keyword argument named 'queue', or a result which can not be
pickled left the caller waiting.
---
 paradigm/_core/execution.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..08c561e 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -3,7 +3,7 @@ import multiprocessing
 import sys
 import threading
 import typing as t
-from multiprocessing.queues import SimpleQueue
+from multiprocessing.connection import Connection
 
 
 def is_main_process() -> bool:
@@ -21,16 +21,17 @@ def call_in_process(function: t.Callable[..., t.Any],
         try:
             sys.modules['__main__'] = caller_module
             context = multiprocessing.get_context()
-            queue = context.SimpleQueue()
+            receiver, sender = context.Pipe(duplex=False)
             process = context.Process(
-                    target=_put_result_in_queue,
+                    target=_send_result,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(queue, function, *args),
-                    kwargs=kwargs
+                    args=(sender, function, args, kwargs)
             )
             process.start()
-            result, error = queue.get()
+            # otherwise the end of the process would never be noticed
+            sender.close()
+            result, error = receiver.recv()
             process.join()
             if error is not None:
                 raise error
@@ -42,14 +43,14 @@ def call_in_process(function: t.Callable[..., t.Any],
                 sys.modules['__main__'] = main_module
 
 
-def _put_result_in_queue(queue: 'SimpleQueue[t.Any]',
-                         function: t.Callable[..., t.Any],
-                         *args: t.Any,
-                         **kwargs: t.Any) -> None:
+def _send_result(sender: Connection,
+                 function: t.Callable[..., t.Any],
+                 args: t.Tuple[t.Any, ...],
+                 kwargs: t.Dict[str, t.Any]) -> None:
     try:
         result = function(*args, **kwargs)
-    except Exception as error:
-        queue.put((None, error))
+    except BaseException as error:
+        sender.send((None, error))
         raise error
     else:
-        queue.put((result, None))
+        sender.send((result, None))
-- 
2.43.0


From 32d64988361d05aaaada5d5764f7f736a1ae2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 11/40] fix: share the lock of the main module between calls

---
 paradigm/_core/execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 08c561e..5634891 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -6,6 +6,10 @@ import typing as t
 from multiprocessing.connection import Connection
 
 
+# the main module is shared by threads, the function may call others likewise
+_main_module_lock = threading.RLock()
+
+
 def is_main_process() -> bool:
     return multiprocessing.current_process().name == 'MainProcess'
 
@@ -13,7 +17,7 @@ def is_main_process() -> bool:
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
-    with threading.Lock():
+    with _main_module_lock:
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
         assert caller_module is not None
-- 
2.43.0


From e0a77c9b4b91216baf054fc859b61c4f960dba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 12/40] fix: do not alter bases of generic classes when
 specializing them

---
 paradigm/_core/stubs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..17eb4e9 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -814,7 +814,7 @@ if _reload_cache:
                     base_base_module_path: _catalog.Path
                     base_base_object_path: _catalog.Path
                     if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
+                        base_base_node = specialize(_deepcopy(generic_base))
                         base_base_name = _serialization.to_identifier(
                                 base_base_node
                         )
-- 
2.43.0


From f0c36aae5ada565151d81c29b726407dc61c93d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 13/40] fix: build named tuples of stubs with their own
 constructor

---
 paradigm/_core/arboreal/evaluation.py | 3 +++
 paradigm/_core/stubs.py               | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cc32ddc..1207ed3 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -409,6 +409,9 @@ def evaluate_qualified_path(
                         object_path, []
                 )
         )
+        if t.NamedTuple in bases:
+            # added by the class creation itself
+            class_namespace.pop(object.__new__.__name__, None)
         if annotations_nodes:
             class_namespace['__annotations__'] = {}
         result = parent_namespace[object_path[-1]] = objects_cache[
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 17eb4e9..e3c70da 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -301,7 +301,11 @@ if _reload_cache:
                         constructor_node = (
                             _named_tuple_to_constructor_ast_node(node)
                         )
-                        self._add_ast_node((class_name,), constructor_node)
+                        constructor_path = (class_name, constructor_node.name)
+                        self._add_ast_node(constructor_path, constructor_node)
+                        self._add_ast_node_kind(constructor_path,
+                                                _NodeKind.FUNCTION)
+                        self._add_path_definition(constructor_path)
                         self._add_superclass(class_path, base_module_path,
                                              base_object_path)
                         continue
-- 
2.43.0


From b3860cf9f2f77d26a7a524321af4f15d96a04af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 14/40] fix: do not take callables of other modules for ones of
 the standard library

---
 paradigm/_core/signatures.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 23489df..87e3db1 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -28,6 +28,7 @@ from .models import (OptionalParameter as _OptionalParameter,
                      Signature as _Signature,
                      from_signatures as _from_signatures)
 from .modules import supported_stdlib_qualified_paths as _qualified_paths
+from .sources import stdlib_modules_paths as _stdlib_modules_paths
 from .utils import decorate_if as _decorate_if
 
 
@@ -467,9 +468,14 @@ def resolve_qualified_paths(
         candidates_paths = _qualified_paths[module_path][object_path]
     except KeyError:
         assert not module_path or object_path, value
-        qualified_paths = ([(module_path, object_path)]
-                           if module_path
-                           else [])
+        # objects of the modules which are not imported for indexing
+        qualified_paths = (
+            [(module_path, object_path)]
+            if (module_path in _stdlib_modules_paths
+                and _value_has_qualified_path(value,
+                                              (module_path, object_path)))
+            else []
+        )
     else:
         qualified_paths = [path
                            for path in candidates_paths
-- 
2.43.0


From c8e00931132447d04a9823f6e237ba8f0f017779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 15/40] fix: register bases of specialized generics of any
 depth

---
 paradigm/_core/stubs.py | 81 ++++++++++-------------------------------
 1 file changed, 20 insertions(+), 61 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index e3c70da..c71cfcf 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -740,8 +740,9 @@ if _reload_cache:
             for base in class_bases:
                 base_module_path, base_object_path = _register_base_ast_node(
                         base, class_module_path, class_object_path,
-                        classes_bases, generics_parameters_paths,
-                        specializations_ast_nodes, specializations_module_path,
+                        class_module_path, classes_bases,
+                        generics_parameters_paths, specializations_ast_nodes,
+                        specializations_module_path,
                         specializations_module_scope,
                         specializations_nodes_kinds,
                         specializations_references, modules_ast_nodes,
@@ -759,6 +760,7 @@ if _reload_cache:
             base: _ast.expr,
             child_module_path: _catalog.Path,
             child_object_path: _catalog.Path,
+            specialization_module_path: _catalog.Path,
             classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
@@ -796,7 +798,7 @@ if _reload_cache:
                 ]
                 _register_generic_specialization(
                         generic_module_path, generic_object_path,
-                        child_module_path, base_object_path,
+                        specialization_module_path, base_object_path,
                         generic_parameters_paths,
                         specialization_args, specializations_ast_nodes,
                         specializations_module_scope,
@@ -815,65 +817,22 @@ if _reload_cache:
                 generic_bases = classes_bases[(generic_module_path,
                                                generic_object_path)]
                 for generic_base in generic_bases:
-                    base_base_module_path: _catalog.Path
-                    base_base_object_path: _catalog.Path
-                    if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(_deepcopy(generic_base))
-                        base_base_name = _serialization.to_identifier(
-                                base_base_node
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            specializations_module_path, (base_base_name,)
-                        )
-                        if base_base_name not in specializations_module_scope:
-                            generic_base_base_object_path = (
-                                _conversion.to_path(generic_base.value)
-                            )
-                            (
-                                generic_base_base_module_path,
-                                generic_base_base_object_path
-                            ) = _scoping.resolve_object_path(
-                                    generic_module_path,
-                                    generic_object_path[:-1],
-                                    generic_base_base_object_path,
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                            generic_base_base_parameters_paths = (
-                                generics_parameters_paths[
-                                    (generic_base_base_module_path,
-                                     generic_base_base_object_path)
-                                ]
-                            )
-                            base_base_specialization_args = _unpack_ast_node(
-                                    _subscript_to_item(base_base_node)
-                            )
-                            _register_generic_specialization(
-                                    generic_base_base_module_path,
-                                    generic_base_base_object_path,
-                                    child_module_path, base_base_object_path,
-                                    generic_base_base_parameters_paths,
-                                    base_base_specialization_args,
-                                    specializations_ast_nodes,
-                                    specializations_module_scope,
-                                    specializations_nodes_kinds,
-                                    specializations_references,
-                                    modules_ast_nodes, modules_definitions,
-                                    modules_nodes_kinds, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                    else:
-                        base_base_object_path = _conversion.to_path(
-                                generic_base
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            _scoping.resolve_object_path(
-                                    generic_module_path, (),
-                                    base_base_object_path, modules_definitions,
-                                    modules_references, modules_submodules,
-                                    modules_superclasses
-                            )
+                    base_base_module_path, base_base_object_path = (
+                        _register_base_ast_node(
+                                specialize(_deepcopy(generic_base)),
+                                generic_module_path, generic_object_path,
+                                specialization_module_path, classes_bases,
+                                generics_parameters_paths,
+                                specializations_ast_nodes,
+                                specializations_module_path,
+                                specializations_module_scope,
+                                specializations_nodes_kinds,
+                                specializations_references,
+                                modules_ast_nodes, modules_definitions,
+                                modules_nodes_kinds, modules_references,
+                                modules_submodules, modules_superclasses
                         )
+                    )
                     modules_superclasses.setdefault(
                             specializations_module_path, {}
                     ).setdefault(base_object_path, []).append(
-- 
2.43.0


From 458b63d964a3f17ea626dc8eb98812242f5ad40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 16/40] fix: use the function of a bound method instead of the
 attribute of its name

---
 paradigm/_core/signatures.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 87e3db1..31470ac 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -71,8 +71,7 @@ def _(_callable: _types.MethodType) -> _Signature:
     try:
         return (_from_callable(_callable)
                 if isinstance(_callable.__self__, type)
-                else (_from_callable(getattr(type(_callable.__self__),
-                                             _callable.__name__))
+                else (_from_callable(_callable.__func__)
                       .bind(_callable.__self__)))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
-- 
2.43.0


From d4f1fe9ac3aa64a1980dd88aed168a4905b93a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 17/40] fix: keep positional-only parameters of stubs

---
 paradigm/_core/signatures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 31470ac..bd92d38 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -620,7 +620,8 @@ def _to_positional_parameters(
     # double-reversing since parameters with default arguments go last
     parameters_with_defaults_ast: _t.List[
         _t.Tuple[_ast.arg, _t.Optional[_ast.expr]]
-    ] = list(_zip_longest(reversed(signature_ast.args),
+    ] = list(_zip_longest(reversed([*signature_ast.posonlyargs,
+                                    *signature_ast.args]),
                           signature_ast.defaults[::-1]))[::-1]
     kind = _ParameterKind.POSITIONAL_ONLY
     return [_parameter_from_ast_node(parameter_ast, default_ast, module_path,
-- 
2.43.0


From c5d34044ec48147f6656ebc666b44be759721d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 18/40] fix: do not take callables for library ones of modules
 not imported yet

---
 paradigm/_core/signatures.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index bd92d38..fdd979c 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -479,6 +479,10 @@ def resolve_qualified_paths(
         qualified_paths = [path
                            for path in candidates_paths
                            if _value_has_qualified_path(value, path)]
+        if (len(qualified_paths) < len(candidates_paths)
+                and not any(_is_imported(path) for path in qualified_paths)):
+            # all decidable paths lead to other objects
+            qualified_paths = []
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
@@ -524,6 +528,11 @@ def _to_mro(module_path: _catalog.Path,
             yield from _to_mro(base_module_path, base_object_path)
 
 
+def _is_imported(path: _catalog.QualifiedPath) -> bool:
+    module_path, _ = path
+    return _sys.modules.get(_catalog.path_to_string(module_path)) is not None
+
+
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
-- 
2.43.0


From db7ec8ac6b183498fff31a0c4ad4a002f152a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 19/40] fix: use the method of the class a bound method comes
 from instead of the override

---
 paradigm/_core/signatures.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index fdd979c..07a5bd2 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -48,8 +48,7 @@ def _(
     try:
         return ((_from_callable(_callable)
                  if isinstance(_callable.__self__, type)
-                 else (_from_callable(getattr(type(_callable.__self__),
-                                              _callable.__name__))
+                 else (_from_callable(_to_method_descriptor(_callable))
                        .bind(_callable.__self__)))
                 if (_callable.__self__ is not None
                     and not isinstance(_callable.__self__, _types.ModuleType))
@@ -83,7 +82,8 @@ def _(_callable: _types.MethodWrapperType) -> _Signature:
     self = _callable.__self__
     assert not isinstance(self, type), _callable
     try:
-        return (_from_callable(getattr(type(self), _callable.__name__))
+        return (_from_callable(getattr(_callable.__objclass__,
+                                       _callable.__name__))
                 .bind(self))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
@@ -380,6 +380,17 @@ class _SignatureNotFound(Exception):
     pass
 
 
+def _to_method_descriptor(method: _types.BuiltinMethodType) -> _t.Any:
+    self, name = method.__self__, method.__name__
+    for cls in type(self).__mro__:
+        candidate = vars(cls).get(name)
+        # the class of the instance may override the method
+        if (isinstance(candidate, _types.MethodDescriptorType)
+                and candidate.__get__(self, cls) == method):
+            return candidate
+    return getattr(type(self), name)
+
+
 def _try_resolve_object_path(
         module_path: _catalog.Path, object_path: _catalog.Path
 ) -> _catalog.QualifiedPath:
-- 
2.43.0


From e0330232ecdda38dcad61332935c34d6a80a38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 20/40] fix: keep the first parameter of static methods of
 stubs

---
 paradigm/_core/signatures.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 07a5bd2..357fc90 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -334,7 +334,10 @@ def _parameters_from(
         result[0] = _RequiredParameter(annotation=_t.Type[_Self],
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
-    elif _stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS:
+    elif (_stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS
+          and not any(_is_staticmethod(decorator_node, module_path,
+                                       parent_path)
+                      for decorator_node in ast_node.decorator_list)):
         result[0] = _RequiredParameter(annotation=_Self,
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
@@ -376,6 +379,23 @@ def _is_classmethod(
             ) == classmethod_qualified_path)
 
 
+def _is_staticmethod(
+        expression_node: _ast.expr,
+        module_path: _catalog.Path,
+        parent_path: _catalog.Path,
+        *,
+        staticmethod_qualified_path: _catalog.QualifiedPath
+        = (_catalog.module_path_from_module(_builtins),
+           _catalog.path_from_string(staticmethod.__qualname__)),
+) -> bool:
+    maybe_path = _conversion.to_maybe_path(expression_node)
+    return (maybe_path is not None
+            and _scoping.resolve_object_path(
+                    module_path, parent_path, maybe_path, _stubs.definitions,
+                    _stubs.references, _stubs.submodules, _stubs.superclasses
+            ) == staticmethod_qualified_path)
+
+
 class _SignatureNotFound(Exception):
     pass
 
-- 
2.43.0


From 4f4aa399e6c5dafc0c3e9d439985480b3270d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 21/40] fix: support slots of metaclasses

---
 paradigm/_core/signatures.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 357fc90..3b56099 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -79,12 +79,10 @@ def _(_callable: _types.MethodType) -> _Signature:
 @_decorate_if(from_callable.register(_types.MethodWrapperType),
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
-    self = _callable.__self__
-    assert not isinstance(self, type), _callable
     try:
         return (_from_callable(getattr(_callable.__objclass__,
                                        _callable.__name__))
-                .bind(self))
+                .bind(_callable.__self__))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
-- 
2.43.0


From b3866e33c9da986ee6f59a8cfef0ad42e63cbfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 22/40] fix: compare builders of classes with the one object
 really has

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 3b56099..780d85f 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -455,7 +455,7 @@ def _resolve_builder_qualified_path(
         object_builder_qualified_path: _catalog.QualifiedPath
         = (_catalog.module_path_from_module(_builtins),
            _catalog.path_from_string(object.__qualname__)
-           + _catalog.path_from_string(object.__new__.__name__))
+           + _catalog.path_from_string(object.__init__.__name__))
 ) -> _catalog.QualifiedPath:
     candidates = {_to_class_builder_qualified_path(module_path, object_path)
                   for module_path, object_path in qualified_paths}
@@ -529,7 +529,7 @@ def _to_class_builder_qualified_path(
         object_builder_qualified_path: _catalog.QualifiedPath
         = (_catalog.module_path_from_module(_builtins),
            _catalog.path_from_string(object.__qualname__)
-           + _catalog.path_from_string(object.__new__.__name__)),
+           + _catalog.path_from_string(object.__init__.__name__)),
         constructor_name: str = object.__new__.__name__,
         initializer_name: str = object.__init__.__name__
 ) -> _catalog.QualifiedPath:
-- 
2.43.0


From 28b7828c3bb448d61b0832c7d03a4d16ddf67367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 23/40] fix: resolve attributes of builtins which they inherit

---
 paradigm/_core/scoping.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b007fd3..4f214e2 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -159,7 +159,11 @@ def resolve_object_path(
                         modules_submodules, modules_superclasses,
                         *visited_modules_paths, module_path
                 )
-        if scope_contains_path(modules_definitions[_builtins_module_path],
-                               object_path):
-            return _builtins_module_path, object_path
+        if object_path[0] in modules_definitions[_builtins_module_path]:
+            return resolve_object_path(
+                    _builtins_module_path, (), object_path,
+                    modules_definitions, modules_references,
+                    modules_submodules, modules_superclasses,
+                    *visited_modules_paths
+            )
         raise ObjectNotFound((module_path, object_path))
-- 
2.43.0


From 9f4aeae390163c20cf43153c410c024818c6cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 24/40] fix: search builtins after imported names

---
 paradigm/_core/scoping.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 4f214e2..92a3d99 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -55,7 +55,8 @@ def resolve_object_path(
         modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
         *visited_modules_paths: catalog.Path,
         _builtins_module_path: catalog.Path
-        = catalog.module_path_from_module(builtins)
+        = catalog.module_path_from_module(builtins),
+        _search_builtins: bool = True
 ) -> catalog.QualifiedPath:
     try:
         module_definitions = modules_definitions[module_path]
@@ -120,7 +121,8 @@ def resolve_object_path(
                             sub_module_path, (), object_path,
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path
+                            *visited_modules_paths, module_path,
+                            _search_builtins=False
                     )
                 except ObjectNotFound:
                     continue
@@ -159,7 +161,9 @@ def resolve_object_path(
                         modules_submodules, modules_superclasses,
                         *visited_modules_paths, module_path
                 )
-        if object_path[0] in modules_definitions[_builtins_module_path]:
+        if (_search_builtins
+                and (object_path[0]
+                     in modules_definitions[_builtins_module_path])):
             return resolve_object_path(
                     _builtins_module_path, (), object_path,
                     modules_definitions, modules_references,
-- 
2.43.0


From 8af6126c81f860088a575b1b2a8886d9a6defcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 25/40] fix: search attributes among all bases before object

---
 paradigm/_core/scoping.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 92a3d99..4390235 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -73,8 +73,9 @@ def resolve_object_path(
                 modules_superclasses, *visited_modules_paths
         )
     elif object_path[0] in module_definitions:
-        module_superclasses, scope = (
+        module_superclasses, object_qualified_path, scope = (
             modules_superclasses.get(module_path, {}),
+            (_builtins_module_path, (object.__name__,)),
             module_definitions[object_path[0]]
         )
         for index, sub_name in enumerate(object_path[1:],
@@ -92,17 +93,31 @@ def resolve_object_path(
                             superclass_module_path, superclass_object_path
                     ) in sub_path_superclasses:
                         try:
-                            return resolve_object_path(
-                                    superclass_module_path, (),
-                                    superclass_object_path
-                                    + object_path[index:],
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses,
-                                    *visited_modules_paths, module_path
+                            member_module_path, member_object_path = (
+                                resolve_object_path(
+                                        superclass_module_path, (),
+                                        (*superclass_object_path, sub_name),
+                                        modules_definitions,
+                                        modules_references,
+                                        modules_submodules,
+                                        modules_superclasses,
+                                        *visited_modules_paths, module_path
+                                )
                             )
                         except ObjectNotFound:
                             continue
-                if object_path[0] != object.__name__:
+                        if ((member_module_path, member_object_path[:-1])
+                                == object_qualified_path):
+                            # other superclasses precede ``object``
+                            continue
+                        return resolve_object_path(
+                                member_module_path, (),
+                                member_object_path + object_path[index + 1:],
+                                modules_definitions, modules_references,
+                                modules_submodules, modules_superclasses,
+                                *visited_modules_paths, module_path
+                        )
+                if (module_path, sub_path) != object_qualified_path:
                     return resolve_object_path(
                             _builtins_module_path, (),
                             (object.__name__,) + object_path[index:],
-- 
2.43.0


From 71fbb5016182b16b11c1532b3d33d5f13b4ed4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 26/40] fix: tell names leading to themselves from modules
 importing each other

---
 paradigm/_core/scoping.py | 49 ++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 4390235..3bcedfb 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -53,7 +53,7 @@ def resolve_object_path(
         modules_references: t.Mapping[catalog.Path, ModuleReferences],
         modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
         modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
-        *visited_modules_paths: catalog.Path,
+        *visited_qualified_paths: catalog.QualifiedPath,
         _builtins_module_path: catalog.Path
         = catalog.module_path_from_module(builtins),
         _search_builtins: bool = True
@@ -64,13 +64,17 @@ def resolve_object_path(
         raise ObjectNotFound((module_path, object_path))
     if not object_path:
         return (module_path, object_path)
+    qualified_path = (module_path, object_path)
+    if not parent_path and qualified_path in visited_qualified_paths:
+        # names leading to themselves
+        raise ObjectNotFound(qualified_path)
     assert scope_contains_path(module_definitions, parent_path)
     if (parent_path and scope_contains_path(module_definitions,
                                             (*parent_path, object_path[0]))):
         return resolve_object_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
-                modules_superclasses, *visited_modules_paths
+                modules_superclasses, *visited_qualified_paths
         )
     elif object_path[0] in module_definitions:
         module_superclasses, object_qualified_path, scope = (
@@ -101,7 +105,8 @@ def resolve_object_path(
                                         modules_references,
                                         modules_submodules,
                                         modules_superclasses,
-                                        *visited_modules_paths, module_path
+                                        *visited_qualified_paths,
+                                        qualified_path
                                 )
                             )
                         except ObjectNotFound:
@@ -115,7 +120,7 @@ def resolve_object_path(
                                 member_object_path + object_path[index + 1:],
                                 modules_definitions, modules_references,
                                 modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
+                                *visited_qualified_paths, qualified_path
                         )
                 if (module_path, sub_path) != object_qualified_path:
                     return resolve_object_path(
@@ -123,24 +128,23 @@ def resolve_object_path(
                             (object.__name__,) + object_path[index:],
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
-                            *visited_modules_paths
+                            *visited_qualified_paths
                     )
                 else:
                     raise ObjectNotFound((module_path, object_path))
         return (module_path, object_path)
     else:
         for sub_module_path in modules_submodules.get(module_path, []):
-            if sub_module_path not in visited_modules_paths:
-                try:
-                    return resolve_object_path(
-                            sub_module_path, (), object_path,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path,
-                            _search_builtins=False
-                    )
-                except ObjectNotFound:
-                    continue
+            try:
+                return resolve_object_path(
+                        sub_module_path, (), object_path,
+                        modules_definitions, modules_references,
+                        modules_submodules, modules_superclasses,
+                        *visited_qualified_paths, qualified_path,
+                        _search_builtins=False
+                )
+            except ObjectNotFound:
+                continue
         module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
@@ -157,24 +161,21 @@ def resolve_object_path(
                                 referent_module_path, (), referent_object_path,
                                 modules_definitions, modules_references,
                                 modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
+                                *visited_qualified_paths, qualified_path
                         )
                     )
                 except ObjectNotFound:
-                    assert (len(referent_object_path) == 1), (module_path,
-                                                              object_path)
                     referent_module_path += referent_object_path
                     referent_object_path = ()
-                    assert (
-                            referent_module_path in modules_definitions
-                    ), (module_path, object_path)
+                    if referent_module_path not in modules_definitions:
+                        raise
                 return resolve_object_path(
                         referent_module_path, (),
                         referent_object_path
                         + object_path[len(object_path) - offset:],
                         modules_definitions, modules_references,
                         modules_submodules, modules_superclasses,
-                        *visited_modules_paths, module_path
+                        *visited_qualified_paths, qualified_path
                 )
         if (_search_builtins
                 and (object_path[0]
@@ -183,6 +184,6 @@ def resolve_object_path(
                     _builtins_module_path, (), object_path,
                     modules_definitions, modules_references,
                     modules_submodules, modules_superclasses,
-                    *visited_modules_paths
+                    *visited_qualified_paths
             )
         raise ObjectNotFound((module_path, object_path))
-- 
2.43.0


From ca22825e02762f6aef59c0b756e7c0b5b58f013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 27/40] fix: record no declarations for names which are not
 found

---
 paradigm/_core/stubs.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index c71cfcf..b73b39f 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -449,7 +449,6 @@ if _reload_cache:
             try:
                 return self._resolve_object_path(object_path)
             except _ObjectNotFound:
-                self._add_path_definition(object_path)
                 return (self.module_path, object_path)
 
         def _is_type_var_object_path(
-- 
2.43.0


From d97cb7c2094ddd4440f9c289e72d68f28a1d0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 28/40] fix: parse stubs of modules importing everything from
 each other

---
 paradigm/_core/stubs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index b73b39f..6f2ad0b 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -515,7 +515,7 @@ if _reload_cache:
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
             ],
-            *,
+            *importing_modules_paths: _catalog.Path,
             _builtins_module_path: _catalog.Path
             = _catalog.module_path_from_module(_builtins)
     ) -> _catalog.QualifiedPath:
@@ -533,6 +533,8 @@ if _reload_cache:
             return module_path, object_path
         else:
             for sub_module_path in modules_submodules.get(module_path, []):
+                if sub_module_path in importing_modules_paths:
+                    continue
                 try:
                     return _resolve_object_path(
                             sub_module_path, (), object_path,
@@ -540,7 +542,8 @@ if _reload_cache:
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
                             visited_modules_paths, classes_bases,
-                            generics_parameters_paths
+                            generics_parameters_paths,
+                            *importing_modules_paths, module_path
                     )
                 except _ObjectNotFound:
                     continue
@@ -557,7 +560,7 @@ if _reload_cache:
                 return (referent_module_name,
                         (referent_object_path
                          + object_path[len(object_path) - offset:]))
-        if _scoping.scope_contains_path(
+        if not importing_modules_paths and _scoping.scope_contains_path(
                 modules_definitions[_builtins_module_path], object_path
         ):
             return _builtins_module_path, object_path
-- 
2.43.0


From 21a7c6f005df2e569516b10c5b3d2953020c329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 29/40] fix: make classes nested in classes known only from
 stubs

---
 paradigm/_core/arboreal/evaluation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 1207ed3..e115d3a 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -356,8 +356,13 @@ def evaluate_qualified_path(
         class_namespace: namespacing.Namespace = {'__module__': __name__}
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
+        classes_paths = {}
         for name in scope.keys():
-            raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
+            field_path = (*object_path, name)
+            if stubs.nodes_kinds[module_path][field_path] is NodeKind.CLASS:
+                classes_paths[name] = field_path
+                continue
+            raw_ast_nodes = module_raw_ast_nodes[field_path]
             ast_nodes = [construction.from_raw(raw_ast_node)
                          for raw_ast_node in raw_ast_nodes]
             definitions_nodes: t.List[ast.stmt] = []
@@ -429,6 +434,10 @@ def evaluate_qualified_path(
                                                parent_namespace)
                 for name, annotation_node in annotations_nodes.items()
             })
+        for name, class_path in classes_paths.items():
+            setattr(result, name,
+                    evaluate_qualified_path(module_path, class_path,
+                                            module_namespace))
         globals()[catalog.path_to_string(object_path)] = result
         return result
 
-- 
2.43.0


From 19ffae1e4802a2ec65fdb76f894235b972cef732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 30/40] fix: look up conditions of stubs which are names
 themselves

---
 paradigm/_core/stubs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 6f2ad0b..cb0329b 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -345,7 +345,9 @@ if _reload_cache:
             namespace: _namespacing.Namespace = {}
             for dependency_name in {
                 child.id
-                for child in _recursively_iterate_children(node.test)
+                for child in chain(
+                        [node.test], _recursively_iterate_children(node.test)
+                )
                 if _is_dependency_name(child)
             }:
                 module_path, object_path = self._resolve_object_path(
-- 
2.43.0


From 2336eda6dc719c5b6d9afc81f096f94d8145d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 31/40] fix: take order of parameters from Generic & Protocol
 bases

---
 paradigm/_core/stubs.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index cb0329b..2763545 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -266,19 +266,21 @@ if _reload_cache:
                                        self.module_path)
             class_bases = self.classes_bases[(module_path, class_path)] = []
             type_vars_local_paths = []
+            generic_type_vars_local_paths = []
             for base in node.bases:
                 if _is_generic_specialization(base):
                     type_args_maybe_objects_paths = [
                         _conversion.to_maybe_path(argument)
                         for argument in _collect_type_args(base)
                     ]
-                    type_vars_local_paths += [
+                    base_type_vars_local_paths = [
                         maybe_object_path
                         for maybe_object_path in type_args_maybe_objects_paths
                         if (maybe_object_path is not None
                             and
                             self._is_type_var_object_path(maybe_object_path))
                     ]
+                    type_vars_local_paths += base_type_vars_local_paths
                     base_origin_maybe_object_path = (
                         _conversion.to_maybe_path(base.value)
                     )
@@ -287,6 +289,10 @@ if _reload_cache:
                                     base_origin_maybe_object_path
                             ) in [(typing_module_path, generic_object_path),
                                   (typing_module_path, protocol_object_path)]):
+                        # defines order of parameters
+                        generic_type_vars_local_paths = (
+                            base_type_vars_local_paths
+                        )
                         continue
                 else:
                     base_reference_path = _conversion.to_path(base)
@@ -317,7 +323,10 @@ if _reload_cache:
                              and base_object_path == generic_object_path)
                     ), (module_path, class_path)
                 class_bases.append(base)
-            generic_parameters = tuple(dict.fromkeys(type_vars_local_paths))
+            generic_parameters = tuple(
+                    dict.fromkeys(generic_type_vars_local_paths
+                                  or type_vars_local_paths)
+            )
             if generic_parameters:
                 self.generics_parameters_paths[
                     (module_path, class_path)
-- 
2.43.0


From 6ee00a4397ca3cee956d66bb4857aa117fec0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 32/40] fix: consider parameters specifications among
 parameters of generics

---
 paradigm/_core/stubs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2763545..ab60c6e 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -465,10 +465,12 @@ if _reload_cache:
         def _is_type_var_object_path(
                 self, object_path: _catalog.Path,
                 *,
-                type_var_object_path: _catalog.Path
-                = _catalog.path_from_string(_t.TypeVar.__qualname__),
-                typing_module_path: _catalog.Path
-                = _catalog.module_path_from_module(_t),
+                type_vars_objects_paths: _t.Collection[_catalog.Path]
+                = (_catalog.path_from_string(_t.TypeVar.__qualname__),
+                   ('ParamSpec',)),
+                typing_modules_paths: _t.Collection[_catalog.Path]
+                = (_catalog.module_path_from_module(_t),
+                   ('typing_extensions',)),
         ) -> bool:
             module_path, object_path = self._to_qualified_path(object_path)
             _parse_stub_scope(
@@ -501,8 +503,8 @@ if _reload_cache:
                         self.generics_parameters_paths
                 )
             )
-            return (callable_module_path == typing_module_path
-                    and callable_object_path == type_var_object_path)
+            return (callable_module_path in typing_modules_paths
+                    and callable_object_path in type_vars_objects_paths)
 
 
     class _ObjectNotFound(Exception):
-- 
2.43.0


From 13a5d6d7050e26529d778ee737463a82e58095b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 33/40] fix: find type variables inside of lists and unions

---
 paradigm/_core/stubs.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index ab60c6e..e970292 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -632,14 +632,16 @@ if _reload_cache:
             queue = [_subscript_to_item(ast_node)]
             args: _t.List[_ast.expr] = []
             while queue:
-                specialization_node = queue.pop()
-                candidates = _unpack_ast_node(specialization_node)
-                for candidate in reversed(candidates):
-                    if _is_generic_specialization(candidate):
-                        queue.append(_subscript_to_item(candidate))
-                    else:
-                        args.append(candidate)
-            return args[::-1]
+                candidate = queue.pop()
+                if _is_generic_specialization(candidate):
+                    queue.append(_subscript_to_item(candidate))
+                elif isinstance(candidate, (_ast.List, _ast.Tuple)):
+                    queue.extend(reversed(candidate.elts))
+                elif isinstance(candidate, _ast.BinOp):
+                    queue.extend((candidate.right, candidate.left))
+                else:
+                    args.append(candidate)
+            return args
         else:
             return []
 
-- 
2.43.0


From c7ef65e93b0405e28f65fe91d73857bb306ab651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 34/40] fix: specialize generics with attributes of expressions

---
 paradigm/_core/stubs.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index e970292..b06f209 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -661,10 +661,18 @@ if _reload_cache:
         def visit_Attribute(self, node: _ast.Attribute) -> _ast.expr:
             if not isinstance(node.ctx, _ast.Load):
                 return node
-            candidate = self.table.get(_conversion.to_path(node))
-            return (node
-                    if candidate is None
-                    else _ast.copy_location(_deepcopy(candidate), node))
+            maybe_path = _conversion.to_maybe_path(node)
+            candidate = (None
+                         if maybe_path is None
+                         else self.table.get(maybe_path))
+            if candidate is not None:
+                return _ast.copy_location(_deepcopy(candidate), node)
+            value = self.visit(node.value)
+            if maybe_path is None or _conversion.to_maybe_path(value):
+                # arguments of parameters specification have no counterpart
+                # in lists of types
+                node.value = value
+            return node
 
 
     def _parse_stubs_state(
-- 
2.43.0


From c38e2c010aca51e3dd8b1aa74c7181c5a9983783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 35/40] fix: keep specializations of different scopes apart

---
 paradigm/_core/stubs.py | 263 +++++++++++++++++++---------------------
 1 file changed, 126 insertions(+), 137 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index b06f209..3632485 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -739,41 +739,18 @@ if _reload_cache:
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
-            *,
-            specializations_module_path: _catalog.Path = ('__specializations',)
+            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
     ) -> None:
-        assert specializations_module_path not in modules_ast_nodes
-        specializations_ast_nodes = modules_ast_nodes[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_definitions
-        specializations_module_scope = modules_definitions[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_nodes_kinds
-        specializations_nodes_kinds = modules_nodes_kinds[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_references
-        specializations_references = modules_references[
-            specializations_module_path
-        ] = {}
         for (class_module_path, class_object_path), class_bases in (
                 classes_bases.items()
         ):
             for base in class_bases:
                 base_module_path, base_object_path = _register_base_ast_node(
                         base, class_module_path, class_object_path,
-                        class_module_path, classes_bases,
-                        generics_parameters_paths, specializations_ast_nodes,
-                        specializations_module_path,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
+                        classes_bases, generics_parameters_paths,
+                        modules_ast_nodes, modules_definitions,
+                        modules_nodes_kinds, modules_references,
+                        modules_submodules, modules_superclasses
                 )
                 modules_superclasses.setdefault(
                         class_module_path, {}
@@ -785,85 +762,52 @@ if _reload_cache:
             base: _ast.expr,
             child_module_path: _catalog.Path,
             child_object_path: _catalog.Path,
-            specialization_module_path: _catalog.Path,
             classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
             ],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_path: _catalog.Path,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
             modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
             modules_definitions: _t.Dict[_catalog.Path, _Scope],
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
+            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
+            *,
+            specializations_module_path: _catalog.Path = ('__specializations',)
     ) -> _catalog.QualifiedPath:
         if _is_generic_specialization(base):
-            base_name = _serialization.to_identifier(base)
-            base_object_path = (base_name,)
-            if base_name not in specializations_module_scope:
-                specialization_args = _unpack_ast_node(
-                        _subscript_to_item(base)
-                )
-                generic_object_path = _conversion.to_path(base.value)
+            child_parent_path = child_object_path[:-1]
+            # the same names may stand for different objects
+            # in different scopes
+            base_module_path = (specializations_module_path
+                                + child_module_path + child_parent_path
+                                + (_conversion.to_raw(base),))
+            base_object_path = (_conversion.to_identifier(base.value)
+                                + '_specialization',)
+            if base_module_path not in modules_definitions:
                 generic_module_path, generic_object_path = (
                     _scoping.resolve_object_path(
-                            child_module_path, child_object_path[:-1],
-                            generic_object_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
+                            child_module_path, child_parent_path,
+                            _conversion.to_path(base.value),
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses
                     )
                 )
-                generic_parameters_paths = generics_parameters_paths[
-                    (generic_module_path, generic_object_path)
-                ]
+                modules_ast_nodes[base_module_path] = {}
+                modules_definitions[base_module_path] = {}
+                modules_nodes_kinds[base_module_path] = {}
+                modules_references[base_module_path] = {}
                 _register_generic_specialization(
                         generic_module_path, generic_object_path,
-                        specialization_module_path, base_object_path,
-                        generic_parameters_paths,
-                        specialization_args, specializations_ast_nodes,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
+                        base_module_path, base_object_path,
+                        _unpack_ast_node(_subscript_to_item(base)),
+                        child_module_path, child_parent_path, classes_bases,
+                        generics_parameters_paths, modules_ast_nodes,
                         modules_definitions, modules_nodes_kinds,
                         modules_references, modules_submodules,
                         modules_superclasses
                 )
-                assert base_object_path not in modules_superclasses.get(
-                        specializations_module_path, {}
-                )
-                specialization_table = dict(zip(generic_parameters_paths,
-                                                specialization_args))
-                specialize = _SpecializeGeneric(specialization_table).visit
-                generic_bases = classes_bases[(generic_module_path,
-                                               generic_object_path)]
-                for generic_base in generic_bases:
-                    base_base_module_path, base_base_object_path = (
-                        _register_base_ast_node(
-                                specialize(_deepcopy(generic_base)),
-                                generic_module_path, generic_object_path,
-                                specialization_module_path, classes_bases,
-                                generics_parameters_paths,
-                                specializations_ast_nodes,
-                                specializations_module_path,
-                                specializations_module_scope,
-                                specializations_nodes_kinds,
-                                specializations_references,
-                                modules_ast_nodes, modules_definitions,
-                                modules_nodes_kinds, modules_references,
-                                modules_submodules, modules_superclasses
-                        )
-                    )
-                    modules_superclasses.setdefault(
-                            specializations_module_path, {}
-                    ).setdefault(base_object_path, []).append(
-                            (base_base_module_path, base_base_object_path)
-                    )
-            return specializations_module_path, base_object_path
+            return base_module_path, base_object_path
         else:
             base_reference_path = _conversion.to_path(base)
             return _scoping.resolve_object_path(
@@ -879,85 +823,130 @@ if _reload_cache:
             generic_object_path: _catalog.Path,
             specialization_module_path: _catalog.Path,
             specialization_object_path: _catalog.Path,
-            generic_parameters_paths: _t.Sequence[_catalog.Path],
             specialization_args: _t.Sequence[_ast.expr],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
+            args_module_path: _catalog.Path,
+            args_parent_path: _catalog.Path,
+            classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
+            generics_parameters_paths: _t.Dict[
+                _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
+            ],
             modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
             modules_definitions: _t.Dict[_catalog.Path, _Scope],
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Mapping[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Mapping[
-                _catalog.Path, _ModuleSuperclasses
-            ],
+            modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
+            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
             builtins_module_path: _catalog.Path
             = _catalog.module_path_from_module(_builtins)
     ) -> None:
-        base_scope = specializations_module_scope
-        for part in specialization_object_path:
-            base_scope = base_scope.setdefault(part, {})
         generic_scope = modules_definitions[generic_module_path]
         for part in generic_object_path:
             generic_scope = generic_scope[part]
-        base_scope.update(generic_scope)
+        specialization_scope = modules_definitions[specialization_module_path]
+        for part in specialization_object_path:
+            specialization_scope = specialization_scope.setdefault(part, {})
+        specialization_scope.update(_deepcopy(generic_scope))
         generic_module_ast_nodes = modules_ast_nodes[generic_module_path]
-        specializations_nodes_kinds[
-            specialization_object_path
-        ] = _NodeKind.CLASS
+        generic_module_nodes_kinds = modules_nodes_kinds[generic_module_path]
+        specialization_ast_nodes = modules_ast_nodes[
+            specialization_module_path
+        ]
+        specialization_nodes_kinds = modules_nodes_kinds[
+            specialization_module_path
+        ]
+        specialization_references = modules_references[
+            specialization_module_path
+        ]
         specialize = _SpecializeGeneric(
-                dict(zip(generic_parameters_paths, specialization_args))
+                dict(zip(generics_parameters_paths.get((generic_module_path,
+                                                        generic_object_path),
+                                                       ()),
+                         specialization_args))
         ).visit
-        args_names = (
-                {arg.id
-                 for arg in specialization_args
-                 if _is_dependency_name(arg)}
-                | {child.id
-                   for ast_node in specialization_args
-                   for child in _recursively_iterate_children(ast_node)
-                   if _is_dependency_name(child)}
+        args_names = set(
+                chain.from_iterable(_to_dependencies_names(ast_node)
+                                    for ast_node in specialization_args)
         )
-        for name in generic_scope.keys():
-            generic_field_path = (*generic_object_path, name)
-            generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
-            specialization_field_path = (*specialization_object_path, name)
-            specialization_ast_nodes = specializations_ast_nodes[
-                specialization_field_path
-            ] = [specialize(_deepcopy(ast_node))
-                 for ast_node in generic_ast_nodes]
-            specialization_definitions_names = set(
-                    chain.from_iterable(
-                            _conversion.to_names(ast_node)
-                            for ast_node in specialization_ast_nodes
-                    )
+        for sub_path in [(), *_iterate_scope_paths(generic_scope)]:
+            generic_path = generic_object_path + sub_path
+            specialization_path = specialization_object_path + sub_path
+            specialization_nodes_kinds[specialization_path] = (
+                generic_module_nodes_kinds[generic_path]
+            )
+            ast_nodes = [
+                specialize(_deepcopy(ast_node))
+                for ast_node in generic_module_ast_nodes.get(generic_path, [])
+            ]
+            if ast_nodes:
+                specialization_ast_nodes[specialization_path] = ast_nodes
+            bases = [
+                specialize(_deepcopy(base))
+                for base in classes_bases.get((generic_module_path,
+                                               generic_path), [])
+            ]
+            definitions_names = set(
+                    chain.from_iterable(_conversion.to_names(ast_node)
+                                        for ast_node in ast_nodes)
             )
             for dependency_name in (
-                    {child.id
-                     for ast_node in specialization_ast_nodes
-                     for child in _recursively_iterate_children(ast_node)
-                     if _is_dependency_name(child)}
-                    - specialization_definitions_names
+                    set(chain.from_iterable(_to_dependencies_names(ast_node)
+                                            for ast_node in ast_nodes + bases))
+                    - definitions_names
             ):
                 dependency_path = (dependency_name,)
+                source_module_path, source_parent_path = (
+                    (args_module_path, args_parent_path)
+                    if dependency_name in args_names
+                    else (generic_module_path, generic_path[:-1])
+                )
                 dependency_module_path, dependency_object_path = (
                     _scoping.resolve_object_path(
-                            (specialization_module_path
-                             if dependency_name in args_names
-                             else generic_module_path), (),
+                            source_module_path, source_parent_path,
                             dependency_path, modules_definitions,
                             modules_references, modules_submodules,
                             modules_superclasses
                     )
                 )
-                if dependency_module_path != builtins_module_path:
-                    specializations_references[dependency_path] = (
+                if not dependency_object_path:
+                    # submodules may be imported along with the module
+                    specialization_references.update(
+                            {path: referent
+                             for path, referent
+                             in modules_references[source_module_path].items()
+                             if path[:1] == dependency_path}
+                    )
+                if (dependency_module_path != builtins_module_path
+                        or dependency_object_path != dependency_path):
+                    specialization_references[dependency_path] = (
                         dependency_module_path, dependency_object_path
                     )
-            specializations_nodes_kinds[specialization_field_path] = (
-                modules_nodes_kinds[generic_module_path][generic_field_path]
-            )
+            for base in bases:
+                base_module_path, base_object_path = _register_base_ast_node(
+                        base, specialization_module_path, specialization_path,
+                        classes_bases, generics_parameters_paths,
+                        modules_ast_nodes, modules_definitions,
+                        modules_nodes_kinds, modules_references,
+                        modules_submodules, modules_superclasses
+                )
+                modules_superclasses.setdefault(
+                        specialization_module_path, {}
+                ).setdefault(specialization_path, []).append(
+                        (base_module_path, base_object_path)
+                )
+
+
+    def _to_dependencies_names(ast_node: _ast.AST) -> _t.Iterable[str]:
+        return (child.id
+                for child in chain([ast_node],
+                                   _recursively_iterate_children(ast_node))
+                if _is_dependency_name(child))
+
+
+    def _iterate_scope_paths(scope: _Scope) -> _t.Iterable[_catalog.Path]:
+        for name, sub_scope in scope.items():
+            yield (name,)
+            for sub_path in _iterate_scope_paths(sub_scope):
+                yield (name, *sub_path)
 
 
     if _execution.is_main_process():
-- 
2.43.0


From 12d82f722ef1075d2ff4378d10891a94f0e39577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 36/40] fix: compute missing caches in processes made by users

---
 paradigm/_core/execution.py | 8 ++++++--
 paradigm/_core/modules.py   | 2 +-
 paradigm/_core/stubs.py     | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 5634891..204f5f4 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -10,8 +10,12 @@ from multiprocessing.connection import Connection
 _main_module_lock = threading.RLock()
 
 
-def is_main_process() -> bool:
-    return multiprocessing.current_process().name == 'MainProcess'
+def can_call_in_process() -> bool:
+    process = multiprocessing.current_process()
+    # processes made for calls may import modules making calls,
+    # daemonic processes are not allowed to have children
+    return not (process.daemon
+                or process.name.startswith(f'{call_in_process.__qualname__}_'))
 
 
 def call_in_process(function: t.Callable[..., t.Any],
diff --git a/paradigm/_core/modules.py b/paradigm/_core/modules.py
index 1e6aae4..ac6465c 100644
--- a/paradigm/_core/modules.py
+++ b/paradigm/_core/modules.py
@@ -32,7 +32,7 @@ else:
 if _reload_cache:
     from . import execution as _execution
 
-    if _execution.is_main_process():
+    if _execution.can_call_in_process():
         from . import (catalog as _catalog,
                        scoping as _scoping,
                        stubs as _stubs)
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 3632485..aa04eb1 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -949,7 +949,7 @@ if _reload_cache:
                 yield (name, *sub_path)
 
 
-    if _execution.is_main_process():
+    if _execution.can_call_in_process():
         (
             definitions, nodes_kinds, raw_ast_nodes, references, submodules,
             superclasses
-- 
2.43.0


From 10ef2b329b8d454b371843f813dad4b7cf0e4a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 37/40] fix: evaluate declarations of callable types in the
 scope they are made in

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 780d85f..b12e1ec 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -157,7 +157,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
         call_ast_nodes = _load_ast_nodes(module_path,
                                          (*object_path, call_name))
         call_signatures = [_from_statement_node(ast_node, callable_,
-                                                module_path, ())
+                                                module_path, object_path)
                            for ast_node in call_ast_nodes]
         return _from_signatures(*[signature.bind(callable_)
                                   for signature in call_signatures])
@@ -171,7 +171,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
             assert isinstance(annotation_node, _ast.stmt), (module_path,
                                                             object_path)
             return _from_statement_node(annotation_node, callable_,
-                                        module_path, ())
+                                        module_path, object_path[:-1])
     raise _SignatureNotFound
 
 
-- 
2.43.0


From 73ac43efd4794476e0415dd24868bfb0edf1a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:50 +0000
Subject: [PATCH 38/40] fix: forget references to names whose values failed to
 be evaluated

---
 paradigm/_core/arboreal/evaluation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index e115d3a..f21fd44 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -235,8 +235,13 @@ def _(ast_node: ast.Assign,
         else:
             break
     else:
-        result = evaluate_expression_node(ast_node.value, module_path,
-                                          parent_path, parent_namespace)
+        try:
+            result = evaluate_expression_node(ast_node.value, module_path,
+                                              parent_path, parent_namespace)
+        except BaseException:
+            for target_path in targets_paths:
+                cache.pop(target_path, None)
+            raise
     for target_path in targets_paths:
         cache[target_path] = result
     return result
-- 
2.43.0


From 9cb5a5ca449b8b2a817739a3644fd15698421683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:30 +0000
Subject: [PATCH 39/40] fix: find built-in class methods of the standard
 library

---
 paradigm/_core/signatures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index b12e1ec..44e8c3c 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -575,7 +575,11 @@ def _value_has_qualified_path(value: _t.Any,
             candidate = getattr(candidate, part)
         except AttributeError:
             return False
-    return candidate is value
+    return (candidate is value
+            # methods of classes are made anew each time they are obtained
+            or (isinstance(value, _types.BuiltinMethodType)
+                and isinstance(candidate, _types.BuiltinMethodType)
+                and candidate == value))
 
 
 def _parameter_from_raw(raw: _inspect.Parameter) -> _Parameter:
-- 
2.43.0


From 2291b3363c112b25699413e252fabe16658163de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 40/40] fix: prefer declarations of the very object to the ones
 of its namesakes

---
 paradigm/_core/signatures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 44e8c3c..cdf62b1 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -512,7 +512,7 @@ def resolve_qualified_paths(
                 and not any(_is_imported(path) for path in qualified_paths)):
             # all decidable paths lead to other objects
             qualified_paths = []
-    return sorted({
+    resolved_paths = sorted({
         (module_path, object_path)
         for module_path, object_path in [
             _try_resolve_object_path(module_path, object_path)
@@ -520,6 +520,10 @@ def resolve_qualified_paths(
         ]
         if module_path and object_path
     })
+    # names may be resolved to the ones of other objects
+    return [path
+            for path in resolved_paths
+            if _value_has_qualified_path(value, path)] or resolved_paths
 
 
 def _to_class_builder_qualified_path(
-- 
2.43.0

