"""Inlining the encodings of instruction values into the source of a function."""
import ast
import astor
import logging
import os
import tempfile
import traceback
import magma as m
from peak.assembler.utils import ISABuilderAssembler


@spec(actual='peak.assembler.utils:ISABuilderAssembler.__init__', props=['C04'])
def init(self, assemblers, _locals, _globals):
    self._globals = _globals
    self._locals = _locals
    self.assemblers = assemblers


@spec(actual='peak.assembler.utils:ISABuilderAssembler.visit_Attribute', props=['C04'])
def visit_attribute(self, node):
    """T.member becomes the code of the member of the wrapped T; what has no value yet stays"""
    def evaluate(expr):
        return eval(compile(ast.Expression(expr), filename='<ast>', mode='eval'), self._locals, self._globals)

    if not isinstance(node.ctx, ast.Load):
        return node
    try:
        base = evaluate(node.value)
        if base not in self.assemblers:
            return node
        defined = evaluate(node)
        wrapped, assembler = self.assemblers[base]
        return ast.Num(int(assembler(getattr(wrapped, node.attr))))
    except NameError:
        return node


@spec(actual='peak.assembler.utils:assemble_values_in_func', props=['C04'])
def rewrite(assemblers, peak_fn, _locals, _globals):
    """the function of the same name, compiled from the rewritten source in the given scopes"""
    inliner = ISABuilderAssembler(assemblers, _locals, _globals)
    tree = ast.fix_missing_locations(inliner.visit(m.ast_utils.get_ast(peak_fn).body[0]))
    path = os.path.join(tempfile.mkdtemp(), peak_fn.__name__ + '.py')
    with open(path, 'w') as fp:
        fp.write(astor.to_source(tree))
    try:
        exec(compile(ast.Module([tree]), filename=path, mode='exec'), _globals, _locals)
    except:
        logging.error(traceback.format_exc())
        raise Exception(f'{peak_fn.__name__}') from None
    return _locals[peak_fn.__name__]
