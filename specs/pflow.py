"""P15 (lexical errors), P18 (whole sources), P11 (termination)."""
import re
from pbase import *
import grammar

class P15(ParserProp):
    """gerr counts the errors the lexer has reported; passed() those the parser has moved beyond"""
    id = 'P15'
    def ghost_fields(s, st): return [('gerr', 'Ghost<int>', 'Ghost(0)')] if st == 'PythonCoreTokenizer' else []
    def assumptions(s): return ['the ghost counter gerr of the lexer is, by definition of get_symbol here, the number of errors it has reported']
    def defs(s): return '''
pub open spec fn er(r: Result<Box<Token>, String>) -> int { if r is Err { 1 } else { 0 } }
pub open spec fn passed(p: &PythonCoreParser) -> int { p.lexer.gerr@ - er(p.symbol) }
'''
    def spec(s, f):
        n = f['name']
        if n == 'get_symbol' and f['impl'] == 'PythonCoreTokenizer': return ([], [('definition of the counter', 'final(self).gerr@ == old(self).gerr@ + er(r__)')], None)
        if not s.verify(f) or n == 'new' or not f['self']: return ([], [], None)
        mut = s.mut(f)
        r = s.ret(f)
        ok = 'r__ is Ok ==> ' if r.k == 'Result' else ''
        if n == 'advance': return ([], [('advance counts the error it passes', 'passed(final(self)) == passed(old(self)) + er(old(self).symbol)')], None)
        if not mut: return ([], s.helper(f), None)
        if n in ENTRY:
            e = [('P15 %s: no lexical error is passed' % n, ok + 'passed(final(self)) == passed(old(self)) + 1')]
            if 'single' not in n: e.append(('P15 %s: no lexical error is left in front' % n, ok + 'final(self).symbol is Ok'))
            return ([('a fresh parser', 'old(self).symbol is Err')], e, None)
        ens = [(s.claim(f, 'P15 %s: no lexical error is passed' % n), ok + 'passed(final(self)) == passed(old(self))')]
        if not s.known(f):
            ens += s.helper(f) + [('cand:h:%s:one' % n, ok + 'passed(final(self)) == passed(old(self)) + er(old(self).symbol)'), ('cand:h:%s:all' % n, 'passed(final(self)) == passed(old(self))')]
            if r.k == 'bool': ens += [('cand:h:%s:yes' % n, 'r__ ==> passed(final(self)) == passed(old(self))'), ('cand:h:%s:no' % n, '!r__ ==> passed(final(self)) == passed(old(self))')]
            if r.k == 'Option': ens += [('cand:h:%s:some' % n, 'r__ is Some ==> passed(final(self)) == passed(old(self))'), ('cand:h:%s:none' % n, 'r__ is None ==> passed(final(self)) == passed(old(self))')]
            ens += [('cand:h:%s:front' % n, ok + 'old(self).symbol is Ok'), ('cand:h:%s:behind' % n, ok + 'final(self).symbol is Ok')]
            return ([('cand:h:%s:reqfront' % n, 'old(self).symbol is Ok')] if s.called(f) else [], ens, None)
        return ([], ens, None)
    def loop_pre(s, f, l): return 'let ghost was__%d = passed(self);' % l['k'] if s.mut(f) else ''
    def loop_inv(s, f, l):
        if not s.mut(f): return ([], None)
        n, k = f['name'], l['k']
        return ([('cand:i:%s:%d' % (n, k), 'passed(self) == was__%d' % k), ('cand:i:%s:%d:ok' % (n, k), 'self.symbol is Ok')], None)
    def canary(s):
        return '''
pub fn canary_file(p: &mut PythonCoreParser)
  requires old(p).symbol is Err
{ let r = p.parse_blocks_file_input(); if r.is_ok() { assert(false); //@ canary file_input
  } }
'''

class P18(ParserProp):
    id = 'P18'
    def defs(s): return '''
pub open spec fn ended(n: ASTNode) -> bool { match n { ASTNode::SimpleStmtList(_, _, _, _, t) => *t is Newline, _ => false } }
pub open spec fn line_end(n: ASTNode) -> bool { match n { ASTNode::SingleInput(_, _, st, t) => (match t { Some(x) => *x is Newline, None => (match st { Some(y) => ended(*y), None => false }) }), _ => false } }
'''
    def assumptions(s): return ['the end marker is delivered only at the end of the source (C01)']
    def spec(s, f):
        n = f['name']
        if not s.verify(f) or n == 'new' or not f['self']: return ([], [], None)
        r = s.ret(f)
        kind = {'parse_blocks_eval_input': 'EvalInput', 'parse_blocks_file_input': 'FileInput', 'parse_blocks_func_type_input': 'FuncTypeInput'}.get(n)
        if kind: return ([], [('P18 %s: its own root' % n, 'r__ matches Ok(n) ==> *n is %s' % kind), ('P18 %s: everything up to the end marker is read' % n, 'r__ is Ok ==> (final(self).symbol matches Ok(t) && *t is EOF)')], None)
        if n == 'parse_blocks_single_input': return ([], [('P18 %s: its own root' % n, 'r__ matches Ok(n) ==> *n is SingleInput'), ('P18 %s: only with its line end' % n, 'r__ matches Ok(n) ==> line_end(*n)')], None)
        ens = s.helper(f)
        if r.k == 'Result' and repr(strip(r.a[0])) == 'ASTNode':
            ens += [('cand:%s:ended' % n, 'r__ matches Ok(n) ==> ended(*n)')]
            if not s.known(f): ens += [('cand:%s:%s' % (n, v), 'r__ matches Ok(n) ==> *n is %s' % v) for v in ('EvalInput', 'FileInput', 'FuncTypeInput', 'SingleInput')] + [
                ('cand:%s:line' % n, 'r__ matches Ok(n) ==> line_end(*n)'), ('cand:%s:eof' % n, 'r__ is Ok ==> (final(self).symbol matches Ok(t) && *t is EOF)')]
        return ([], ens, None)
    def canary(s):
        return '''
pub fn canary_file(p: &mut PythonCoreParser)
{ let r = p.parse_blocks_file_input(); if r.is_ok() { assert(false); //@ canary file_input
  } }
'''

ORDER = ('B.eval_input B.file_input B.single_input B.func_type_input S.stmt S.compound_stmt B.decorated B.decorators B.decorator B.async_func_def S.async_stmt S.if_stmt S.while_stmt S.for_stmt S.try_stmt S.with_stmt B.func_def B.class_def '
  'S.elif_stmt S.else_stmt S.finally_stmt S.except_stmt S.except_clause S.with_item B.parameters B.typed_args_list B.tfp_def_assign B.tfp_def B.func_body_suite S.suite P.match '
  'S.simple_stmt S.small_stmt S.flow_stmt S.del_stmt S.pass_stmt S.break_stmt S.continue_stmt S.return_stmt S.raise_stmt S.yield_stmt S.import_stmt S.import_name S.import_from S.import_as_names S.dotted_as_names S.import_as_name S.dotted_as_name S.dotted_name '
  'S.global_stmt S.nonlocal_stmt S.assert_stmt S.expr_stmt S.ann_assign F.func_type F.type_list E.yield_expr E.testlist_star_expr E.testlist_comp E.exprlist E.testlist E.dictorset_maker E.arglist E.argument E.subscript_list E.subscript '
  'E.comp_iter E.comp_for E.sync_comp_for E.comp_if E.var_args_list E.var_args_assignments E.vfp_def E.named_expression E.test E.no_cond_test E.lambda_def E.or_test E.and_test E.not_test E.comparison E.star_expr E.expr E.xor_expr E.and_expr '
  'E.shift E.arith E.term E.factor E.power E.atom_expr E.trailer E.atom').split()

class P11(ParserProp):
    """gfuel bounds the number of tokens the lexer can still deliver before the end marker"""
    id = 'P11'
    def __init__(s, ex):
        super().__init__(ex)
        px = {'E': 'parse_expressions_', 'S': 'parse_statements_', 'B': 'parse_blocks_', 'F': 'parse_functions_', 'P': 'parse_patterns_'}
        s.rank = {px[x[0]] + x[2:]: 1000 * (len(ORDER) - i) for i, x in enumerate(ORDER)}
        for _ in range(8):
            for f in s.fns:
                if f['impl'] != 'PythonCoreParser' or f['name'] in s.rank or f['name'] in ('new', 'advance'): continue
                c = [s.rank[g['name']] for g in s.fns if g['name'] in s.rank and re.search(r'\b%s\s*\(' % f['name'], g['body'])]
                if c: f['_rank'] = min(c) - 1
            for f in s.fns:
                if '_rank' in f: s.rank[f['name']] = f['_rank']; del f['_rank']
    def termination(s): return True
    def panics(s): return True
    def assumptions(s): return ['the ghost measure gfuel of the lexer is assumed to fall with every token before the end marker (this is the lexer property C01)', 'recursion depth: the stack is taken to be large enough']
    def ghost_fields(s, st): return [('gfuel', 'Ghost<nat>', 'Ghost(0)')] if st == 'PythonCoreTokenizer' else []
    def defs(s): return '''
pub open spec fn live(r: Result<Box<Token>, String>) -> bool { r matches Ok(t) && !(*t is EOF) }
// what is left to read
pub open spec fn left(p: &PythonCoreParser) -> nat { p.lexer.gfuel@ + (if live(p.symbol) { 1nat } else { 0 }) }
'''
    def spec(s, f):
        n = f['name']
        if n == 'get_symbol' and f['impl'] == 'PythonCoreTokenizer':
            return ([], [('C01: the lexer advances', 'final(self).gfuel@ <= old(self).gfuel@ && (live(r__) ==> final(self).gfuel@ < old(self).gfuel@)')], None)
        if not s.verify(f) or n == 'new' or not f['self'] or not s.mut(f): return ([], s.helper(f) + ([('cand:%s:never' % n, 'r__ is Err')] if s.ret(f).k == 'Result' else []), None)
        r = s.ret(f)
        O, N = 'left(old(self))', 'left(final(self))'
        if n == 'advance': return ([], [('advance moves on', 'final(self).lexer.gfuel@ <= old(self).lexer.gfuel@ && (live(final(self).symbol) ==> final(self).lexer.gfuel@ < old(self).lexer.gfuel@)')], None)
        if n in ENTRY: return ([], [], 'left(old(self)), %dint' % s.rank.get(n, 0))
        req = s.first(f)
        ens = [('P11 %s: nothing is unread' % n, '%s <= %s' % (N, O))] + s.helper(f)
        c = '%s < %s' % (N, O)
        if r.k == 'Result': ens.append(('cand:%s:consumes' % n, 'r__ is Ok ==> ' + c))
        elif r.k == 'bool': ens += [('cand:%s:consumes' % n, 'r__ ==> ' + c), ('cand:%s:consumes2' % n, '!r__ ==> ' + c)]
        elif r.k == 'Option': ens.append(('cand:%s:consumes' % n, 'r__ is Some ==> ' + c))
        else: ens.append(('cand:%s:always consumes' % n, c))
        if not s.known(f):
            ens.append(('cand:%s:consumes3' % n, 'live(old(self).symbol) ==> ' + c))
            if s.called(f): req = req + [('cand:req:%s:live' % n, 'live(old(self).symbol)')]
        return (req, ens, 'left(old(self)), %dint' % s.rank.get(n, 0))
    def loop_inv(s, f, l):
        if not s.mut(f): return ([], None)
        n, k = f['name'], l['k']
        o = [('cand:i:%s:%d:le' % (n, k), 'left(self) <= left(old(self))'), ('cand:i:%s:%d:lt' % (n, k), 'left(self) < left(old(self))')]
        flags = [m['name'] for m in l['mods'] if s.local_ty(m) is not None and s.local_ty(m).k == 'bool']
        if l.get('for'): return (o, '%s%s - %s' % (l['for']['end'], ' + 1' if l['for']['closed'] else '', l['for']['var']))
        return (o, ', '.join(['left(self)'] + ['(if %s { 1int } else { 0int })' % x for x in flags]))
