"""The grammar of the syntax tree, written once; specs/pgram.py turns it into contracts, table() into the search oracle.

Field forms:  T(kinds) a token of one of the kinds;  N(class) a node of the class;  O(x) optional;  L(x) list;  P(x, y) pair.
Conditions (all 17):  #i length of the list in field i;  ?i field i is there;  $i the same as a number;  @i:K|K field i is there and a token of one of the kinds.
Every form carries the property it belongs to: 13 operators and operands, 16 statement structure, 17 tokens in their places."""

import re
class F:
    def __init__(s, k, arg, tag=None): s.k, s.arg, s.tag = k, arg, tag
def T(*kinds): return F('T', tuple(k for x in kinds for k in x.split()))
def N(cls): return F('N', cls)
def O(x): return F('O', x)
def L(x): return F('L', x)
def P(*xs): return F('P', xs)

NUMBER_OF_POS = 2
G = {}       # variant -> (fields, [conditions])
def g(name, *fields, cond=(), tag=None):
    G[name] = (list(fields), list(cond))
    TAG[name] = tag
TAG = {}

# ---- expressions: operators (13) ----
def op(name, l, tok, r): g(name, N(l), T(tok), N(r), tag='op')
g('NamedExpr', N('test'), T('PyColonAssign'), N('test'), tag='op')
g('Test', N('or_test'), T('PyIf'), N('or_test'), T('PyElse'), N('test'), tag='op')
g('Lambda', T('PyLambda'), O(N('var_args_list')), T('PyColon'), N('test'), tag='op')
op('OrTest', 'or_test', 'PyOr', 'and_test')
op('AndTest', 'and_test', 'PyAnd', 'not_test')
g('NotTest', T('PyNot'), N('not_test'), tag='op')
for v, t in (('Less', 'PyLess'), ('LessEqual', 'PyLessEqual'), ('Equal', 'PyEqual'), ('Greater', 'PyGreater'), ('GreaterEqual', 'PyGreaterEqual'), ('NotEqual', 'PyNotEqual'), ('In', 'PyIn'), ('Is', 'PyIs')):
    op(v + 'Comparison', 'comparison', t, 'expr')
g('NotInComparison', N('comparison'), T('PyNot'), T('PyIn'), N('expr'), tag='op')
g('IsNotComparison', N('comparison'), T('PyIs'), T('PyNot'), N('expr'), tag='op')
g('StarExpr', T('PyMul'), N('expr'), tag='op')
op('Expr', 'expr', 'PyBitOr', 'xor_expr')
op('XorExpr', 'xor_expr', 'PyBitXor', 'and_expr')
op('AndExpr', 'and_expr', 'PyBitAnd', 'shift')
op('ShiftLeftExpr', 'shift', 'PyShiftLeft', 'arith')
op('ShiftRightExpr', 'shift', 'PyShiftRight', 'arith')
op('PlusArithExpr', 'arith', 'PyPlus', 'term')
op('MinusArithExpr', 'arith', 'PyMinus', 'term')
op('MulTerm', 'term', 'PyMul', 'factor')
op('DivTerm', 'term', 'PyDiv', 'factor')
op('FloorDivTerm', 'term', 'PyFloorDiv', 'factor')
op('ModuloTerm', 'term', 'PyModulo', 'factor')
op('MatriceTerm', 'term', 'PyMatrice', 'factor')
g('UnaryPlus', T('PyPlus'), N('factor'), tag='op')
g('UnaryMinus', T('PyMinus'), N('factor'), tag='op')
g('UnaryInvert', T('PyBitInvert'), N('factor'), tag='op')
op('PowerExpr', 'atom_expr', 'PyPower', 'factor')
# ---- expressions: the rest (nodes 13, tokens 17) ----
g('AtomExpr', O(T('PyAwait')), N('atom'), L(N('trailer')), cond=['?0 || #2 > 0'])
for v, t in (('AtomName', 'AtomName'), ('AtomNumber', 'AtomNumber'), ('AtomElipsis', 'PyElipsis'), ('AtomNone', 'PyNone'), ('AtomTrue', 'PyTrue'), ('AtomFalse', 'PyFalse')):
    g(v, T(t))
g('AtomString', L(T('AtomString')), cond=['#0 > 0'])
g('AtomTuple', T('PyLeftParen'), O(N('yield_or_testlist_comp')), T('PyRightParen'))
g('AtomList', T('PyLeftBracket'), O(N('testlist_comp')), T('PyRightBracket'))
g('AtomDictionary', T('PyLeftCurly'), O(N('dictionary')), T('PyRightCurly'))
g('AtomSet', T('PyLeftCurly'), O(N('set')), T('PyRightCurly'))
g('TestListComp', L(N('comp_element')), L(T('PyComa')), cond=['#0 == #1 + 1 || (#0 == #1 && #1 > 0) || (#0 == 2 && #1 == 0)'])
g('CallTrailer', T('PyLeftParen'), O(N('arglist')), T('PyRightParen'))
g('IndexTrailer', T('PyLeftBracket'), N('subscript_list'), T('PyRightBracket'))
g('DotNameTrailer', T('PyDot'), T('AtomName'))
g('SubscriptList', L(N('subscript')), L(T('PyComa')), cond=['#0 == #1 + 1'])
g('Subscript', O(N('test')), O(T('PyColon')), O(N('test')), O(T('PyColon')), O(N('test')), cond=['(!?2 && !?3) || ?1', '!?4 || ?3', '?0 || ?1'])
g('ExprList', L(N('target')), L(T('PyComa')), cond=['#0 == #1 + 1 || #0 == #1', '#1 > 0'])
g('TestList', L(N('test')), L(T('PyComa')), cond=['#0 == #1 + 1 || #0 == #1', '#1 > 0'])
g('DictionaryContainer', L(N('dictionary_entry')), L(T('PyComa')), cond=['#0 == #1 + 1 || #0 == #1'])
g('DictionaryEntry', N('test'), T('PyColon'), N('test'))
g('SetContainer', L(N('set_entry')), L(T('PyComa')), cond=['#0 == #1 + 1 || #0 == #1'])
g('MulSet', T('PyMul'), N('expr'))
g('PowerDictionary', T('PyPower'), N('expr'))
g('ArgList', L(N('argument')), L(T('PyComa')), cond=['#0 == #1 + 1 || #0 == #1'])
g('Argument', O(N('test')), O(T('PyMul PyPower PyColonAssign PyAssign')), O(N('argument_value')), cond=['?0 || (?1 && ?2)', '!?1 || ?2', '!?1 || (?0 && @1:PyColonAssign|PyAssign) || (!?0 && @1:PyMul|PyPower)'])
g('SyncCompForComprehension', T('PyFor'), N('targets'), T('PyIn'), N('or_test'), O(N('comp_iter')))
g('CompForComprehension', T('PyAsync'), N('sync_comp_for'))
g('CompIfComprehension', T('PyIf'), N('no_cond_test'), O(N('comp_iter')))
g('YieldExpr', T('PyYield'), N('testlist_star_expr'))
g('YieldFromExpr', T('PyYield'), T('PyFrom'), N('test'))
g('TestListStarExpr', L(N('star_or_test')), L(T('PyComa')), cond=['#0 == #1 + 1 || #0 == #1', '#1 > 0'])
g('VarArgsList', L(N('vfp')), L(T('PyComa')), O(T('PyMul')), O(N('vfp_def')), O(T('PyPower')), O(N('vfp_def')), O(T('PyDiv')), cond=['!?3 || ?2', '?5 == ?4', '#0 + $2 + $4 + $6 == #1 + 1 || #0 + $2 + $4 + $6 == #1'])
g('VFPAssign', N('vfp_def'), T('PyAssign'), N('test'))
g('VFPDef', T('AtomName'))
# ---- statements (nodes 16, tokens 17) ----
def s(name, *f, cond=()): g(name, *f, cond=cond, tag='stmt')
for v, t in (('Plus', 'PyPlusAssign'), ('Minus', 'PyMinusAssign'), ('Mul', 'PyMulAssign'), ('Div', 'PyDivAssign'), ('FloorDiv', 'PyFloorDivAssign'), ('Modulo', 'PyModuloAssign'),
             ('Matrice', 'PyMatriceAssign'), ('Power', 'PyPowerAssign'), ('ShiftLeft', 'PyShiftLeftAssign'), ('ShiftRight', 'PyShiftRightAssign'), ('BitOr', 'PyBitOrAssign'),
             ('BitXor', 'PyBitXorAssign'), ('BitAnd', 'PyBitAndAssign')):
    s(v + 'AssignStmt', N('testlist_star_expr'), T(t), N('yield_or_testlist'))
s('AnnAssignStmt', N('testlist_star_expr'), T('PyColon'), N('test'), O(P(T('PyAssign'), N('yield_or_testlist_star'))))
s('AssignmentStmt', N('testlist_star_expr'), L(P(T('PyAssign'), N('yield_or_testlist_star'))), O(T('TypeComment')), cond=['#1 > 0'])
s('SimpleStmtList', L(N('small_stmt')), L(T('PySemiColon')), T('Newline'), cond=['#0 == #1 + 1 || #0 == #1'])
s('DelStmt', T('PyDel'), N('targets'))
s('PassStmt', T('PyPass'))
s('BreakStmt', T('PyBreak'))
s('ContinueStmt', T('PyContinue'))
s('ReturnStmt', T('PyReturn'), O(N('testlist_star_expr')))
s('RaiseStmt', T('PyRaise'), O(P(N('test'), O(P(T('PyFrom'), N('test'))))))
s('ImportNameStmt', T('PyImport'), N('dotted_as_names'))
s('ImportFromStmt', T('PyFrom'), L(T('PyDot PyElipsis')), O(N('dotted_name')), T('PyImport'), O(T('PyMul PyLeftParen')), O(N('import_as_names')), O(T('PyRightParen')), cond=['#1 > 0 || ?2', '?4 || ?5', '!?6 || (?4 && ?5)', '?6 == @4:PyLeftParen', '!@4:PyMul || !?5', '!@4:PyLeftParen || ?5'])
s('ImportAsName', T('AtomName'), O(P(T('PyAs'), T('AtomName'))))
s('DottedAsNameStmt', N('dotted_name'), O(P(T('PyAs'), T('AtomName'))))
s('ImportAsNamesStmt', L(N('import_as_name')), L(T('PyComa')), cond=['#0 == #1 + 1'])
s('DottedAsNamesStmt', L(N('dotted_as_name')), L(T('PyComa')), cond=['#0 == #1 + 1'])
s('DottedNameStmt', L(T('AtomName')), L(T('PyDot')), cond=['#0 == #1 + 1'])
s('GlobalStmt', T('PyGlobal'), L(T('AtomName')), L(T('PyComa')), cond=['#1 == #2 + 1'])
s('NonLocalStmt', T('PyNonLocal'), L(T('AtomName')), L(T('PyComa')), cond=['#1 == #2 + 1'])
s('AssertStmt', T('PyAssert'), N('test'), O(P(T('PyComa'), N('test'))))
s('AsyncStmt', T('PyAsync'), N('async_able'))
s('IfStmt', T('PyIf'), N('named_expr'), T('PyColon'), N('suite'), L(N('elif_stmt')), O(N('else_stmt')))
s('ElifStmt', T('PyElif'), N('named_expr'), T('PyColon'), N('suite'))
s('ElseStmt', T('PyElse'), T('PyColon'), N('suite'))
s('WhileStmt', T('PyWhile'), N('named_expr'), T('PyColon'), N('suite'), O(N('else_stmt')))
s('ForStmt', T('PyFor'), N('targets'), T('PyIn'), N('testlist'), T('PyColon'), O(T('TypeComment')), N('suite'), O(N('else_stmt')))
s('TryStmt', T('PyTry'), T('PyColon'), N('suite'), O(L(N('except_stmt'))), O(N('else_stmt')), O(N('finally_stmt')), cond=['?3 || ?5', '?3 || !?4'])
s('FinallyStmt', T('PyFinally'), T('PyColon'), N('suite'))
s('WithStmt', T('PyWith'), O(T('PyLeftParen')), L(N('with_item')), L(T('PyComa')), O(T('PyRightParen')), T('PyColon'), N('suite'), cond=['#2 == #3 + 1 || (?1 && #2 == #3)', '?1 == ?4', '#2 > 0'])
s('WithItem', N('test'), O(P(T('PyAs'), N('expr'))))
s('ExceptClauseStmt', T('PyExcept'), O(T('PyMul')), O(P(N('test'), O(P(T('PyAs'), T('AtomName'))))), cond=['!?1 || ?2'])
s('ExceptStmt', N('except_clause'), T('PyColon'), N('suite'))
s('SuiteStmt', T('Newline'), T('Indent'), L(N('stmt')), T('Dedent'), cond=['#2 > 0'])
s('Decorator', T('PyMatrice'), N('dotted_name'), O(T('PyLeftParen')), O(N('arglist')), O(T('PyRightParen')), T('Newline'), cond=['?2 == ?4', '!?3 || ?2'])
s('Decorators', L(N('decorator')), cond=['#0 > 0'])
s('Decorated', N('decorators'), N('decoratable'))
s('FuncDef', T('PyDef'), T('AtomName'), O(N('parameter')), O(P(T('PyArrow'), N('test'))), T('PyColon'), O(T('TypeComment')), N('func_body_suite'), cond=['?2'])
s('Parameter', T('PyLeftParen'), O(N('typed_args_list')), T('PyRightParen'))
s('TypedArgsList', L(N('never')), L(T()), L(T()), O(P(T(), N('never'))), O(P(T(), N('never'))))
s('TFPAssign', N('tfp_def'), T('PyAssign'), N('test'))
s('TFPDef', T('AtomName'), O(P(T('PyColon'), N('test'))))
s('ClassDef', T('PyClass'), T('AtomName'), O(T('PyLeftParen')), O(N('arglist')), O(T('PyRightParen')), T('PyColon'), N('suite'), cond=['?2 == ?4', '!?3 || ?2'])
s('FuncBodySuite', T('Newline'), O(T('TypeComment')), O(T('Newline')), T('Indent'), L(N('stmt')), T('Dedent'), cond=['#4 > 0', '?1 == ?2'])
s('FuncTypeInput', N('func_type'), L(T('Newline')), T('EOF'))
s('FuncType', T('PyLeftParen'), O(N('type_list')), T('PyRightParen'), T('PyArrow'), N('test'))
s('TypeList', L(N('test')), L(T('PyComa')), O(T('PyMul')), O(N('test')), O(T('PyPower')), O(N('test')), cond=['!?3 || ?2', '?5 == ?4', '#0 + $2 + $4 == #1 + 1'])
s('SingleInput', O(N('stmt')), O(T('Newline')), cond=['?0 || ?1'])
s('FileInput', L(N('stmt')), L(T('Newline')), T('EOF'))
s('EvalInput', N('testlist'), L(T('Newline')), T('EOF'))

# ---- classes ----
C = {}
def c(name, *parts):
    r = []
    for p in parts:
        for x in p.split():
            for y in (C[x] if x in C else [x]):
                if y not in r: r.append(y)
    C[name] = r
c('never')
c('atom', 'AtomName AtomNumber AtomString AtomElipsis AtomNone AtomTrue AtomFalse AtomTuple AtomList AtomDictionary AtomSet')
c('atom_expr', 'atom AtomExpr')
c('power', 'atom_expr PowerExpr')
c('factor', 'power UnaryPlus UnaryMinus UnaryInvert')
c('term', 'factor MulTerm DivTerm FloorDivTerm ModuloTerm MatriceTerm')
c('arith', 'term PlusArithExpr MinusArithExpr')
c('shift', 'arith ShiftLeftExpr ShiftRightExpr')
c('and_expr', 'shift AndExpr')
c('xor_expr', 'and_expr XorExpr')
c('expr', 'xor_expr Expr')
c('comparison', 'expr LessComparison LessEqualComparison EqualComparison GreaterComparison GreaterEqualComparison NotEqualComparison InComparison IsComparison NotInComparison IsNotComparison')
c('not_test', 'comparison NotTest')
c('and_test', 'not_test AndTest')
c('or_test', 'and_test OrTest')
c('lambda', 'Lambda')
c('no_cond_test', 'or_test Lambda')
c('test', 'or_test Test Lambda')
c('named_expr', 'test NamedExpr')
c('star_expr', 'StarExpr')
c('target', 'expr StarExpr')
c('targets', 'target ExprList')
c('star_or_test', 'test StarExpr')
c('testlist', 'test TestList')
c('testlist_star_expr', 'test StarExpr TestListStarExpr')
c('sync_comp_for', 'SyncCompForComprehension')
c('comp_for', 'sync_comp_for CompForComprehension')
c('comp_if', 'CompIfComprehension')
c('comp_iter', 'comp_for comp_if')
c('comp_element', 'named_expr StarExpr comp_for')
c('testlist_comp', 'TestListComp')
c('yield_expr', 'YieldExpr YieldFromExpr')
c('yield_or_testlist_comp', 'yield_expr TestListComp')
c('yield_or_testlist', 'yield_expr testlist')
c('yield_or_testlist_star', 'yield_expr testlist_star_expr TestList')
c('dictionary', 'DictionaryContainer')
c('set', 'SetContainer')
c('dict_or_set', 'dictionary set')
c('dictionary_entry', 'DictionaryEntry PowerDictionary')
c('set_entry', 'test MulSet')
c('trailer', 'CallTrailer IndexTrailer DotNameTrailer')
c('subscript_list', 'SubscriptList')
c('subscript', 'Subscript')
c('arglist', 'ArgList')
c('argument', 'Argument')
c('argument_value', 'test comp_for')
c('var_args_list', 'VarArgsList')
c('vfp_def', 'VFPDef')
c('vfp', 'VFPDef VFPAssign')
c('dotted_name', 'DottedNameStmt')
c('dotted_as_name', 'DottedAsNameStmt')
c('dotted_as_names', 'DottedAsNamesStmt')
c('import_as_name', 'ImportAsName')
c('import_as_names', 'ImportAsNamesStmt')
c('del_stmt', 'DelStmt'); c('pass_stmt', 'PassStmt'); c('break_stmt', 'BreakStmt'); c('continue_stmt', 'ContinueStmt')
c('return_stmt', 'ReturnStmt'); c('raise_stmt', 'RaiseStmt')
c('flow_stmt', 'BreakStmt ContinueStmt ReturnStmt RaiseStmt yield_expr')
c('import_name', 'ImportNameStmt'); c('import_from', 'ImportFromStmt')
c('import_stmt', 'ImportNameStmt ImportFromStmt')
c('global_stmt', 'GlobalStmt'); c('nonlocal_stmt', 'NonLocalStmt'); c('assert_stmt', 'AssertStmt')
c('ann_assign', 'AnnAssignStmt')
c('expr_stmt', 'testlist_star_expr AnnAssignStmt AssignmentStmt PlusAssignStmt MinusAssignStmt MulAssignStmt DivAssignStmt FloorDivAssignStmt ModuloAssignStmt MatriceAssignStmt PowerAssignStmt ShiftLeftAssignStmt ShiftRightAssignStmt BitOrAssignStmt BitXorAssignStmt BitAndAssignStmt')
c('small_stmt', 'DelStmt PassStmt flow_stmt import_stmt GlobalStmt NonLocalStmt AssertStmt expr_stmt')
c('simple_stmt', 'SimpleStmtList')
c('if_stmt', 'IfStmt'); c('elif_stmt', 'ElifStmt'); c('else_stmt', 'ElseStmt'); c('while_stmt', 'WhileStmt'); c('for_stmt', 'ForStmt')
c('try_stmt', 'TryStmt'); c('finally_stmt', 'FinallyStmt'); c('with_stmt', 'WithStmt'); c('with_item', 'WithItem')
c('except_stmt', 'ExceptStmt'); c('except_clause', 'ExceptClauseStmt')
c('suite', 'SuiteStmt SimpleStmtList'); c('func_body_suite', 'FuncBodySuite SimpleStmtList')
c('func_def', 'FuncDef'); c('class_def', 'ClassDef'); c('async_stmt', 'AsyncStmt')
c('async_able', 'FuncDef WithStmt ForStmt')
c('decorator', 'Decorator'); c('decorators', 'Decorators'); c('decorated', 'Decorated')
c('decoratable', 'ClassDef FuncDef AsyncStmt')
c('compound_stmt', 'IfStmt WhileStmt ForStmt TryStmt WithStmt FuncDef ClassDef Decorated AsyncStmt')
c('stmt', 'simple_stmt compound_stmt')
c('parameter', 'Parameter'); c('typed_args_list', 'TypedArgsList'); c('tfp', 'TFPDef TFPAssign'); c('tfp_def', 'TFPDef')
c('func_type', 'FuncType'); c('type_list', 'TypeList')
c('eval_input', 'EvalInput'); c('file_input', 'FileInput'); c('single_input', 'SingleInput'); c('func_type_input', 'FuncTypeInput')

# ---- what each parser function yields ----
E, S, B = 'parse_expressions_', 'parse_statements_', 'parse_blocks_'
R = {E + 'term': 'term', E + 'named_expression': 'named_expr', E + 'lambda_def': 'lambda', E + 'exprlist': 'targets', E + 'dictorset_maker': 'dict_or_set',
     E + 'var_args_assignments': 'vfp', S + 'yield_stmt': 'yield_expr', B + 'async_func_def': 'async_stmt', B + 'parameters': 'parameter', B + 'tfp_def_assign': 'tfp',
     'parse_functions_func_type': 'func_type', 'parse_functions_type_list': 'type_list', 'parse_patterns_match': 'never'}
for n in 'atom atom_expr power factor arith shift and_expr xor_expr expr star_expr comparison not_test and_test or_test no_cond_test test testlist_comp trailer subscript_list subscript testlist arglist argument comp_iter sync_comp_for comp_for comp_if yield_expr testlist_star_expr var_args_list vfp_def'.split(): R[E + n] = n
for n in 'stmt simple_stmt small_stmt expr_stmt ann_assign del_stmt pass_stmt flow_stmt break_stmt continue_stmt return_stmt raise_stmt import_stmt import_name import_from import_as_name dotted_as_name import_as_names dotted_as_names dotted_name global_stmt nonlocal_stmt assert_stmt compound_stmt async_stmt if_stmt elif_stmt else_stmt while_stmt for_stmt try_stmt finally_stmt with_stmt with_item except_stmt except_clause suite'.split(): R[S + n] = n
for n in 'eval_input file_input single_input func_type_input decorator decorators decorated func_def typed_args_list tfp_def func_body_suite class_def'.split(): R[B + n] = n

def tag_of(variant, f):
    t = TAG[variant]
    if f.k == 'T': return 13 if t == 'op' else 17
    if f.k == 'N': return 16 if t == 'stmt' else 13
    return None

def rust_cond(x):
    x = re.sub(r'@(\d):([\w|]+)', lambda q: 't(%s, %s)' % (q.group(1), '&[' + ', '.join('"%s"' % k for k in q.group(2).split('|')) + ']'), x)
    return re.sub(r'\$(\d)', r'(o(\1) as usize)', re.sub(r'\?(\d)', r'o(\1)', re.sub(r'#(\d)', r'n(\1)', x)))
def rust_table():
    """the table as Rust data for the search oracle"""
    o = ['pub enum F { T(u32, &\'static [&\'static str]), N(u32, &\'static str, &\'static [&\'static str]), O(&\'static F), L(&\'static F), P(&\'static [F]) }\n']
    def strs(xs): return '&[' + ', '.join('"%s"' % x for x in xs) + ']'
    def f(v, x):
        if x.k == 'T': return 'F::T(%d, %s)' % (tag_of(v, x), strs(x.arg))
        if x.k == 'N': return 'F::N(%d, "%s", %s)' % (tag_of(v, x), x.arg, strs(C[x.arg]))
        if x.k in 'OL': return 'F::%s(&%s)' % (x.k, f(v, x.arg))
        return 'F::P(&[%s])' % ', '.join(f(v, y) for y in x.arg)
    o.append('pub static TABLE: &[(&str, &[F])] = &[\n')
    for v, (fs, cs) in G.items(): o.append('  ("%s", &[%s]),\n' % (v, ', '.join(f(v, x) for x in fs)))
    o.append('];\npub static RESULT: &[(&str, &str, &[&str])] = &[\n')
    for k, v in R.items(): o.append('  ("%s", "%s", %s),\n' % (k, v, strs(C[v])))
    o.append('];\npub fn conds(k: &str, n: &dyn Fn(usize) -> usize, o: &dyn Fn(usize) -> bool, t: &dyn Fn(usize, &[&str]) -> bool) -> Option<&\'static str> {\n match k {\n')
    for v, (fs, cs) in G.items():
        if cs:
            o.append('  "%s" => {' % v)
            for x in cs: o.append(' if !(%s) { return Some("%s") }' % (rust_cond(x), x))
            o.append(' None }\n')
    o.append('  _ => None\n }\n}\n')
    return ''.join(o)
