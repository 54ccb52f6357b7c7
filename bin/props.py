"""What each check runs.  jobs: conformance (a harness program produces traces of the real code, a trace
specification judges them); n = cases in the quick and the thorough tier.  mc: model checking of the
specification itself."""
ASSUME = ['the user model is layered, its merge operator is a relaxation, its local bound is admissible and its dominance relation is sound',
          'costs are multiples of 1/4 (exact in double precision)']

NONE = ['the preconditions stated in the property (no access to an empty container except where specified)']
def J(bin, mode, spec, tags, quick, thorough, **kw):
    return dict(bin=bin, mode=mode, spec=spec, tags=tags, n=(quick, thorough), **kw)
def S(mode, tags, q, t, **kw): return J('hx_search', mode, 'SearchTrace', tags, q, t, **kw)
def D(mode, tags, q, t, **kw): return J('hx_dd', mode, 'DiagramTrace', tags, q, t, **kw)
def K(mode, spec, tags, q, t, **kw): return J('hx_cont', mode, spec + 'Trace', tags, q, t, **kw)
def SAN(bin, mode, q, t): return J(bin + '@san', mode, 'MemTrace', ['mem'], q, t, shards=1)
def MC(module, *cfg, **kw): return dict(module=module, cfg=cfg, **kw)

def BUG(module, *bugs, inv='Inv', **kw): return [MC(module, '%s-%s.cfg' % (module, b), expect='Invariant %s is violated' % inv, **kw) for b in bugs]
MCB = [MC('MCBnB', 'MCBnB.cfg', 'MCBnB-deep.cfg', workers=6)] + BUG('MCBnB', 'lose', inv='Covered') + BUG('MCBnB', 'keep', inv='Covered', thorough=True, workers=4)
MCD = [MC('MCDiagram', 'MCDiagram.cfg', 'MCDiagram-deep.cfg', workers=4), MC('MCDiagram', 'MCDiagram-deep2.cfg', thorough=True, workers=4)]
PROPS = {
 'C01': dict(jobs=[S('plain', ['opt'], 9600, 400000), J('hx_search_gn', 'plain', 'SearchTrace', ['opt'], 1600, 60000), S('big', ['opt'], 160, 4000), S('deep', ['opt'], 320, 12000), S('limit', ['opt'], 800, 20000, shards=2)], mc=MCB),
 'C02': dict(jobs=[S('plain', ['sol'], 6400, 300000), S('warm', ['sol'], 4800, 200000), S('limit', ['sol'], 1600, 60000, shards=4), S('big', ['sol'], 80, 2000), S('deep', ['sol'], 160, 8000)]),
 'C03': dict(jobs=[D('restricted', ['arcs', 'bound', 'value', 'flag', 'width', 'apply'], 8000, 200000), D('restricted-wide', ['arcs', 'bound', 'value', 'flag', 'width', 'apply'], 160, 4000), D('restricted-deep', ['arcs', 'bound', 'value', 'flag', 'width', 'apply'], 160, 6000)], mc=MCD + BUG('MCDiagram', 'domvalue', inv='Promise')),
 'C04': dict(jobs=[D('relaxed', ['arcs', 'bound', 'value', 'flag', 'width', 'apply'], 8000, 200000), D('relaxed-wide', ['arcs', 'bound', 'value', 'flag', 'width', 'apply'], 160, 4000), D('relaxed-deep', ['arcs', 'bound', 'value', 'flag', 'width', 'apply'], 160, 6000)], mc=MCD + BUG('MCDiagram', 'exactmerge', 'firstvalue', inv='Promise') + BUG('MCDiagram', 'orexact', inv='ExactReal')),
 'C05': dict(jobs=[D('exact', ['arcs', 'bound', 'value', 'flag', 'apply'], 12000, 300000), D('exact-wide', ['arcs', 'bound', 'value', 'flag', 'apply'], 200, 5000), D('exact-deep', ['arcs', 'bound', 'value', 'flag', 'apply'], 160, 6000), J('hx_dag', 'dag', 'DagTrace', ['arcs', 'bound', 'value', 'flag'], 2400, 100000, shards=4)], mc=MCD),
 'C06': dict(jobs=[D('relaxed', ['back', 'cut'], 8000, 200000), D('relaxed-wide', ['back', 'cut'], 160, 4000), D('relaxed-deep', ['back', 'cut'], 160, 6000)], mc=MCD + BUG('MCDiagram', 'lastkid', inv='CutPromise')),
 'C07': dict(jobs=[S('options', ['same', 'opt'], 2400, 60000), J('hx_search_gn', 'options', 'SearchTrace', ['same', 'opt'], 400, 10000)]),
 'C08': dict(jobs=[D(m, ['wf'], 4000, 100000) for m in ('exact', 'restricted', 'relaxed')] + [D(m + '-wide', ['wf'], 80, 1000) for m in ('exact', 'restricted', 'relaxed')] + [D('relaxed-mix', ['wf'], 1600, 40000)] + [J('hx_dag', 'dag', 'DagTrace', ['wf'], 800, 30000, shards=2)]),
 'C09': dict(jobs=[S('limit', ['limit', 'sol', 'opt'], 9600, 300000)]),
 'C10': dict(jobs=[S('reuse', ['same', 'opt', 'sol'], 2400, 60000), D('exact', ['same'], 3000, 100000), D('restricted', ['same'], 4000, 100000), D('relaxed', ['same'], 4000, 100000), D('relaxed-wide', ['same'], 80, 1000), D('relaxed-mix', ['same', 'apply'], 2000, 60000), J('hx_dd_gn', 'relaxed', 'DiagramTrace', ['same'], 800, 20000, shards=4)]),
 'C11': dict(jobs=[J('hx_dd', 'bnb', 'BnBTrace', [], 9600, 300000)], mc=MCB),
 'C12': dict(assume=NONE, jobs=[K('queue', 'Fifo', ['queue'], 4000, 200000)], mc=[MC('CircQueue', 'CircQueue.cfg', 'CircQueue-deep.cfg')] + BUG('CircQueue', 'nopos', 'noswap', 'full')),
 'C13': dict(assume=NONE, jobs=[K('heap', 'PrioQ', ['heap'], 3200, 160000)], mc=[MC('BinHeap', 'BinHeap.cfg', 'BinHeap-deep.cfg')] + BUG('BinHeap', 'stale', 'oneup', 'left')),
 'C14': dict(assume=NONE, jobs=[K('table', 'Dict', ['table'], 4000, 200000)], mc=[MC('HashTab', 'HashTab.cfg', 'HashTab-deep.cfg')] + BUG('HashTab', 'chain', 'look', 'dup')),
 'C15': dict(assume=NONE, jobs=[K('pool', 'Arena', ['pool'], 4000, 200000)], mc=[MC('SegPool', 'SegPool.cfg', 'SegPool-deep.cfg')] + BUG('SegPool', 'if', 'notop', 'small')),
 'C16': dict(assume=NONE, jobs=[K('gnset', 'Set', ['set'], 4000, 200000)]),
 'C17': dict(assume=NONE, jobs=[K('natset', 'Set', ['set'], 4000, 200000)]),
 'C18': dict(assume=NONE, jobs=[K('gnset', 'Set', ['eq'], 3200, 100000), K('natset', 'Set', ['eq'], 1600, 60000), K('set', 'Set', ['eq'], 1600, 60000), K('array', 'Array', ['eq'], 1600, 60000), K('table', 'Dict', ['table'], 800, 40000)]),
 'C19': dict(assume=NONE, jobs=[K('sort', 'Sort', ['sort'], 4000, 200000), K('list', 'NodeSeq', ['list'], 2400, 100000), K('ndarray', 'NodeSeq', ['list'], 2400, 100000)]),
 'C20': dict(assume=NONE, jobs=[K('vec', 'Vector', ['vec'], 4800, 200000)]),
 'C21': dict(assume=NONE, jobs=[K('uf', 'Partition', ['uf'], 4800, 200000)]),
 'C22': dict(assume=NONE, jobs=[K('array', 'Array', ['array'], 3200, 150000), K('matrix', 'Matrix', ['matrix'], 2400, 100000)]),
 'C23': dict(assume=NONE, jobs=[K('range', 'Range', ['range'], 3200, 150000), K('set', 'Set', ['set'], 3200, 150000)]),
 'C25': dict(jobs=[S('report', ['prog'], 2400, 100000), S('plain', ['prog'], 2400, 100000), S('warm', ['prog'], 1600, 60000), S('options', ['prog'], 400, 10000), S('limit', ['prog'], 800, 20000, shards=2), S('big', ['prog'], 120, 3000), S('deep', ['prog'], 240, 8000)],
             mc=[MC('MCBnB', 'MCBnB-bracket.cfg')] + BUG('MCBnB', 'anyorder', inv='AnyBracket')),
 'C26': dict(assume=ASSUME[:1], jobs=[J('hx_draw', 'draw', 'DrawTrace', ['draw'], 1600, 60000)]),
 'C27': dict(jobs=[J('hx_search', 'det', 'DetTrace', ['det'], 2400, 100000), J('hx_search_gn', 'det', 'DetTrace', ['det'], 800, 20000, shards=4)]),
 'C24': dict(assume=NONE, jobs=[K('shared', 'Shared', ['mem'], 3200, 150000)] + [SAN(b, m, n, t) for b, m, n, t in (
            ('hx_search', 'plain', 1600, 60000), ('hx_search', 'reuse', 400, 10000), ('hx_search', 'limit', 800, 20000), ('hx_search', 'big', 40, 1000), ('hx_search', 'options', 240, 6000),
            ('hx_dd', 'exact', 1200, 40000), ('hx_dd', 'restricted', 1200, 40000), ('hx_dd', 'relaxed', 1200, 40000), ('hx_dd', 'relaxed-mix', 400, 10000), ('hx_dd', 'bnb', 1200, 40000), ('hx_dd', 'exact-wide', 40, 1000), ('hx_dd', 'relaxed-wide', 40, 1000), ('hx_dag', 'dag', 400, 10000))]
         + [SAN('hx_cont', m, 1200, 40000) for m in ('shared', 'queue', 'heap', 'table', 'pool', 'gnset', 'natset', 'set', 'vec', 'uf', 'sort', 'list', 'ndarray', 'array', 'matrix', 'range')],
         mc=[MC('PoolVec', 'PoolVec.cfg', 'PoolVec-deep.cfg', workers=4)] + BUG('PoolVec', 'late', 'short', 'nocopy', 'over')),
}
